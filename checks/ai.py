"""Scenarios for the abstract interpreter: entry points with abstract arguments, and what must hold afterwards."""
import os
import re
from build import Broken
from absint import *
from state import *
from dom import infeasible
from common import api


def evalv(v, asg):
    """value under an assignment of the primary byte symbols; None if it depends on anything else"""
    if isinstance(v, int):
        return v
    if isinstance(v, Bits):
        r = 0
        for i, b in enumerate(v.b):
            if b is None:
                return None
            if isinstance(b, tuple):
                x = evalsym(b[0], asg)
                if x is None:
                    return None
                b = x >> b[1] & 1
            r |= b << i
        return r
    if isinstance(v, Lin):
        r = v.c
        for s, k in v.t:
            x = evalsym(s, asg)
            if x is None:
                return None
            r += k * x
        return r
    return None


_comp = {}


def compilev(v, order):
    """the value as a function of the primary byte symbols in order; None if it depends on anything else"""
    key = (v, tuple(s.uid for s in order))
    if key in _comp:
        return _comp[key]
    names = {s: 'x%d' % i for i, s in enumerate(order)}
    tabs = []

    def cv(v):
        if isinstance(v, int):
            return str(v)
        if isinstance(v, Bits):
            out, i, b = [], 0, v.b
            while i < len(b):
                if b[i] is None:
                    return None
                if isinstance(b[i], tuple):
                    j = i
                    while j + 1 < len(b) and isinstance(b[j + 1], tuple) and b[j + 1][0] is b[i][0] and b[j + 1][1] == b[j][1] + 1:
                        j += 1
                    x = cs(b[i][0])
                    if x is None:
                        return None
                    out.append('((%s>>%d&%d)<<%d)' % (x, b[i][1], (1 << (j - i + 1)) - 1, i))
                    i = j + 1
                else:
                    if b[i]:
                        out.append(str(1 << i))
                    i += 1
            return '(' + '|'.join(out or ['0']) + ')'
        if isinstance(v, Lin):
            out = [str(v.c)]
            for s, k in v.t:
                x = cs(s)
                if x is None:
                    return None
                out.append('%d*%s' % (k, x))
            return '(' + '+'.join(out) + ')'
        return None

    def cs(s):
        if s in names:
            return names[s]
        if s.byte is not None and s.byte[0] in names:
            tabs.append(s.byte[1])
            return 'T[%d][%s]' % (len(tabs) - 1, names[s.byte[0]])
        if s.defn and s.defn[0] == 'bits':
            return cv(Bits(s.defn[1]))
        k = s.key
        if isinstance(k, tuple) and k and k[0] in ('and', 'or', 'xor') and len(k) >= 3:
            a, b = cv(k[1]), cv(k[2])
            return None if a is None or b is None else '(%s%s%s)' % (a, {'and': '&', 'or': '|', 'xor': '^'}[k[0]], b)
        if isinstance(k, tuple) and k and k[0] == 'quot':
            a = cv(k[1])
            return None if a is None else '(%s//%d)' % (a, k[2])
        if isinstance(k, tuple) and k and k[0] == 'lutv':
            a = cv(k[1])
            if a is None:
                return None
            tabs.append(k[2])
            return 'T[%d][%s]' % (len(tabs) - 1, a)
        return None
    e = cv(v)
    r = _comp[key] = None if e is None else eval('lambda %s: %s' % (','.join(names[s] for s in order), e), {'T': tabs})
    return r


def evalsym(s, asg):
    if s in asg:
        return asg[s]
    if s.byte is not None and s.byte[0] in asg:
        return s.byte[1][asg[s.byte[0]]]
    if s.defn and s.defn[0] == 'bits':
        return evalv(Bits(s.defn[1]), asg)
    k = s.key
    if isinstance(k, tuple) and k and k[0] in ('and', 'or', 'xor') and len(k) >= 3:
        a, b = evalv(k[1], asg), evalv(k[2], asg)
        if a is None or b is None:
            return None
        return a & b if k[0] == 'and' else a | b if k[0] == 'or' else a ^ b
    if isinstance(k, tuple) and k and k[0] == 'quot':
        a = evalv(k[1], asg)
        return None if a is None else a // k[2]
    if isinstance(k, tuple) and k and k[0] == 'lutv':
        a = evalv(k[1], asg)
        return None if a is None or not 0 <= a < len(k[2]) else k[2][a]
    return None


def deps(v, out=None):
    """primary byte symbols (or other leaves) a value depends on"""
    if out is None:
        out = set()
    if isinstance(v, Bits):
        for b in v.b:
            if isinstance(b, tuple):
                sdeps(b[0], out)
            elif b is None:
                out.add(None)
    elif isinstance(v, Lin):
        for s, _ in v.t:
            sdeps(s, out)
    return out


def sdeps(s, out):
    if s.byte is not None:
        out.add(s.byte[0])
    elif s.defn and s.defn[0] == 'bits':
        deps(Bits(s.defn[1]), out)
    elif isinstance(s.key, tuple) and s.key and s.key[0] in ('and', 'or', 'xor', 'quot', 'lutv'):
        for x in s.key[1:3]:
            if isinstance(x, (Lin, Bits)):
                deps(x, out)
    else:
        out.add(s)


def vals(st, s):
    m = st.mask.get(s, (1 << 256) - 1)
    return [v for v in range(256) if m >> v & 1]


ALL = (1 << 256) - 1


def byte_mask(pred):
    m = 0
    for v in range(256):
        if pred(v):
            m |= 1 << v
    return m


RUNS = []


class Run:
    """one interpreter per scenario"""

    def __init__(self, rep, m=None, name='', exact=False):
        self.rep, self.m, self.name = rep, m or api(), name
        self.I = Interp(self.m)
        if exact:
            self.I.keep_masks, self.I.unroll, self.I.max_work = True, 60, 400
        self.st = State()
        self.args = []
        self.n = 0
        self.done = False
        RUNS.append(self)

    def buf(self, size, name, dflt='lazy', ro=False):
        self.n += 1
        k = ('in', name)
        self.st.add(k, Obj('buf', size, dflt, name, ro=ro))
        return Ptr(k, 0)

    def vec(self, size, name, dflt='lazy'):
        self.n += 1
        k, q = ('vd', name), ('vo', name)
        self.st.add(k, Obj('vec', size, dflt, name))
        o = Obj('in', 24, 'lazy', name)
        o.cells = {0: (8, Ptr(k, 0)), 8: (8, Ptr(k, size)), 16: (8, Ptr(k, size))}
        self.st.add(q, o)
        return Ptr(q, 0)

    def obj(self, size, name, dflt='lazy', cells=None):
        k = ('in', name)
        o = Obj('in', size, dflt, name)
        o.cells = dict(cells or {})
        self.st.add(k, o)
        return Ptr(k, 0)

    def call(self, f, *args):
        return self.I.call(self.st, f, list(args))

    def report(self, only=None, wrong=False):
        """obligations of the interpreter become obligations of the check"""
        self.done = True
        for (rule, where), ok in sorted(self.I.obl.items()):
            if only and rule not in only or wrong and ok:
                continue
            if ok:
                self.rep.ok(rule, where)
            else:
                self.rep.bad(rule, where, self.I.viol[(rule, where)])


def guarded(rep, what, fn):
    """runs a scenario; an analysis that cannot cope is recorded as undecided, never as a violation; what
    the operations analysed before have been found to do wrong is one all the same"""
    RUNS.clear()
    try:
        fn()
        rep.count('scenarios')
        return
    except (Broken, RecursionError) as e:
        if os.environ.get("VERIF_DEBUG"):
            import traceback
            traceback.print_exc()
        rep.undecided(what, str(e) or type(e).__name__)
    except Exception as e:
        # the analysis met code it does not understand
        if os.environ.get('VERIF_DEBUG'):
            raise
        rep.undecided(what, '%s: %s' % (type(e).__name__, e))
    for R in RUNS:
        if not R.done and R.rep:
            R.report(wrong=True)


class Record:
    """takes down what is reported, for the process that asked"""

    def __init__(self, tier):
        self.tier, self.calls, self.oks, self.counts = tier, [], {}, {}

    def ok(self, rule, what=None):
        self.oks[(rule, what)] = self.oks.get((rule, what), 0) + 1

    def bad(self, *a):
        self.calls.append(('bad', a))

    def check(self, cond, rule, where, text, what=None):
        if cond:
            self.ok(rule, what or where)
        else:
            self.bad(rule, where, text)
        return cond

    def undecided(self, *a):
        self.calls.append(('undecided', a))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n


JOBS = []


def one_job(i):
    tier, what, f = JOBS[i]
    r = Record(tier)
    guarded(r, what, lambda: f(r))
    return r.calls, r.oks, r.counts


def parallel(rep, jobs):
    """scenarios [(what, function of a report)] on all processors"""
    from concurrent.futures import ProcessPoolExecutor
    import multiprocessing
    JOBS[:] = [(rep.tier, what, f) for what, f in jobs]
    n = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    done = []
    if n > 1:
        try:
            with ProcessPoolExecutor(n, mp_context=multiprocessing.get_context('fork')) as ex:
                done = list(ex.map(one_job, range(len(JOBS)), chunksize=1))
        except OSError:
            done = []
        except Exception as e:
            if 'process' not in str(e).lower():
                raise
            done = []
    for i in range(len(done), len(JOBS)):
        done.append(one_job(i))
    for calls, oks, counts in done:
        for (rule, what), k in oks.items():
            for _ in range(k):
                rep.ok(rule, what)
        for f, a in calls:
            getattr(rep, f)(*a)
        for name, k in counts.items():
            rep.count(name, k)


class Jobs:
    """scenarios to run: (what, function of a report and the arguments that follow)"""

    def __init__(self, rep):
        self.rep, self.jobs = rep, []

    def __call__(self, what, f, *a):
        self.jobs.append((what, lambda r: f(r, *a)))

    def all(self):
        parallel(self.rep, self.jobs)


def vec_of(st, p):
    """(storage key, size) of a vector object"""
    o = st.mem[p.obj]
    b, e = o.cells[0][1], o.cells[8][1]
    if b.obj == 'null':
        return None, 0
    return b.obj, lsub(e.off, b.off)


def cell(st, k, off):
    """the byte at an offset, also where a wider store put it"""
    o = st.mem.get(k)
    c = o.cells.get(off) if o else None
    if c and c[0] == 1:
        return c[1]
    if o and isinstance(off, int):
        for x, (sz, v) in o.cells.items():
            if isinstance(x, int) and isinstance(sz, int) and x <= off < x + sz <= x + 8 and isinstance(v, (int, Lin, Bits)):
                b = bits_of(v, 8 * sz)
                if b is not None:
                    return from_bits(b[8 * (off - x):8 * (off - x) + 8])
    return None


def cases(st, fn, depth=0):
    """fn(state) returns why something is wrong or None; where it depends on a case distinction, all cases are tried"""
    try:
        return fn(st)
    except Split as sp:
        if depth > 6:
            raise Broken('case distinction does not end')
        for cond in sp.alts:
            s2 = st.fork()
            if all(s2.assume(c) for c in cond):
                r = cases(s2, fn, depth + 1)
                if r is not None:
                    return r
        return None


def is_srl(o):
    """a throw outcome with an Srl::Exception"""
    v = o.val
    return isinstance(v, tuple) and 'N3Srl9ExceptionE' in str(v[1])


def impossible(st):
    """no values satisfy what the path has learnt"""
    syms = set(st.iv) | {y for f in st.facts for y, _ in f.t}
    return infeasible(st.related(list(syms))) or any(st.entails(x) and st.entails(lscale(x, -1)) for x in st.ne)
