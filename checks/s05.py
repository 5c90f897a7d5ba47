"""What is written in the Srl format is read back as it was written."""
from wire import *
import s04
from models import ret
from s04 import RNG, payload, impossible, whole, result, data_of, scope_tags, float_of

P = 'PSrl'


def run(rep):
    do = Jobs(rep)
    m = harness()
    rep.level = 'other'
    rep.explanation = (
        'Each scenario is a sequence of operations of the writer (one abstract value: every integer, every float, data of any length; '
        'or scopes and names in shapes that make names come back) followed by the operations of the reader on what the abstract stream '
        'has received, in one abstract state, so that values are compared as expressions. Rules: the writer does not refuse, the reader '
        'yields the same types, values, data and names in order and nothing more. The same scopes are read and written again with hash '
        'functions under which names collide. Foreign documents: after seven regular beginnings each of the 256 header bytes with every '
        'continuation; the reader ends in Srl::Exception or yields names that lie in the document, and no scope end without a scope.')
    L = layout(m)
    ends = scope_tags(m, L)
    for c in RNG:
        do(c, integer, m, L, c, ends)
    for c in ('float', 'double'):
        do(c, real, m, L, c, ends)
    do('bool', truth, m, L, ends)
    for c in ('text', 'blob'):
        do(c, data, m, L, c, ends)
    for what, ops in BEGIN:
        do('after ' + what, anything, m, L, 'after ' + what, ops, ends)
    for what, ops in NAMED:
        do(what, scopes, m, L, what, ops, ends)
    for how in ('one', 'slot'):
        for what, ops in NAMED:
            if len(ops) < 100:
                w = '%s, %s' % (what, 'all names with the same hash value' if how == 'one' else 'all names in the same slot')
                do(w, scopes, m, L, w, ops, ends, how)
    do('names of any content', named, m, L, ends)
    do.all()


def where(m):
    return fn(m, r'^Srl::%s::write\(' % P).where


def rwhere(m):
    return fn(m, r'^Srl::%s::read\(' % P).where


class Trip:
    """operations of the writer, then of the reader on what has been written, in the same states"""

    def __init__(self, rep, m, L, tags, what, objs=lambda R: None, new=r'^drv::new_srl\('):
        self.rep, self.m, self.L, self.tags, self.what = rep, m, L, tags, what
        self.R = R = Run(rep, m, exact=True)
        R.I.unroll = 40
        self.S = Sink(R)
        self.S.init(R.st)
        os_ = R.obj(256, 'the stream')
        self.outp = R.obj(128, 'the result')
        self.objs = objs(R)
        self.q = Seq(R)
        self.q.call(fn(m, r'^drv::out_to_stream\('), os_, to='out')
        self.q.call(fn(m, new), to='p')
        self.new = new

    def put(self, op, *a):
        self.q.call(of(self.m, op, P), 'p', *a, 'out')
        return self

    def written(self, more=0):
        """turns what is written into the document that is read; so many unknown bytes follow"""
        m, q = self.m, self.q
        q.call(fn(m, r'^drv::finish\('), 'out')
        for o, i in q.thrown:
            self.rep.check(impossible(o.st), 'writer-does-not-refuse', where(m), '%s: writing ends in an exception' % self.what)
        q.thrown = []
        live = []
        for st, names in q.live:
            if impossible(st):
                continue
            if st.ghost['torn'] or not st.ghost['flushed']:
                self.rep.check(False, 'written-is-read-back', where(m), '%s: the document is not complete' % self.what)
                continue
            k = ('in', 'document')
            o = Obj('buf', ladd(st.ghost['end'], more), 'bytes' if more != 0 else 'undef', 'the document', ro=True)
            o.src = 'rest'
            for off, kind, v, l in st.ghost['sink']:
                if kind == 'b' and more == 0:
                    o.cells[off] = (1, v)
                elif kind == 'b':
                    st.mask[byte_sym(('doc', 'rest', off))] = 1 << v
            st.add(k, o)
            s = ladd(st.ghost['end'], more)
            z = Seq(self.R)
            z.live = [(st, names)]
            z.call(fn(m, r'^drv::in_of_memory\('), Ptr(k, 0), s, to='in')
            z.call(fn(m, self.new), to='r')
            live += z.live
        q.live = live
        if not live:
            self.rep.undecided(self.what, 'nothing is written')
        return self

    def get(self, check):
        """one read; check(state) says why the result is not right"""
        m, q = self.m, self.q
        q.call(of(m, 'get', P), 'r', 'in', self.outp)
        for o, i in q.thrown:
            self.rep.check(impossible(o.st), 'written-is-read-back', rwhere(m), '%s: the document is refused' % self.what)
        q.thrown = []
        for st, names in q.live:
            why = cases(st, lambda s: None if impossible(s) else check(s))
            self.rep.check(why is None, 'written-is-read-back', rwhere(m), '%s: %s' % (self.what, why))
        self.rep.count('paths', len(q.live))
        return self

    def over(self):
        """nothing is left"""
        m, q = self.m, self.q
        for st, names in q.live:
            z = Seq(self.R)
            z.live = [(st, names)]
            z.call(of(m, 'get', P), 'r', 'in', self.outp)
            self.rep.check(not any(not impossible(s) for s, _ in z.live), 'written-is-read-back', rwhere(m), '%s: more is read than was written' % self.what)
        self.R.report()


def integer(rep, m, L, c, tags):
    lo, hi = RNG[c]
    v = sym(('value', c), lo, hi)
    t = Trip(rep, m, L, tags, 'a value of ' + c, lambda R: L.obj(R, 'the value', L.tag[c][0], v.lin))
    t.put('put', t.objs, NULL, 0).written()

    def check(st):
        ty, x, name, ns = result(st, L, t.outp)
        x = whole(st, L, ty, x)
        if x is None or equal(st, x, v.lin) is not True:
            return 'read as %s of type %s' % (x, ty)
    t.get(check).over()


def real(rep, m, L, c, tags):
    v = fsym(('value', c), 32 if c == 'float' else 64)
    for tag in L.tag[c]:
        if c == 'double' and tag in L.tag['float']:
            continue           # kept as a float
        t = Trip(rep, m, L, tags, 'a value of ' + c, lambda R: L.obj(R, 'the value', tag, v, v.w // 8))
        t.put('put', t.objs, NULL, 0).written()

        def check(st):
            ty, x, name, ns = result(st, L, t.outp)
            if ty == tag and x == v:
                return None
            if ty in L.tag['float'] and c == 'double' and isinstance(x, FSym) and x.defn == ('cast', v):
                # stored narrower where that is shown to be the same number
                e = fsym(('fcast', x, 64), 64, ('cast', x))
                if any(st.srange(sym(('fcmp', 'oeq', p, q), 0, 1)) == (1, 1) for p, q in ((v, e), (e, v))):
                    return None
            return 'read as %r of type %s' % (x, ty)
        t.get(check).over()


def truth(rep, m, L, tags):
    v = sym(('value', 'bool'), 0, 1)
    t = Trip(rep, m, L, tags, 'a truth value', lambda R: L.obj(R, 'the value', L.tag['bool'][0], v.lin))
    t.put('put', t.objs, NULL, 0).written()

    def check(st):
        ty, x, name, ns = result(st, L, t.outp)
        if ty not in L.tag['bool'] or equal(st, st.to_u(x, 64), v.lin) is not True:
            return 'read as %s of type %s' % (x, ty)
    t.get(check).over()


def same_data(t, st, p, n, src, want):
    """why the n bytes at p are not the ones written from a source"""
    if equal(st, n, want) is not True:
        return '%s bytes are read of %s' % (n, want)
    if st.is_zero(as_lin(n)) is True or n == 0:
        return None
    if not isinstance(n, int) and st.is_zero(n) is None:
        raise Split([[peq(n)], [pne(n)]])
    if not isinstance(p, Ptr) or p.obj != ('in', 'document'):
        return 'the data is taken from elsewhere'
    at = p.off
    left = n
    for off, kind, v, l in st.ghost['sink']:
        if equal(st, off, at) is True:
            if kind == 'run' and v[0] == ('in', src) and st.is_zero(v[1]) is True and equal(st, l, want) is True:
                return None
            if kind == 'b':
                i = st.const(lsub(at, p.off))
                if not isinstance(i, int) or equal(st, v, byte_sym(('doc', src, i)).lin) is not True:
                    return 'other data is read'
                at = ladd(at, 1)
                if equal(st, i + 1, want) is True:
                    return None
    return 'the data is taken from elsewhere'


def data(rep, m, L, kind, tags):
    PAYLOADS.update(('the data',))
    n = sym(('length', kind), 0, 2**32 - 1)
    t = Trip(rep, m, L, tags, 'data of any length', lambda R: payload(R, n.lin, 'the data'))
    t.put('put_' + kind, t.objs, n.lin, NULL, 0).written()

    def check(st):
        ty, x, name, ns = result(st, L, t.outp)
        if ty != tags['String' if kind == 'text' else 'Binary']:
            return 'read as type %s' % ty
        p, sz = data_of(st, L, t.outp, m, t.R)
        return same_data(t, st, p, sz, 'the data', n.lin)
    t.get(check).over()


def hashes(how):
    """another hash function for names; which one it is must not matter"""
    def model(I, st, a, d, n):
        p, size = a[0], st.const(a[1])
        if how == 'one':
            return ret(I, st, 0x123456789)
        x = 0
        if not isinstance(size, int) or not isinstance(p, Ptr):
            raise GiveUp('a name of unknown size')
        for j in range(size):
            b = st.const(byte_at(st, p.obj, ladd(p.off, j)))
            if not isinstance(b, int):
                raise GiveUp('an unknown name')
            x = (x * 31 + b) % 2**31
        # both halves alike: different numbers that all fall in the same slot of a table
        return ret(I, st, x << 32 | x)
    return (re.compile(r'^Srl::Lib::Aux::hash_fnc$'), model)


def scopes(rep, m, L, what, ops, tags, how=None):
    """ops: (kind, name); names are constants in a buffer that the caller uses again"""
    names = {x[1] for x in ops if len(x) > 1}
    buf = []

    def objs(R):
        if how:
            R.I.models = [hashes(how)] + R.I.models
        buf.append(R.buf(max([len(s) for s in names], default=1), 'a name', 'undef'))
    t = Trip(rep, m, L, tags, what, objs)
    stack = []
    want = []
    for op in ops:
        if op[0] == 'end':
            t.put('put_end')
            stack.pop()
            want.append(('Scope_End', None))
            continue
        s = op[1] if len(op) > 1 else None
        if s:
            for st, _ in t.q.live:
                o = st.wobj(buf[0].obj)
                o.cells = {i: (1, ch) for i, ch in enumerate(s.encode())}
        t.put('put_' + op[0], *((buf[0], len(s)) if s else (NULL, 0)))
        want.append(({'null': 'Null', 'object': 'Object', 'array': 'Array'}[op[0]], s if stack and stack[-1] == 'object' else None))
        if op[0] in ('object', 'array'):
            stack.append(op[0])
    t.written()
    for i, (ty, s) in enumerate(want):
        def check(st):
            y, x, name, ns = result(st, L, t.outp)
            if y != tags[ty]:
                return 'item %d is read as type %s instead of %s' % (i, y, ty)
            if ty == 'Scope_End':
                return None
            if ns != len(s or ''):
                return 'the name of item %d is read with %s bytes instead of %d' % (i, ns, len(s or ''))
            if s and (not isinstance(name, Ptr) or [st.const(byte_at(st, name.obj, ladd(name.off, j))) for j in range(ns)] != list(s.encode())):
                return 'item %d is read with another name' % i
        t.get(check)
    t.over()


def named(rep, m, L, tags):
    """names of any length and content, on values of several kinds"""
    PAYLOADS.update(('the name', 'the data'))
    n = sym(('length', 'name'), 1, 300)
    k = sym(('length', 'data'), 0, 2**32 - 1)
    v = sym(('value', 'named'), -60, -1)
    bufs = {}

    def objs(R):
        R.I.models = [hashes('one')] + R.I.models
        bufs['name'] = payload(R, n.lin, 'the name')
        bufs['data'] = payload(R, k.lin, 'the data')
        return L.obj(R, 'the value', L.tag['long'][0] if 'long' in L.tag else L.tag['long long'][0], v.lin)
    t = Trip(rep, m, L, tags, 'names of any content', objs)
    t.R.I.max_cfgs = 6000
    nm = (bufs['name'], n.lin)
    t.put('put_object', NULL, 0)
    t.put('put_null', *nm)
    t.put('put', t.objs, *nm)
    t.put('put_end')
    t.written()

    def check(tag, has):
        def f(st):
            y, x, name, ns = result(st, L, t.outp)
            if tag == 'int':
                x = whole(st, L, y, x)
                if x is None or equal(st, x, v.lin) is not True:
                    return 'the value is read as %s of type %s' % (x, y)
            elif y != tags[tag]:
                return 'an item is read as type %s instead of %s' % (y, tag)
            if tag == 'Scope_End':
                return None
            if tag == 'String':
                p, sz = data_of(st, L, t.outp, m, t.R)
                why = same_data(t, st, p, sz, 'the data', k.lin)
                if why:
                    return why
            if not has:
                return None if ns == 0 else 'a name is read where none was written'
            why = same_data(t, st, name, ns, 'the name', n.lin)
            return why and 'the name: ' + why
        return f
    for tag, has in (('Object', 0), ('Null', 1), ('int', 1), ('Scope_End', 0)):
        t.get(check(tag, has))
    t.over()


NAMED = [
    ('an empty array', [('array',), ('end',)]),
    ('an empty object', [('object',), ('end',)]),
    ('values in an array', [('array',), ('null',), ('null', 'ignored'), ('end',)]),
    ('names again', [('object',), ('null', 'a'), ('null', 'bc'), ('null', 'a'), ('null', 'bc'), ('null', 'def'), ('null', 'def'), ('null', 'a'), ('end',)]),
    ('names again further in', [('object',), ('null', 'a'), ('object', 'b'), ('null', 'b'), ('null', 'a'), ('array', 'c'), ('null',), ('object',), ('null', 'c'),
                                ('null', 'd'), ('end',), ('end',), ('null', 'd'), ('end',), ('null', 'c'), ('null', 'b'), ('end',)]),
    ('objects in an array', [('array',), ('object',), ('null', 'x'), ('null', 'y'), ('end',), ('object',), ('null', 'y'), ('null', 'x'), ('end',), ('array',),
                             ('object',), ('null', 'y'), ('end',), ('end',), ('null',), ('end',)]),
    ('no name', [('object',), ('null',), ('null', 'a'), ('null',), ('null', 'a'), ('end',)]),
    ('names of one beginning', [('object',), ('null', 'ab'), ('null', 'abc'), ('null', 'a'), ('null', 'abc'), ('null', 'ab'), ('null', 'a'), ('end',)]),
    ('30 names, twice', [('object',)] + [('null', 'n%d' % i) for i in range(30)] * 2 + [('end',)]),
    ('long names', [('object',), ('null', 'x' * 127), ('null', 'x' * 128), ('null', 'y' * 128), ('null', 'x' * 300), ('null', 'x' * 127), ('null', 'x' * 300), ('null', 'x' * 128), ('end',)]),
    ('deep scopes', [('object',)] + [('array', 'n'), ('object',)] * 4 + [('null', 'n')] + [('end',), ('end',)] * 4 + [('null', 'n'), ('end',)]),
    ('300 names', [('object',)] + [('null', 'n%d' % i) for i in list(range(300)) + [0, 1, 127, 128, 129, 255, 256, 257, 299]] + [('end',)]),
]


def anything(rep, m, L, what, ops, tags):
    """after a regular beginning: whatever follows is refused or lies within the document"""
    more = sym(('rest', what), 0, 1 << 40).lin
    bufs = {}

    def objs(R):
        for s in ('a', 'bcd'):
            p = R.buf(len(s), 'name ' + s, 'undef', ro=True)
            for i, ch in enumerate(s.encode()):
                R.st.mem[p.obj].cells[i] = (1, ch)
            bufs[s] = p
    t = Trip(rep, m, L, tags, what, objs)
    t.R.I.max_cfgs = 6000
    for op in ops:
        t.put('put_' + op[0], *(() if op[0] == 'end' else (bufs[op[1]], len(op[1])) if len(op) > 1 else (NULL, 0)))
    t.written(more)
    for op in ops:
        t.get(lambda st: None)
    begun = t.q.live
    for b in range(256):
        q = Seq(t.R)
        q.live = []
        for st, names in begun:
            s = st.fork()
            s.mask[byte_sym(('doc', 'rest', st.ghost['end']))] = 1 << b
            q.live.append((s, names))
        q.call(of(m, 'get', P), 'r', 'in', t.outp)
        for o, i in q.thrown:
            rep.check(impossible(o.st) or is_srl(o), 'foreign-documents-are-refused', rwhere(m),
                      '%s, then %02x: ends in another exception than Srl::Exception' % (what, b))
        for st, names in q.live:
            def inside(s):
                if impossible(s):
                    return None
                y, x, name, ns = result(s, L, t.outp)
                if ns is None:
                    return 'the size of a name is not set'
                if y == tags['Scope_End']:
                    # only where a scope is open
                    return None if depth(ops) else 'the end of a scope is read that has not begun'
                if ns == 0 or not isinstance(ns, int) and s.is_zero(ns) is True:
                    return None
                if not isinstance(ns, int) and s.is_zero(ns) is None:
                    raise Split([[peq(ns)], [pne(ns)]])
                if not isinstance(name, Ptr) or name.obj not in s.mem:
                    return 'a name is taken from nowhere'
                size = s.mem[name.obj].size
                return None if s.entails(name.off) and s.entails(lsub(size, ladd(name.off, ns))) else 'a name is read that the document has not the bytes for'
            why = cases(st, inside)
            rep.check(why is None, 'foreign-documents-are-refused', rwhere(m), '%s, then %02x: %s' % (what, b, why))
        rep.count('paths', len(q.live) + len(q.thrown))
    t.R.report()


def depth(ops):
    return sum(1 if op[0] in ('object', 'array') else -1 if op[0] == 'end' else 0 for op in ops)


BEGIN = [('nothing', []), ('an object', [('object',)]), ('an object with a name', [('object',), ('null', 'a')]),
         ('an object with two names', [('object',), ('null', 'a'), ('null', 'bcd')]), ('an array', [('array',)]),
         ('an array in an object', [('object',), ('array', 'a')]), ('a scope that has ended', [('object',), ('null', 'a'), ('end',)])]
