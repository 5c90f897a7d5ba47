"""Abstract states: symbols' ranges, linear facts, byte partitions, memory."""
from dom import *
from dom import _infeasible

INF = float('inf')
ALL = (1 << 256) - 1


class Split(Exception):
    """the transfer function needs a case distinction"""
    def __init__(self, alts):
        self.alts = alts          # list of lists of conditions


class Contradiction(Exception):
    pass


def pge(l):
    return Cmp('ge', l, None, 0)


def peq(l):
    return Cmp('eq', l, None, 0)


def pne(l):
    return Cmp('ne', l, None, 0)


def neg(c):
    p = c.pred
    if p == 'ge':
        return Cmp('ge', lsub(-1, c.a), None, 0)
    if p == 'eq':
        return Cmp('ne', c.a, None, 0)
    if p == 'ne':
        return Cmp('eq', c.a, None, 0)
    if p == 'byte':
        return Cmp('byte', c.a, c.b ^ ((1 << 256) - 1), 0)
    if p == 'null':
        return Cmp('nonnull', c.a, c.b, 0)
    if p == 'nonnull':
        return Cmp('null', c.a, c.b, 0)
    if p == 'f':
        return Cmp('f', c.a, (NEG[c.b[0]], c.b[1]), 0)
    raise AssertionError(p)


class Obj:
    __slots__ = ('kind', 'size', 'dflt', 'cells', 'segs', 'dead', 'ver', 'nullable', 'ro', 'name', 'src', 'extra')

    def __init__(self, kind, size=None, dflt='undef', name=None, nullable=False, ro=False):
        self.kind, self.size, self.dflt = kind, size, dflt
        self.cells, self.segs, self.dead, self.ver = {}, (), False, 0
        self.nullable, self.ro, self.name, self.src, self.extra = nullable, ro, name, None, None

    def copy(self):
        o = Obj.__new__(Obj)
        o.kind, o.size, o.dflt, o.cells, o.segs, o.dead, o.ver = (
            self.kind, self.size, self.dflt, dict(self.cells), self.segs, self.dead, self.ver)
        o.nullable, o.ro, o.name, o.src, o.extra = self.nullable, self.ro, self.name, self.src, self.extra
        return o

    def same(self, o):
        return self is o or (self.size == o.size and self.dflt == o.dflt and self.dead == o.dead and
                             self.segs == o.segs and self.ver == o.ver and self.cells == o.cells and self.extra == o.extra)


BITSRC = {}


class State:
    __slots__ = ('mem', 'own', 'iv', 'facts', 'mask', 'ne', 'fl', 'null', 'ghost', 'trace')

    def __init__(self):
        self.mem, self.own = {}, set()
        self.iv, self.facts, self.mask, self.ne, self.fl, self.null = {}, frozenset(), {}, frozenset(), {}, {}
        self.ghost, self.trace = {}, ()

    def fork(self):
        s = State.__new__(State)
        s.mem, s.own = dict(self.mem), set()
        self.own = set()
        s.iv, s.facts, s.mask, s.ne = dict(self.iv), self.facts, dict(self.mask), self.ne
        s.fl, s.null, s.ghost, s.trace = dict(self.fl), dict(self.null), dict(self.ghost), self.trace
        return s

    def wobj(self, k):
        o = self.mem[k]
        if k not in self.own:
            o = o.copy()
            self.mem[k] = o
            self.own.add(k)
        return o

    def add(self, k, o):
        self.mem[k] = o
        self.own.add(k)
        return o

    # ------------------------------------------------------------ ranges
    def srange(self, s):
        if s.byte is not None:
            m = self.mask.get(s.byte[0])
            if m is not None:
                return tabrange(s, m)
            return s.lo, s.hi
        r = self.iv.get(s)
        lo, hi = r if r is not None else (s.lo, s.hi)
        if s.defn and s.defn[0] == 'bits':
            a, b = self.bitrange(s)
            if a > lo:
                lo = a
            if b < hi:
                hi = b
        return lo, hi

    def bitrange(self, s):
        """what the masks of the bytes a value is made of say about it"""
        info = BITSRC.get(s)
        if info is None:
            src, parts = [], []
            for i, x in enumerate(s.defn[1]):
                if isinstance(x, tuple):
                    if x[0].byte is not None:
                        if x[0].byte[0] not in src:
                            src.append(x[0].byte[0])
                        parts.append((i, x[0].byte[0], x[0].byte[1], x[1]))
                    else:
                        parts.append((i, None, None, None))
                elif x != 0:
                    parts.append((i, x, None, None))
            info = BITSRC[s] = (tuple(src), tuple(parts), {})
        src, parts, memo = info
        key = tuple(self.mask.get(x) for x in src)
        r = memo.get(key)
        if r is None:
            lo = hi = 0
            known = {}
            for i, x, tab, bit in parts:
                if x == 1 and tab is None:
                    lo |= 1 << i
                    hi |= 1 << i
                    continue
                if tab is None:
                    hi |= 1 << i
                    continue
                if x not in known:
                    m = self.mask.get(x, (1 << 256) - 1)
                    known[x] = [v for v in range(256) if m >> v & 1]
                z = o = False
                for v in known[x]:
                    if tab[v] >> bit & 1:
                        o = True
                    else:
                        z = True
                    if z and o:
                        break
                if o:
                    hi |= 1 << i
                    if not z:
                        lo |= 1 << i
            r = memo[key] = (lo, hi)
        return r

    def range(self, v):
        if isinstance(v, int):
            return v, v
        if isinstance(v, Bits):
            v = as_lin(v)
            if isinstance(v, int):
                return v, v
        lo = hi = v.c
        for s, k in v.t:
            a, b = self.srange(s)
            if k > 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        return lo, hi

    def const(self, v):
        """the constant a value is known to be, or the value"""
        if isinstance(v, Bits):
            v = as_lin(v)
        if isinstance(v, Lin):
            lo, hi = self.range(v)
            if lo == hi:
                return lo
        return v

    def related(self, syms):
        seen, todo, cons = set(), list(syms), set()
        index = None
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            a, b = self.srange(s)
            if a != -INF:
                cons.add(Lin(-a, ((s, 1),)))
            if b != INF:
                cons.add(Lin(b, ((s, -1),)))
            for x in s.axioms:
                if x not in cons and not isinstance(x, int):
                    cons.add(x)
                    todo += [t for t, _ in x.t]
            if index is None:
                index = {}
                for f in self.facts:
                    for t, _ in f.t:
                        index.setdefault(t, []).append(f)
                for y in self.iv:
                    # what is known about a quotient says something about the dividend
                    for f in y.axioms:
                        if not isinstance(f, int):
                            for t, _ in f.t:
                                if t is not y:
                                    index.setdefault(t, []).append(f)
            for f in index.get(s, ()):
                if f not in cons:
                    cons.add(f)
                    todo += [t for t, _ in f.t]
        by = {}
        for s in seen:
            if s.byte is not None:
                by.setdefault(s.byte[0], []).append(s)
        for p, ss in by.items():
            # several functions of one byte: where they differ by a constant
            m = self.mask.get(p, ALL)
            for t in ss[1:]:
                d = tabdiff(ss[0], t, m)
                if d is not None:
                    e = Lin(-d, ((ss[0], 1), (t, -1)) if ss[0].uid < t.uid else ((t, -1), (ss[0], 1)))
                    cons.add(e)
                    cons.add(lscale(e, -1))
        return cons

    def dump(self):
        syms = set()
        print('   facts:')
        for x in sorted(self.facts, key=repr):
            print('     ', x)
            syms |= {t for t, _ in x.t}
        for y in syms | set(self.iv):
            print('     ', y, self.srange(y), repr(y.key)[:100], y.axioms)

    def entails(self, l):
        if isinstance(l, int):
            return l >= 0
        if self.range(l)[0] >= 0:
            return True
        if l in self.facts:
            return True
        cons = self.related([s for s, _ in l.t])
        cons.add(lsub(-1, l))
        if infeasible(cons):
            return True
        return self.by_cases(l, cons)

    def by_cases(self, l, cons):
        """a function of a byte with few values, next to the byte itself: every value of its own"""
        by = {}
        for c in cons:
            for s, _ in c.t:
                if s.byte is not None:
                    by.setdefault(s.byte[0], set()).add(s)
        for p, ss in by.items():
            if len(ss) < 2:
                continue
            m = self.mask.get(p, (1 << 256) - 1)
            for s in ss:
                if s is p:
                    continue
                parts = {}
                for v in range(256):
                    if m >> v & 1:
                        parts[s.byte[1][v]] = parts.get(s.byte[1][v], 0) | 1 << v
                if not 1 < len(parts) <= 4:
                    continue
                for q in parts.values():
                    t = self.fork()
                    t.mask[p] = q
                    if not t.entails(l):
                        return False
                return True
        return False

    def assume_ge(self, l):
        if isinstance(l, int):
            return l >= 0
        lo, hi = self.range(l)
        if hi < 0:
            return False
        if lo >= 0:
            return True
        src = byte_source(l)
        if src is not None:
            m = self.mask.get(src, (1 << 256) - 1)
            n = 0
            for v in range(256):
                if m >> v & 1 and eval_byte(l, v) >= 0:
                    n |= 1 << v
            if n == 0:
                return False
            self.mask[src] = n
            return True
        if len(l.t) == 1:
            s, k = l.t[0]
            a, b = self.srange(s)
            if k > 0:
                a = max(a, -(l.c // k) if l.c % k == 0 else (-l.c + k - 1) // k)
            else:
                b = min(b, l.c // -k)
            if a > b:
                return False
            if s.byte is None:
                self.iv[s] = (a, b)
                if s.defn and s.defn[0] == 'bits' and 0 <= b:
                    # small: the upper bits are zero
                    for x in s.defn[1][b.bit_length():]:
                        if x == 1 and not isinstance(x, tuple):
                            return False
                        if isinstance(x, tuple) and x[0].byte is not None:
                            tab, i = x[0].byte[1], x[1]
                            if not self.maskfilter(x[0].byte[0], lambda v: not tab[v] >> i & 1):
                                return False
            if self.facts or s.axioms:
                cons = self.related([s])
                if infeasible(cons):
                    return False
            return True
        if self.entails(lsub(-1, l)):
            return False
        self.facts = self.facts | {l}
        # tighten the ranges of the symbols involved
        for s, k in l.t:
            if s.byte is not None:
                continue
            a, b = self.srange(s)
            rest = l.c
            for t, kk in l.t:
                if t is not s:
                    x, y = self.srange(t)
                    rest += kk * (y if kk > 0 else x)
            if rest in (INF, -INF) or rest != rest:
                continue
            if k > 0:
                a2 = -(rest // k)
                if a2 > a:
                    self.iv[s] = (a2, b)
                    if a2 > b:
                        return False
            else:
                b2 = rest // -k
                if b2 < b:
                    self.iv[s] = (a, b2)
                    if a > b2:
                        return False
        return True

    def is_zero(self, l):
        """True/False/None: is the mathematical value zero"""
        if isinstance(l, int):
            return l == 0
        lo, hi = self.range(l)
        if lo > 0 or hi < 0:
            return False
        if lo == hi == 0:
            return True
        if l in self.ne or lscale(l, -1) in self.ne:
            return False
        src = byte_source(l)
        if src is not None:
            m = self.mask.get(src, (1 << 256) - 1)
            z = n = False
            for v in range(256):
                if m >> v & 1:
                    if eval_byte(l, v) == 0:
                        z = True
                    else:
                        n = True
            return None if z and n else z
        cons = self.related([s for s, _ in l.t])
        a = infeasible(cons | {ladd(l, -1)})           # l >= 1 impossible
        b = infeasible(cons | {ladd(lscale(l, -1), -1)})
        if a and b:
            return True
        if a or b:
            # one sided: strictly positive or negative?
            if a and infeasible(cons | {l}):
                return False
            if b and infeasible(cons | {lscale(l, -1)}):
                return False
        # parity-like argument: gcd of coefficients
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if g > 1 and l.c % g:
            return False
        return None

    # ------------------------------------------------------------ conditions
    def decide(self, c):
        """True / False / None"""
        if isinstance(c, int):
            return bool(c)
        if isinstance(c, (Lin, Bits)):
            c = pne(as_lin(c))
        p = c.pred
        if p == 'ge':
            lo, hi = self.range(c.a)
            if lo >= 0:
                return True
            if hi < 0:
                return False
            src = byte_source(c.a)
            if src is not None:
                m = self.mask.get(src, (1 << 256) - 1)
                t = f = False
                for v in range(256):
                    if m >> v & 1:
                        if eval_byte(c.a, v) >= 0:
                            t = True
                        else:
                            f = True
                        if t and f:
                            return None
                return t
            if self.entails(c.a):
                return True
            if self.entails(lsub(-1, c.a)):
                return False
            return None
        if p in ('eq', 'ne'):
            z = self.is_zero(c.a)
            if z is None:
                return None
            return z if p == 'eq' else not z
        if p == 'byte':
            m = self.mask.get(c.a, (1 << 256) - 1)
            if m & c.b == 0:
                return False
            if m & ~c.b == 0:
                return True
            return None
        if p in ('null', 'nonnull'):
            n = self.null.get(c.a)
            if n is None:
                return None
            return n if p == 'null' else not n
        if p == 'f':
            return self.fdecide(c.a, c.b[0], c.b[1])
        raise AssertionError(p)

    def bytes_equal(self, a):
        """bytes side by side equal to a constant: each byte is its own"""
        for l in (a, lscale(a, -1)):
            b = bits_of(Lin(0, l.t), 64)
            if b is None or not 0 <= -l.c < 1 << 64:
                continue
            want = {}
            for i, x in enumerate(b):
                if isinstance(x, tuple):
                    if x[0].byte is None:
                        return None
                    want.setdefault(x[0], []).append((x[1], -l.c >> i & 1))
                elif x is None:
                    return None
                elif -l.c >> i & 1 != x:
                    return False
            for s, bs in want.items():
                tab = s.byte[1]
                if not self.maskfilter(s.byte[0], lambda v: all(tab[v] >> j & 1 == k for j, k in bs)):
                    return False
            return True
        return None

    def assume(self, c):
        if isinstance(c, int):
            return bool(c)
        if isinstance(c, (Lin, Bits)):
            c = pne(as_lin(c))
        p = c.pred
        if p == 'ge':
            return self.assume_ge(c.a)
        if p == 'eq':
            if self.is_zero(c.a) is False:
                return False
            if isinstance(c.a, int):
                return c.a == 0
            src = byte_source(c.a)
            if src is not None:
                return self.maskfilter(src, lambda v: eval_byte(c.a, v) == 0)
            if len(c.a.t) > 1 or c.a.t[0][0].defn and c.a.t[0][0].defn[0] == 'bits':
                r = self.bytes_equal(c.a)
                if r is not None:
                    return r
            return self.assume_ge(c.a) and self.assume_ge(lscale(c.a, -1))
        if p == 'ne':
            z = self.is_zero(c.a)
            if z is True:
                return False
            if z is False:
                return True
            src = byte_source(c.a)
            if src is not None:
                return self.maskfilter(src, lambda v: eval_byte(c.a, v) != 0)
            if self.entails(c.a):
                return self.assume_ge(ladd(c.a, -1))
            if self.entails(lscale(c.a, -1)):
                return self.assume_ge(ladd(lscale(c.a, -1), -1))
            self.ne = self.ne | {c.a}
            return True
        if p == 'byte':
            m = self.mask.get(c.a, (1 << 256) - 1) & c.b
            if not m:
                return False
            self.mask[c.a] = m
            return True
        if p in ('null', 'nonnull'):
            n = self.null.get(c.a)
            w = p == 'null'
            if n is not None:
                return n == w
            self.null[c.a] = w
            return True
        if p == 'f':
            return self.fassume(c.a, c.b[0], c.b[1])
        raise AssertionError(p)

    def maskfilter(self, src, pred):
        m = self.mask.get(src, (1 << 256) - 1)
        n = 0
        for v in range(256):
            if m >> v & 1 and pred(v):
                n |= 1 << v
        if not n:
            return False
        self.mask[src] = n
        return True

    # ------------------------------------------------------------ floats: closed intervals of reals plus NaN flag
    @staticmethod
    def narrow(f):
        """widening keeps the number: the range is kept with the narrower one"""
        while isinstance(f, FSym) and f.defn and f.defn[0] == 'cast' and f.w >= f.defn[1].w:
            f = f.defn[1]
        return f

    def fopen(self, f, side):
        return self.fl.get((self.narrow(f), side), False)

    def frange(self, f):
        f = self.narrow(f)
        if isinstance(f, Fp):
            if f.v != f.v:
                return (INF, -INF, True)
            return (f.v, f.v, False)
        r = self.fl.get(f)
        if r is None:
            r = f.defn[1] if f.defn and f.defn[0] == 'range' else (-INF, INF, True)
        return r

    def fdecide(self, f, pred, c):
        lo, hi, nan = self.frange(f)
        pr = pred
        if pr in ('true', 'false'):
            return pr == 'true'
        if c != c:
            r = pr in ('une', 'uno', 'ueq') or pr.endswith('_f')
            return r
        empty = lo > hi
        strict_hi = self.fopen(f, 'hi_open')
        strict_lo = self.fopen(f, 'lo_open')
        base = {'uge_f': 'oge', 'ule_f': 'ole', 'ugt_f': 'ogt', 'ult_f': 'olt', 'une': 'one', 'ueq': 'oeq'}
        unordered = pr in base
        q = base.get(pr, pr)
        if q == 'ord':
            return (not nan) if not nan or empty else None
        if q == 'uno':
            return nan if not nan or empty else None
        t = fa = True            # all true / all false over the reals of the interval
        if not empty:
            if q == 'olt':
                t = hi < c or (hi == c and strict_hi)
                fa = lo >= c
            elif q == 'ole':
                t = hi <= c
                fa = lo > c or (lo == c and strict_lo)
            elif q == 'ogt':
                t = lo > c or (lo == c and strict_lo)
                fa = hi <= c
            elif q == 'oge':
                t = lo >= c
                fa = hi < c or (hi == c and strict_hi)
            elif q == 'oeq':
                t = lo == hi == c
                fa = hi < c or lo > c or (hi == c and strict_hi) or (lo == c and strict_lo)
            elif q == 'one':
                fa = lo == hi == c
                t = hi < c or lo > c or (hi == c and strict_hi) or (lo == c and strict_lo)
            else:
                return None
        if nan:
            if unordered:
                fa = False
            else:
                t = False
        if t and not fa:
            return True
        if fa and not t:
            return False
        if empty and not nan:
            return None
        return None

    def fassume(self, f, pred, c):
        d = self.fdecide(f, pred, c)
        if d is not None:
            return d
        f = self.narrow(f)
        lo, hi, nan = self.frange(f)
        base = {'uge_f': 'oge', 'ule_f': 'ole', 'ugt_f': 'ogt', 'ult_f': 'olt', 'une': 'one', 'ueq': 'oeq'}
        unordered = pred in base
        q = base.get(pred, pred)
        if q == 'uno':
            self.fl[f] = (INF, -INF, True)
            return True
        if q == 'ord':
            self.fl[f] = (lo, hi, False)
            return True
        lo_o = self.fl.get((f, 'lo_open'), False)
        hi_o = self.fl.get((f, 'hi_open'), False)
        if q == 'olt' and c <= hi:
            hi, hi_o = c, True
        elif q == 'ole' and c < hi:
            hi, hi_o = c, False
        elif q == 'ogt' and c >= lo:
            lo, lo_o = c, True
        elif q == 'oge' and c > lo:
            lo, lo_o = c, False
        elif q == 'oeq':
            lo, hi, lo_o, hi_o = c, c, False, False
        elif q == 'one':
            if lo == c:
                lo_o = True
            if hi == c:
                hi_o = True
        self.fl[f] = (lo, hi, nan and unordered)
        self.fl[(f, 'lo_open')] = lo_o
        self.fl[(f, 'hi_open')] = hi_o
        return True

    # ------------------------------------------------------------ canonical representation
    def to_u(self, v, w):
        """value as its unsigned mathematical integer"""
        m = 1 << w
        if isinstance(v, int):
            return v % m
        if isinstance(v, Bits):
            t = self.low_bits(v)
            return t[0].lin if t and self.srange(t[0])[0] >= 0 and self.srange(t[0])[1] < 1 << t[1] else as_lin(v)
        if isinstance(v, Cmp):
            d = self.decide(v)
            if d is None:
                raise Split([[v], [neg(v)]])
            return int(d)
        if isinstance(v, Unk):
            return sym(('unk', v.key, w), 0, m - 1).lin
        if not isinstance(v, Lin):
            raise TypeError('to_u %r' % (v,))
        lo, hi = self.range(v)
        if lo >= 0 and hi < m:
            return v
        src = byte_source(v)
        if src is not None:
            tab = tuple(eval_byte(v, x) % m for x in range(256))
            return tab_sym(src, tab, 'u%d' % w)
        nn = lo >= 0 or self.entails(v)
        lt = hi < m or self.entails(lsub(m - 1, v))
        if nn and lt:
            return v
        kmin = lo // m if lo != -INF and (lo > 0 or not nn) else 0 if nn else None
        kmax = hi // m if hi != INF and (hi < 0 or not lt) else 0 if lt else None
        if kmin is None or kmax is None:
            q = sym(('wrapq', v, w), -INF, INF)
        else:
            if kmin < -1 and self.entails(ladd(v, m)):
                kmin = -1
            if kmax > 1 and self.entails(lsub(2 * m - 1, v)):
                kmax = 1
            if 1 < kmax - kmin <= 1 << 20:
                x = kmax
                while kmin < x:
                    y = (kmin + x + 1) // 2
                    if self.entails(ladd(v, -y * m)):
                        kmin = y
                    else:
                        x = y - 1
                x = kmin
                while x < kmax:
                    y = (x + kmax) // 2
                    if self.entails(lsub((y + 1) * m - 1, v)):
                        kmax = y
                    else:
                        x = y + 1
            if kmin == kmax:
                return ladd(v, -kmin * m)
            if kmax - kmin == 1:
                if self.entails(ladd(v, -kmax * m)):
                    return ladd(v, -kmax * m)
                if self.entails(lsub(kmax * m - 1, v)):
                    return ladd(v, -kmin * m)
                raise Split([[pge(ladd(v, -kmax * m))], [pge(lsub(kmax * m - 1, v))]])
            q = sym(('wrapq', v, w), kmin, kmax)
        r = lsub(v, lscale(q.lin, m))
        if not q.axioms:
            q.axioms = (r, lsub(m - 1, r))
        return r

    @staticmethod
    def low_bits(v):
        """(symbol, n): the n lowest bits of a symbol, nothing above"""
        b = v.b
        n = 0
        while n < len(b) and isinstance(b[n], tuple) and b[n][0] is b[0][0] and b[n][1] == n:
            n += 1
        if not n or any(x != 0 for x in b[n:]):
            return None
        return b[0][0], n

    def to_s(self, v, w):
        m = 1 << w
        h = m >> 1
        if isinstance(v, int):
            v %= m
            return v - m if v >= h else v
        if isinstance(v, Bits):
            t = self.low_bits(v)
            if t:
                lo, hi = self.srange(t[0])
                if lo >= 0 and hi < min(1 << t[1], h) or t[1] == w and lo >= -h and hi < h:
                    return t[0].lin
            v = as_lin(v)
            if isinstance(v, int):
                return self.to_s(v, w)
        if isinstance(v, Cmp):
            if w == 1:
                d = self.decide(v)
                if d is None:
                    raise Split([[v], [neg(v)]])
                return -int(d)
            return self.to_u(v, w)
        if isinstance(v, Lin):
            lo, hi = self.range(v)
            if lo >= -h and hi < h:
                return v
            src = byte_source(v)
            if src is not None:
                tab = tuple(((eval_byte(v, x) + h) % m) - h for x in range(256))
                return tab_sym(src, tab, 's%d' % w)
        return ladd(self.to_u(ladd(v, h), w), -h)


def tabdiff(a, b, mask, _c={}):
    k = (a.uid, b.uid, mask)
    if k not in _c:
        x, y = a.byte[1], b.byte[1]
        d = {x[v] - y[v] for v in range(256) if mask >> v & 1}
        _c[k] = d.pop() if len(d) == 1 else None
    return _c[k]


def tabrange(s, mask, _c={}):
    k = (s.uid, mask)
    r = _c.get(k)
    if r is None:
        t = s.byte[1]
        vals = [t[v] for v in range(256) if mask >> v & 1]
        r = _c[k] = (min(vals), max(vals)) if vals else (s.lo, s.hi)
    return r
