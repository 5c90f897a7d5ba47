"""Abstract values: hash-consed symbols, affine expressions, bit provenance, byte partitions.

An integer of width w is one of
  int              canonical unsigned constant
  Lin              affine form  c + sum(coef * sym); the machine value is that form mod 2^w
  Bits             one entry per bit (LSB first): 0, 1, (sym, i) or None (unknown)
A symbol whose value is a function of one input byte carries (byte symbol, 256-entry table):
comparisons over such symbols are decided per value of the byte (value-set domain).
"""
from math import gcd

U64 = (1 << 64) - 1


class Sym:
    __slots__ = ('uid', 'key', 'lo', 'hi', 'byte', 'defn', 'axioms', 'lin')
    table = {}
    count = 0

    def __repr__(self):
        return 's%d' % self.uid


def sym(key, lo, hi, byte=None, defn=None):
    s = Sym.table.get(key)
    if s is None:
        s = Sym()
        Sym.count += 1
        s.uid = Sym.count
        s.key, s.lo, s.hi, s.byte, s.defn, s.axioms = key, lo, hi, byte, defn, ()
        s.lin = Lin(0, ((s, 1),))
        Sym.table[key] = s
    return s


def byte_sym(key):
    s = sym(key, 0, 255)
    if s.byte is None:
        s.byte = (s, tuple(range(256)))
    return s


class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t):
        self.c, self.t = c, t
        self.h = hash((c, tuple((s.uid, k) for s, k in t)))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t)

    def __repr__(self):
        return '+'.join(['%s%r' % ('' if k == 1 else '%d*' % k, s) for s, k in self.t] + ([str(self.c)] if self.c else []))


def mk(c, d):
    t = tuple(sorted(((s, k) for s, k in d.items() if k), key=lambda x: x[0].uid))
    return Lin(c, t) if t else c


def ladd(a, b, kb=1):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + kb * b
        return mk(a + kb * b.c, {s: kb * k for s, k in b.t})
    if isinstance(b, int):
        return Lin(a.c + kb * b, a.t) if b else a
    d = dict(a.t)
    for s, k in b.t:
        d[s] = d.get(s, 0) + kb * k
    return mk(a.c + kb * b.c, d)


def lsub(a, b):
    return ladd(a, b, -1)


def lscale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    return Lin(a.c * k, tuple((s, c * k) for s, c in a.t))


def lsyms(a):
    return [s for s, _ in a.t] if isinstance(a, Lin) else []


def norm(v, w):
    """constant part into the symmetric range; constants canonical"""
    m = 1 << w
    if isinstance(v, int):
        return v % m
    c = v.c % m
    if c >= m >> 1:
        c -= m
    return Lin(c, v.t) if c != v.c else v


class Bits:
    __slots__ = ('b', 'h')

    def __init__(self, b):
        self.b = b
        self.h = hash(tuple(x if not isinstance(x, tuple) else (x[0].uid, x[1]) for x in b))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Bits) and self.h == o.h and self.b == o.b

    def __repr__(self):
        out, i, b = [], 0, self.b
        while i < len(b):
            if isinstance(b[i], tuple):
                j = i
                while j + 1 < len(b) and isinstance(b[j + 1], tuple) and b[j + 1][0] is b[i][0] and b[j + 1][1] == b[j][1] + 1:
                    j += 1
                out.append('%r[%d..%d]' % (b[i][0], b[i][1], b[j][1])); i = j + 1
            else:
                out.append('?' if b[i] is None else str(b[i])); i += 1
        return '<' + ' '.join(out) + '>'


def bits_of(v, w):
    """bit vector of v in width w, or None"""
    if isinstance(v, int):
        return tuple((v >> i) & 1 for i in range(w))
    if isinstance(v, Bits):
        b = v.b
        return b[:w] if len(b) >= w else b + (0,) * (w - len(b))
    if isinstance(v, Lin):
        if v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
            s = v.t[0][0]
            if s.defn and s.defn[0] == 'bits':
                b = s.defn[1]
                return b[:w] if len(b) >= w else b + (0,) * (w - len(b))
        out = [0] * max(w, 64)
        if v.c < 0 or v.c.bit_length() > len(out):
            return None
        for i in range(v.c.bit_length()):
            out[i] = (v.c >> i) & 1
        used = v.c
        for s, k in v.t:
            if k <= 0 or k & (k - 1) or s.lo < 0 or s.hi == float('inf'):
                return None
            p, n = k.bit_length() - 1, s.hi.bit_length()
            if p + n > len(out):
                return None
            m = ((1 << n) - 1) << p
            if used & m:
                return None
            used |= m
            d = s.defn[1] if s.defn and s.defn[0] == 'bits' else None
            for i in range(n):
                out[p + i] = d[i] if d else (s, i)
        return tuple(out[:w])
    return None


def from_bits(b):
    """value with exactly these bits"""
    if all(x == 0 or x == 1 for x in b if not isinstance(x, tuple)) and not any(isinstance(x, tuple) or x is None for x in b):
        return sum(x << i for i, x in enumerate(b))
    c, t, i = 0, {}, 0
    while i < len(b):
        x = b[i]
        if isinstance(x, tuple):
            s, j = x
            n = s.hi.bit_length()
            if j or s in t or i + n > len(b) or any(b[i + q] != (s, q) for q in range(n)):
                return Bits(tuple(b))
            t[s] = 1 << i
            i += n
            continue
        if x is None:
            return Bits(tuple(b))
        c |= x << i
        i += 1
    return mk(c, t)


def bits_syms(b):
    return {x[0] for x in b if isinstance(x, tuple)}


def as_lin(v):
    """Lin or int of a value (Bits become a derived symbol)"""
    if not isinstance(v, Bits):
        return v
    b = v.b
    n = len(b)
    while n and b[n - 1] == 0:
        n -= 1
    b = b[:n]
    if not b:
        return 0
    key = ('bits', tuple((x[0].uid, x[1]) if isinstance(x, tuple) else x for x in b))
    s = Sym.table.get(key)
    if s is None:
        lo = sum(1 << i for i, x in enumerate(b) if x == 1 and not isinstance(x, tuple))
        hi = sum(1 << i for i, x in enumerate(b) if x != 0)
        src = bits_syms(b)
        byte = None
        if None not in b and not all(x.byte for x in src) and (len(src) > 1 or not one_run(b)):
            return runs_sum(b)
        if None not in b:
            prim = {x.byte[0] for x in src if x.byte} if all(x.byte for x in src) else set()
            if len(prim) == 1:
                p = prim.pop()
                tab = []
                for val in range(256):
                    r = 0
                    for i, x in enumerate(b):
                        r |= (((x[0].byte[1][val] >> x[1]) & 1) if isinstance(x, tuple) else x) << i
                    tab.append(r)
                byte = (p, tuple(tab))
        s = sym(key, lo, hi, byte, ('bits', b))
        if len(src) == 1 and byte is None:
            p = next(iter(src))
            n = p.hi.bit_length()
            # contiguous upper slice of a symbol: quotient by a power of two
            k = b[0][1] if isinstance(b[0], tuple) else -1
            if k > 0 and len(b) >= n - k and all((b[i] == (p, i + k)) if i + k < n else b[i] == 0 for i in range(len(b))):
                x = lsub(p.lin, lscale(s.lin, 1 << k))
                s.axioms = (x, lsub((1 << k) - 1, x))
            elif k >= 0 and one_run(b):
                # any slice: from the quotients at both its ends
                m = k + sum(isinstance(x, tuple) for x in b)
                if m < n:
                    up = as_lin(Bits(tuple((p, i) for i in range(k, n)))) if k else p.lin
                    q = as_lin(Bits(tuple((p, i) for i in range(m, n))))
                    x = lsub(lsub(up, s.lin), lscale(q, 1 << (m - k)))
                    s.axioms = (x, lscale(x, -1))
    return s.lin


def one_run(b):
    """successive bits of one symbol, zeros above"""
    j = 0
    while j < len(b) and isinstance(b[j], tuple) and b[j][0] is b[0][0] and b[j][1] == b[0][1] + j:
        j += 1
    return j > 0 and not any(x != 0 for x in b[j:])


def runs_sum(b):
    """bits of several symbols: the sum of the runs of each"""
    r, i = 0, 0
    while i < len(b):
        if not isinstance(b[i], tuple):
            r = ladd(r, b[i] << i)
            i += 1
            continue
        j = i + 1
        while j < len(b) and isinstance(b[j], tuple) and b[j][0] is b[i][0] and b[j][1] == b[i][1] + j - i:
            j += 1
        n = b[i][0].hi.bit_length() if b[i][0].hi != float('inf') else INF_BITS
        v = b[i][0].lin if b[i][1] == 0 and j - i >= n else as_lin(Bits(b[i:j] + (0,) * max(0, 64 - (j - i))))
        r = ladd(r, lscale(v, 1 << i))
        i = j
    return r


INF_BITS = 1 << 30


def tab_sym(bsym, tab, tag):
    """value that is a function of one byte"""
    if len(set(tab)) == 1:
        return tab[0]
    if tab == bsym.byte[1]:
        return bsym.lin
    s = sym(('tab', bsym.uid, tab), min(tab), max(tab), (bsym, tab), ('tab', bsym, tab))
    return s.lin


def byte_source(*vals):
    """the single byte symbol all values depend on, or None"""
    src = None
    for v in vals:
        for s in lsyms(v):
            if s.byte is None:
                return None
            if src is None:
                src = s.byte[0]
            elif src is not s.byte[0]:
                return None
    return src


def eval_byte(v, val):
    if isinstance(v, int):
        return v
    return v.c + sum(k * s.byte[1][val] for s, k in v.t)


class Ptr:
    __slots__ = ('obj', 'off', 'h')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off
        self.h = hash((obj, off))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __repr__(self):
        return '&%s%s' % (self.obj if not isinstance(self.obj, tuple) else 'o' + str(abs(hash(self.obj)) % 100000), '+%r' % (self.off,) if self.off != 0 else '')


NULL = Ptr('null', 0)


class Fn:
    """function address"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(('fn', self.name))

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __repr__(self):
        return 'fn:' + self.name


class Cmp:
    """undecided comparison; branching on it refines the state"""
    __slots__ = ('pred', 'a', 'b', 'w', 'h')

    def __init__(self, pred, a, b, w):
        self.pred, self.a, self.b, self.w = pred, a, b, w
        self.h = hash((pred, a, b, w))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Cmp) and (self.pred, self.a, self.b, self.w) == (o.pred, o.a, o.b, o.w)

    def __repr__(self):
        return '(%r %s %r)' % (self.a, self.pred, self.b)


NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult',
       'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt',
       'oeq': 'une', 'une': 'oeq', 'olt': 'uge_f', 'ogt': 'ule_f', 'ole': 'ugt_f', 'oge': 'ult_f', 'one': 'ueq', 'ueq': 'one',
       'uge_f': 'olt', 'ule_f': 'ogt', 'ugt_f': 'ole', 'ult_f': 'oge', 'ord': 'uno', 'uno': 'ord', 'true': 'false', 'false': 'true'}


class Fp:
    """float constant"""
    __slots__ = ('v', 'w')

    def __init__(self, v, w):
        self.v, self.w = v, w

    def __hash__(self):
        return hash((repr(self.v), self.w))

    def __eq__(self, o):
        return isinstance(o, Fp) and repr(o.v) == repr(self.v) and o.w == self.w

    def __repr__(self):
        return 'fp(%r)' % self.v


class FSym:
    """unknown float; defn says where it comes from"""
    __slots__ = ('key', 'defn', 'w', 'h')
    table = {}

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return 'f<%s>' % (self.key[0] if isinstance(self.key, tuple) else self.key)


def fsym(key, w, defn=None):
    f = FSym.table.get(key)
    if f is None:
        f = FSym()
        f.key, f.w, f.defn, f.h = key, w, defn, hash(('f', key))
        FSym.table[key] = f
    return f


class Unk:
    """no information; a distinct value per key"""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __hash__(self):
        return hash(('unk', self.key))

    def __eq__(self, o):
        return isinstance(o, Unk) and o.key == self.key

    def __repr__(self):
        return 'unk'


# ---------------------------------------------------------------- linear entailment (Fourier-Motzkin)

def _gcd_norm(c, t):
    g = 0
    for _, k in t:
        g = gcd(g, k)
    if g > 1:
        return c // g, tuple((s, k // g) for s, k in t)
    return c, t


_inf_cache = {}


def infeasible(cons):
    """cons: iterable of Lin meaning >= 0 over the integers; True only if no solution exists"""
    key = frozenset(cons)
    r = _inf_cache.get(key)
    if r is None:
        if len(_inf_cache) > 400000:
            _inf_cache.clear()
        r = _inf_cache[key] = _infeasible(key)
    return r


def _infeasible(cons):
    cur = {}
    def put(c, t):
        c, t = _gcd_norm(c, t)
        if not t:
            return c < 0
        k = cur.get(t)
        if k is None or c < k:
            cur[t] = c
            neg = tuple((s, -k2) for s, k2 in t)
            o = cur.get(neg)
            if o is not None and o + c < 0:
                return True
        return False
    for l in cons:
        if isinstance(l, int):
            if l < 0:
                return True
            continue
        if put(l.c, l.t):
            return True
    # equalities are used up first: keeps the integer reasoning exact
    for _ in range(60):
        eq = None
        for t, c in cur.items():
            o = cur.get(tuple((s, -k) for s, k in t))
            if o is not None and o + c == 0:
                v, kv = min(t, key=lambda x: abs(x[1]))
                if abs(kv) == 1:
                    eq = (t, c, v, kv)
                    break
                if eq is None:
                    g = 0
                    for s, k in t:
                        g = gcd(g, k)
                    if c % g:
                        return True
                    eq = (t, c, v, kv)
        if eq is None:
            break
        t, c, v, kv = eq
        rep = {}
        if abs(kv) == 1:
            # v = -kv * (c + rest)
            rc = -kv * c
            for s, k in t:
                if s is not v:
                    rep[s] = -kv * k
        else:
            # v = n - sum((k // kv) * s) - c // kv with a new variable n: smaller coefficients
            n = Sym()
            Sym.count += 1
            n.uid, n.key, n.lo, n.hi = Sym.count, ('elim',), 0, 0
            rep[n] = 1
            rc = -(c // kv)
            for s, k in t:
                if s is not v and k // kv:
                    rep[s] = -(k // kv)
        old, cur = cur, {}
        for t2, c2 in old.items():
            k2 = 0
            for s, k in t2:
                if s is v:
                    k2 = k
                    break
            if k2 == 0:
                if put(c2, t2):
                    return True
                continue
            d = {s: k for s, k in t2 if s is not v}
            for s, k in rep.items():
                d[s] = d.get(s, 0) + k2 * k
            nt = tuple(sorted(((s, k) for s, k in d.items() if k), key=lambda x: x[0].uid))
            nc = c2 + k2 * rc
            if not nt:
                if nc < 0:
                    return True
                continue
            if put(nc, nt):
                return True
    if factored(cur):
        return True
    syms = set()
    for t in cur:
        for s, _ in t:
            syms.add(s)
    while syms:
        # cheapest variable first
        cnt = {}
        for t in cur:
            for s, k in t:
                p = cnt.setdefault(s, [0, 0, True, True])
                i = 0 if k > 0 else 1
                p[i] += 1
                if abs(k) > 1:
                    p[2 + i] = False
        best, cost = None, None
        for s in syms:
            p = cnt.get(s)
            if p is None:
                continue
            c = p[0] * p[1] - p[0] - p[1]
            if p[0] and p[1] and not p[2] and not p[3]:
                c += 12                # eliminating it would forget that it is an integer
            if cost is None or c < cost:
                best, cost = s, c
        if best is None:
            return False
        syms = {s for s in syms if s in cnt}
        syms.discard(best)
        pos, neg, rest = [], [], {}
        for t, c in cur.items():
            k = 0
            for s, kk in t:
                if s is best:
                    k = kk
                    break
            if k > 0:
                pos.append((k, c, t))
            elif k < 0:
                neg.append((-k, c, t))
            else:
                rest[t] = c
        if len(pos) * len(neg) > 1500 or len(rest) > 1500:
            return False
        cur = rest
        for kp, cp, tp in pos:
            for kn, cn, tn in neg:
                g = gcd(kp, kn)
                a, b = kn // g, kp // g
                d = {}
                for s, k in tp:
                    if s is not best:
                        d[s] = d.get(s, 0) + a * k
                for s, k in tn:
                    if s is not best:
                        d[s] = d.get(s, 0) + b * k
                t = tuple(sorted(((s, k) for s, k in d.items() if k), key=lambda x: x[0].uid))
                c = a * cp + b * cn
                if not t:
                    if c < 0:
                        return True
                    continue
                if put(c, t):
                    return True
    return False


def factored(cur):
    """a long sum several constraints share (up to a factor) is treated as one variable"""
    long_ = [t for t in cur if len(t) >= 5]
    if len(long_) < 2:
        return False
    best = None
    for i, t in enumerate(long_[:8]):
        d = dict(t)
        for u in long_[i + 1:8]:
            rs = {}
            for s, k in u:
                if s in d:
                    g = gcd(k, d[s])
                    sg = -1 if d[s] < 0 else 1
                    rs.setdefault((sg * k // g, sg * d[s] // g), []).append(s)
            for r, ss in rs.items():
                if len(ss) >= 4 and (best is None or len(ss) > len(best[1])):
                    best = (d, ss)
    if best is None:
        return False
    d, ss = best
    g = 0
    for s in ss:
        g = gcd(g, d[s])
    prim = {s: d[s] // g for s in ss}
    lo = hi = 0
    bnd = {}
    for t, c in cur.items():
        if len(t) == 1 and t[0][0] in prim:
            s, k = t[0]
            b = bnd.setdefault(s, [None, None])
            if k > 0:
                v = -(c // k)
                b[0] = v if b[0] is None else max(b[0], v)
            else:
                v = c // -k
                b[1] = v if b[1] is None else min(b[1], v)
    for s, k in prim.items():
        a, b = bnd.get(s, (None, None))
        if k < 0:
            a, b = b, a
        lo = None if lo is None or a is None else lo + k * a
        hi = None if hi is None or b is None else hi + k * b
    y = Sym()
    Sym.count += 1
    y.uid, y.key, y.lo, y.hi = Sym.count, ('sum',), 0, 0
    out = []
    for t, c in cur.items():
        e = dict(t)
        q = None
        if all(s in e for s in prim):
            q, m = divmod(e[ss[0]], prim[ss[0]])
            if m or any(e[s] != q * prim[s] for s in prim):
                q = None
        if q is None:
            if not any(s in prim for s in e) or len(t) <= 3:
                out.append(Lin(c, t))
            continue
        r = {s: k for s, k in e.items() if s not in prim}
        r[y] = q
        out.append(Lin(c, tuple(sorted(r.items(), key=lambda x: x[0].uid))))
    if lo is not None:
        out.append(Lin(-lo, ((y, 1),)))
    if hi is not None:
        out.append(Lin(hi, ((y, -1),)))
    return _infeasible(frozenset(out))
