"""iconv for the conversions of the library, on bytes of known number and unknown content."""
import itertools
from ai import *
from models import ret

EINVAL, EILSEQ, E2BIG = 22, 84, 7


def cstr(I, st, p):
    out = []
    for i in range(32):
        c = st.const(as_lin(st.to_u(I.load(st, Ptr(p.obj, ladd(p.off, i)), 'i8'), 8)))
        if not isinstance(c, int):
            raise GiveUp('the name of a character set is not constant')
        if not c:
            return bytes(out).decode()
        out.append(c)


def set_errno(I, st, v):
    k = ('errno',)
    if k not in st.mem:
        st.add(k, Obj('glob', 4, 'lazy', 'errno'))
    I.store(st, Ptr(k, 0), v, 4, 'i32')


def values(st, v):
    """all values of an expression over unknown bytes"""
    order = sorted((s for s in deps(v)), key=lambda s: s.uid)
    sets = [vals(st, s) for s in order]
    n = 1
    for x in sets:
        n *= len(x)
    if n > 600000:
        raise GiveUp('too many cases')
    f = compilev(v, order)
    if f is None:
        raise GiveUp('not a function of the bytes')
    return {f(*x) for x in itertools.product(*sets)}


def form(st, u):
    """length of the UTF-8 form of a UTF-16 unit, or 'high', 'low'"""
    if isinstance(u, int):
        vs = {u}
    else:
        vs = values(st, u)

    def cls(x):
        return 'high' if 0xd800 <= x < 0xdc00 else 'low' if 0xdc00 <= x < 0xe000 else 1 if x < 0x80 else 2 if x < 0x800 else 3
    cs = {cls(x) for x in vs}
    if len(cs) == 1:
        return cs.pop()
    order = sorted(deps(u), key=lambda s: s.uid)
    f = compilev(u, order)
    for i, s in enumerate(order):
        sets = [vals(st, x) for x in order]
        groups = {}
        for v in sets[i]:
            sets[i] = [v]
            groups.setdefault(frozenset(cls(f(*x)) for x in itertools.product(*sets)), []).append(v)
        if len(groups) > 1:
            raise Mixed(s, list(groups.values()))
    raise GiveUp('a unit of more than one form: %s' % cs)


class Mixed(Exception):
    """a unit whose form depends on a byte"""


def bits(v, w):
    b = bits_of(v, w)
    if b is None:
        raise GiveUp('the bits of a unit are not known')
    return b


def utf8(st, u, n):
    """bytes of a code point given by its bits, lowest first"""
    u = tuple(u) + (0,) * 21
    lead = {1: (0,), 2: (0, 1, 1), 3: (0, 1, 1, 1), 4: (0, 1, 1, 1, 1)}[n]
    out = [from_bits(tuple(u[6 * (n - 1):6 * (n - 1) + 8 - len(lead)]) + lead)]
    for i in range(n - 2, -1, -1):
        out.append(from_bits(tuple(u[6 * i:6 * i + 6]) + (0, 1)))
    return out


PLUS = tuple(range(0x40, 0x440))


class Iconv:
    def __init__(self, R):
        self.uid = 0
        R.I.models = [(re.compile(r'^iconv_open$'), self.open), (re.compile(r'^iconv$'), self.conv), (re.compile(r'^iconv_close$'), self.close)] + R.I.models

    def open(self, I, st, a, d, n):
        self.uid += 1
        k = ('cd', self.uid)
        o = Obj('in', 8, 'undef', 'a converter')
        st.add(k, o)
        st.ghost[k] = (cstr(I, st, a[0]), cstr(I, st, a[1]))
        return ret(I, st, Ptr(k, 0))

    def close(self, I, st, a, d, n):
        return ret(I, st, 0)

    def conv(self, I, st, a, d, n):
        old = st.fork()
        try:
            return self.step(I, st, a, d, n)
        except Mixed as e:
            out = []
            s, groups = e.args
            for g in groups:
                t = old.fork()
                t.mask[s] = sum(1 << v for v in g)
                out += self.conv(I, t, a, d, n)
            return out

    def step(self, I, st, a, d, n):
        if not isinstance(a[0], Ptr) or a[0].obj not in st.ghost:
            raise GiveUp('a converter that has not been opened')
        to, frm = st.ghost[a[0].obj]
        if (to, frm) != ('UTF-8', 'UTF-16LE'):
            raise GiveUp('a conversion from %s to %s' % (frm, to))
        src, dst = I.load(st, a[1], 'ptr'), I.load(st, a[3], 'ptr')
        left, room = [st.const(as_lin(st.to_u(I.load(st, x, 'i64'), 64))) for x in (a[2], a[4])]
        if not isinstance(left, int) or not isinstance(room, int):
            raise GiveUp('a conversion of unknown length')
        err = None

        def byte(i):
            v = I.load(st, Ptr(src.obj, ladd(src.off, i)), 'i8')
            return bits_of(v, 8) or I.word(v, 8)
        while left:
            if left < 2:
                err = EINVAL
                break
            u = byte(0) + byte(1)
            f = form(st, from_bits(u))
            used = 2
            if f == 'low':
                err = EILSEQ
                break
            if f == 'high':
                if left < 4:
                    err = EINVAL
                    break
                w = byte(2) + byte(3)
                if form(st, from_bits(w)) != 'low':
                    err = EILSEQ
                    break
                hi = from_bits(u[:10])
                if isinstance(hi, int):
                    top = tuple(PLUS[hi] >> i & 1 for i in range(11))
                else:
                    s = sym(('lutv', as_lin(hi) if not isinstance(hi, Bits) else hi, PLUS), 0x40, 0x43f)
                    top = tuple((s, i) for i in range(11))
                u, f, used = w[:10] + top, 4, 4
            out = utf8(st, u, f)
            if room < len(out):
                err = E2BIG
                break
            for i, b in enumerate(out):
                I.store(st, Ptr(dst.obj, ladd(dst.off, i)), b, 1, 'i8')
            src, dst = Ptr(src.obj, ladd(src.off, used)), Ptr(dst.obj, ladd(dst.off, len(out)))
            left, room = left - used, room - len(out)
        I.store(st, a[1], src, 8, 'ptr')
        I.store(st, a[3], dst, 8, 'ptr')
        I.store(st, a[2], left, 8, 'i64')
        I.store(st, a[4], room, 8, 'i64')
        if err:
            set_errno(I, st, err)
            return ret(I, st, (1 << 64) - 1)
        return ret(I, st, 0)
