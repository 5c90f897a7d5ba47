"""Sequences of parser operations with the stream at their end: what is written, piece by piece; what is read."""
from vals import *
from common import model
import models

MEM_MSG = 16           # a std::pair<MemBlock, Value>: pointer and size of the name, then the Value


def harness():
    return model('harness.cpp')


class Sink:
    """a std::ostream that keeps what it is given: ghost 'sink' = pieces (offset, kind, value, length) by position"""

    def __init__(self, R, seekable=True):
        self.I, self.seekable = R.I, seekable
        self.start = sym(('stream start', 0), 0, 1 << 60)
        I = R.I
        I.models = [(re.compile(r'^std::ostream::write$'), self.write), (re.compile(r'^std::ostream::flush$'), self.flush),
                    (re.compile(r'^std::ostream::tellp$'), self.tellp), (re.compile(r'^std::ostream::seekp$'), self.seekp)] + I.models
        old = I.hooks.get('copy')

        def copied(I, st, d, s, n):
            if old and old(I, st, d, s, n):
                return True
            n = st.const(n)
            if isinstance(d, Ptr) and isinstance(s, Ptr) and (not isinstance(n, int) or n > 64 or (s.obj in st.mem and st.mem[s.obj].name in PAYLOADS)):
                o = st.mem.get(s.obj)
                st.ghost[('copied', d.obj)] = tuple(x for x in st.ghost.get(('copied', d.obj), ()) if not self.stale(st, x, d.off, n)) + (
                    (d.off, n, s.obj, s.off, o.ver if o else 0),)
            return False
        I.hooks['copy'] = copied

    @staticmethod
    def stale(st, x, off, n):
        """the new piece begins where the old one did"""
        return st.is_zero(lsub(x[0], off)) is True

    def init(self, st):
        st.ghost['pos'] = st.ghost['end'] = 0
        st.ghost['sink'] = ()
        st.ghost['flushed'] = st.ghost['torn'] = False

    def write(self, I, st, a, d, n):
        cnt = st.const(as_lin(st.to_u(a[2], 64)))
        if isinstance(a[1], Ptr) and a[1].obj in st.mem:
            st.ghost['flushed'] = False
            I.oblige(a[1].obj == 'null' and cnt == 0 or self.inside(st, a[1], cnt), 'access-in-bounds', 'hands the stream more than there is')
            pieces = self.pieces(st, a[1], cnt)
            pos = st.ghost['pos']
            at = st.is_zero(lsub(pos, st.ghost['end']))
            if at is None:
                raise Broken('position of a write to the stream not known')
            if at:
                st.ghost['sink'] = st.ghost['sink'] + tuple((ladd(pos, lsub(o, a[1].off)), k, v, l) for o, k, v, l in pieces)
                st.ghost['end'] = ladd(pos, cnt)
            else:
                sink = list(st.ghost['sink'])
                for o, k, v, l in pieces:
                    p = ladd(pos, lsub(o, a[1].off))
                    known = True
                    for i, (q, k2, v2, l2) in enumerate(sink):
                        z = st.is_zero(lsub(p, q))
                        if z is True and st.is_zero(lsub(l2, l)) is True:
                            sink[i] = (p, k, v, l)
                            break
                        known = known and z is False
                    else:
                        if not known:
                            raise Broken('a part of the stream is overwritten that is not known as such')
                        st.ghost['torn'] = True
                st.ghost['sink'] = tuple(sink)
            st.ghost['pos'] = ladd(pos, cnt)
        return models.ret(I, st, a[0])

    def inside(self, st, p, n):
        o = st.mem[p.obj]
        return o.size is None or st.entails(lsub(o.size, ladd(p.off, n)))

    def pieces(self, st, p, n):
        return pieces(st, p, n)

    def flush(self, I, st, a, d, n):
        st.ghost['flushed'] = True
        return models.ret(I, st, a[0])

    def tellp(self, I, st, a, d, n):
        p = ladd(self.start.lin, st.ghost['pos']) if self.seekable else -1
        return models.ret(I, st, (p, 0))

    def seekp(self, I, st, a, d, n):
        if not self.seekable:
            I.oblige(False, 'no-seek-on-unseekable-stream', 'positions a stream that cannot be positioned')
        p = st.to_s(a[1], 64)
        st.ghost['pos'] = st.const(lsub(p, self.start.lin))
        return models.ret(I, st, a[0])


PAYLOADS = set()


def pieces(st, p, n):
    """what lies at p, n bytes: (offset, 'b', byte, 1) or (offset, 'run', (source, offset, version), length)"""
    out, off, left = [], p.off, n
    for _ in range(20000):
        left = st.const(lsub(ladd(p.off, n), off))
        if left == 0 or (not isinstance(left, int) and st.is_zero(left) is True):
            return out
        if not isinstance(left, int) and st.is_zero(left) is None and not st.entails(ladd(left, -1)):
            raise Split([[peq(left)], [pne(left)]])
        b = byte_at(st, p.obj, off)
        if b is None:
            for o, l, s, so, ver in st.ghost.get(('copied', p.obj), ()):
                if st.is_zero(lsub(o, off)) is True and not (l == 0 or not isinstance(l, int) and st.is_zero(l) is True):
                    out.append((off, 'run', (s, so, ver), l))
                    off = st.const(ladd(off, l))
                    break
            else:
                out.append((off, 'b', None, 1))
                off = st.const(ladd(off, 1))
        else:
            out.append((off, 'b', b, 1))
            off = st.const(ladd(off, 1))
    raise Broken('too many bytes written: %r %s %s %s' % (p, n, out[:8], [(k,v) for k,v in st.ghost.items() if k[0]=='copied']))


def byte_at(st, k, off):
    o = st.mem[k]
    c = o.cells.get(off)
    if c is not None:
        return slice_of(c, 0)
    for x, c in o.cells.items():
        d = lsub(off, x)
        d = st.const(d)
        if isinstance(d, int) and isinstance(c[0], int) and 0 <= d < c[0]:
            return slice_of(c, d)
    if isinstance(off, int):
        for lo, hi, kind, sk, ver, so in o.segs:
            if lo <= off < hi:
                return 0 if kind == 'zero' else None
    return None


def slice_of(c, d):
    sz, v = c
    if sz == 1:
        return v
    if isinstance(v, (int, Lin, Bits)):
        b = bits_of(v, 8 * sz)
        if b is not None:
            return from_bits(b[8 * d:8 * d + 8])
    if isinstance(v, (Fp, FSym)) or isinstance(v, Unk):
        return ('slice', v, d)
    return None


class Seq:
    """states that go through the same operations; a throw ends a state"""

    def __init__(self, R):
        self.R, self.live, self.thrown, self.n = R, [(R.st, {})], [], 0

    def call(self, f, *args, to=None, env=None):
        """args: values or names of earlier results"""
        live = []
        for st, names in self.live:
            a = [names[x] if isinstance(x, str) else x for x in args]
            for o in self.R.I.call(st, f, a):
                if o.kind == 'ret':
                    if isinstance(o.val, Ptr):
                        # keeps the object alive
                        h = o.st.mem.get(('in', 'results')) or o.st.add(('in', 'results'), Obj('in', None, 'undef', 'results'))
                        o.st.wobj(('in', 'results')).cells[8 * len(h.cells)] = (8, o.val)
                    live.append((o.st, dict(names, **({to: o.val} if to else {}))))
                elif o.kind == 'throw':
                    self.thrown.append((o, self.n))
        self.live = live
        self.n += 1
        return self


def fn(m, pat):
    fs = [f for f in m.find(pat) if not f.decl]
    if len(fs) != 1:
        raise Broken('%d functions match %s' % (len(fs), pat))
    return fs[0]


def of(m, name, cls):
    """drv::name<Srl::cls>"""
    return fn(m, r'drv::%s<Srl::%s>\(' % (name, cls))


def num(I, st, bs, big=True):
    """unsigned number the bytes spell"""
    bs = list(bs)
    if big:
        bs = bs[::-1]
    bits = []
    for b in bs:
        if b is None or isinstance(b, tuple):
            return None
        x = bits_of(b, 8) or I.word(b, 8)
        if x is None:
            return None
        bits += list(x)
    return as_lin(from_bits(bits)) if not all(isinstance(b, int) for b in bits) else sum(b << i for i, b in enumerate(bits))


def equal(st, a, b):
    """is it shown that the two are the same number"""
    if a is None or b is None:
        return None
    d = st.const(lsub(a, b))
    if d == 0:
        return True
    z = st.is_zero(d) if not isinstance(d, int) else False
    return z
