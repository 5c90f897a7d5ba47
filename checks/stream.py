"""The data a document is read from: a stream of unknown bytes and length (or a block of memory), and the record of which of its
bytes lie where.  An istream delivers what it is asked for unless it ends."""
from wire import *
from models import ret
import models


class Source:
    """ghost: 'T' bytes delivered, 'ended' no more will come, 'runs' ((object, offset, length, position in the data), ..),
    'seen' positions a byte has been read at"""

    def __init__(self, R):
        self.R, self.I = R, R.I
        I = R.I
        self.n = 0
        self.windows = set()
        self.limit = None
        self.total = 1 << 22       # streams are not longer than this
        self.new = None
        I.models = [(re.compile(r'^std::istream::read$'), self.read), (re.compile(r'^std::istream::gcount$'), self.gcount),
                    (re.compile(r'^std::vector::(resize|reserve|push_back|emplace_back|insert|assign|operator=|vector|shrink_to_fit)$'), self.vector)] + I.models
        I.hooks['copy'], I.hooks['load'], I.hooks['store'], I.hooks['fill'] = self.copied, self.load, self.stored, self.filled

    def stream(self, st):
        k = ('in', 'the stream')
        if k not in st.mem:
            st.add(k, Obj('in', 256, 'lazy', 'the stream'))
        st.ghost.update(T=0, ended=False, runs=(), seen=(), last=0, epoch=st.ghost.get('epoch', 0) + 1)
        return Ptr(k, 0)

    def memory(self, st, n):
        k = ('in', 'the data' if ('in', 'the data') not in st.mem else 'the other data')
        if k not in st.mem:
            st.add(k, Obj('buf', n, 'lazy', 'the data', ro=True))
        st.ghost.update(T=n, ended=True, runs=((k, 0, n, 0),), seen=(), last=0, epoch=st.ghost.get('epoch', 0) + 1)
        self.windows.add(k)
        return Ptr(k, 0)

    # the stream

    def read(self, I, st, a, d, n):
        g = st.ghost
        want = st.const(as_lin(st.to_s(a[2], 64)))
        I.oblige(isinstance(want, int) and want >= 0 or st.entails(as_lin(want)), 'length-is-not-negative', 'asks the stream for a negative number of bytes')
        if not isinstance(a[1], Ptr):
            raise GiveUp('the destination of a read is not known')
        none = want == 0 or not isinstance(want, int) and st.is_zero(want) is True
        if not none:
            if isinstance(want, Lin) and st.is_zero(want) is None and not st.entails(ladd(want, -1)):
                raise Split([[peq(want)], [pne(want)]])
            if I.resolve_obj(st, a[1], want, 'writes') is None:
                raise GiveUp('the destination of a read does not exist')
            self.windows.add(a[1].obj)
            self.cut(st, a[1].obj, a[1].off, want)
        out = []
        for how in ('full', 'end'):
            s = st.fork()
            h = s.ghost
            if self.limit is not None:
                # data of known length
                all_ = isinstance(want, int) and isinstance(h['T'], int) and h['T'] + want <= self.limit
                if not isinstance(h['T'], int):
                    raise GiveUp('how much has been delivered is not known')
                if not isinstance(want, int):
                    c = pge(lsub(self.limit - h['T'], want))
                    if s.decide(c) is None:
                        raise Split([[c], [neg(c)]])
                    all_ = s.decide(c)
                if all_ != (how == 'full'):
                    continue
                got = want if all_ else self.limit - h['T']
            elif how == 'full':
                if h['ended'] and not none:
                    continue
                got = want
                c = lsub(self.total, ladd(h['T'], got))
                if not (c >= 0 if isinstance(c, int) else s.assume(pge(c))):
                    continue
            elif h['ended']:
                got = 0
                if none:
                    continue
            else:
                if none:
                    continue
                self.n += 1
                got = sym(('delivered', self.n), 0, 1 << 40).lin
                if not s.assume(pge(lsub(ladd(want, -1), got))) or not s.assume(pge(lsub(self.total, ladd(h['T'], got)))):
                    continue
            if how == 'end':
                h['ended'] = True
            h['last'] = got
            if not (isinstance(got, int) and got == 0):
                I.havoc(s, a[1].obj, a[1].off, want)
                h['runs'] = self.merge(s, h['runs'], (a[1].obj, a[1].off, got, h['T']))
                h['T'] = s.const(ladd(h['T'], got))
            out += ret(I, s, a[0])
        return out

    def gcount(self, I, st, a, d, n):
        return ret(I, st, st.ghost['last'])

    # where the bytes are

    def merge(self, st, runs, r):
        out = []
        for q in runs:
            if q[0] == r[0] and st.is_zero(lsub(ladd(q[1], q[2]), r[1])) is True and st.is_zero(lsub(ladd(q[3], q[2]), r[3])) is True:
                r = (q[0], q[1], st.const(ladd(q[2], r[2])), q[3])
            elif q[0] == r[0] and st.is_zero(lsub(ladd(r[1], r[2]), q[1])) is True and st.is_zero(lsub(ladd(r[3], r[2]), q[3])) is True:
                r = (q[0], r[1], st.const(ladd(q[2], r[2])), r[3])
            else:
                out.append(q)
        return tuple(out) + (r,)

    def ge(self, st, l):
        l = st.const(l)
        return l >= 0 if isinstance(l, int) else st.entails(l)

    def cut(self, st, k, off, n):
        """the bytes at off are overwritten"""
        out = []
        for q in st.ghost['runs']:
            if q[0] != k:
                out.append(q)
                continue
            before, after = self.ge(st, lsub(off, ladd(q[1], q[2]))), self.ge(st, lsub(q[1], ladd(off, n)))
            if before or after:
                out.append(q)
                continue
            if self.ge(st, lsub(off, q[1])):
                out.append((k, q[1], st.const(lsub(off, q[1])), q[3]))
            e = ladd(off, n)
            if self.ge(st, lsub(ladd(q[1], q[2]), e)) and self.ge(st, lsub(e, q[1])):
                out.append((k, e, st.const(lsub(ladd(q[1], q[2]), e)), st.const(ladd(q[3], lsub(e, q[1])))))
        st.ghost['runs'] = tuple(q for q in out if q[2] != 0)

    def stored(self, I, st, k, o, off, size, v):
        if any(q[0] == k for q in st.ghost.get('runs', ())):
            self.cut(st, k, off, size)
        return False

    def filled(self, I, st, d, byte, n):
        if isinstance(d, Ptr) and any(q[0] == d.obj for q in st.ghost.get('runs', ())):
            self.cut(st, d.obj, d.off, n)
        return False

    def copied(self, I, st, d, s, n):
        if 'runs' not in st.ghost or not isinstance(d, Ptr) or not isinstance(s, Ptr):
            return False
        new = self.part(st, s.obj, s.off, n, d.obj, d.off)
        if new or any(q[0] == d.obj for q in st.ghost['runs']):
            self.cut(st, d.obj, d.off, n)
            for r in new:
                st.ghost['runs'] = self.merge(st, st.ghost['runs'], r)
        return False

    def part(self, st, k, off, n, k2, off2):
        """runs of the copy of n bytes at off"""
        new = []
        for q in st.ghost['runs']:
            if q[0] != k:
                continue
            qe, e = ladd(q[1], q[2]), ladd(off, n)
            if self.ge(st, lsub(off, qe)) or self.ge(st, lsub(q[1], e)):
                continue
            lo, hi = self.most(st, q[1], off), self.least(st, qe, e)
            if self.ge(st, lsub(lo, hi)):
                continue
            new.append((k2, st.const(ladd(off2, lsub(lo, off))), st.const(lsub(hi, lo)), st.const(ladd(q[3], lsub(lo, q[1])))))
        return new

    def most(self, st, a, b):
        c = pge(lsub(as_lin(a), b))
        t = st.decide(c) if not isinstance(st.const(lsub(a, b)), int) else st.const(lsub(a, b)) >= 0
        if t is None:
            raise Split([[c], [neg(c)]])
        return a if t else b

    def least(self, st, a, b):
        return b if self.most(st, a, b) is a else a

    def vector(self, I, st, a, d, n):
        """what a vector holds moves with it"""
        if 'runs' not in st.ghost or not isinstance(a[0], Ptr):
            return models.vector_op(I, st, a, d, n)
        op = re.search(r'(~?\w+|operator=)(?:<[^()]*>)?\(', I.m.funcs[n].dem.split('>::', 1)[-1])
        op = op.group(1) if op else ''
        dem = I.m.funcs[n].dem
        old, size = None, 0
        if not (op == 'vector'):
            b, e = models.vparts(I, st, a[0])
            if isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj == e.obj and b.obj != 'null':
                old, size = b, lsub(e.off, b.off)
        src = None
        if op in ('vector', 'operator=') and len(a) > 1 and 'std::vector<' in dem.split('>::', 1)[-1] and '&&' not in dem and isinstance(a[1], Ptr):
            b, e = models.vparts(I, st, a[1])
            if isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj == e.obj and b.obj != 'null':
                src = (b, lsub(e.off, b.off))
        rng = None
        if op in ('insert', 'assign') or op == 'vector' and len(a) > 2:
            rng = [x for x in a[1:] if isinstance(x, Ptr)]
            if any(q[0] in {x.obj for x in rng} for q in st.ghost['runs']):
                raise GiveUp('data is copied in a way that is not followed')
        moved = copied = ()
        if old is not None and op in ('resize', 'reserve', 'push_back', 'emplace_back', 'shrink_to_fit'):
            keep = size
            if op == 'resize':
                new = lscale(as_lin(st.to_u(a[1], 64)), models.velem(I, n))
                keep = self.least(st, size, new)
            moved = self.part(st, old.obj, old.off, keep, None, 0)
        if src:
            copied = self.part(st, src[0].obj, src[0].off, src[1], None, 0)
        if op in ('resize', 'reserve') and (old is None or old.obj in self.windows or not self.windows):
            new = lscale(as_lin(st.to_u(a[1], 64)), models.velem(I, n))
            I.oblige(self.ge(st, lsub(1 << 26, new)), 'room-is-made-for-data-that-is-there', 'makes room as a length found in the document says, not for data that has been seen')
        outs = models.vector_op(I, st, a, d, n)
        if outs is NotImplemented:
            return outs
        for o in outs:
            if o.kind != 'ret':
                continue
            s = o.st
            b, e = models.vparts(I, s, a[0])
            if not isinstance(b, Ptr) or not isinstance(e, Ptr) or b.obj == 'null':
                continue
            if src:
                s.ghost['runs'] = tuple(q for q in s.ghost['runs'] if q[0] != b.obj) + tuple((b.obj, s.const(ladd(q[1], b.off))) + q[2:] for q in copied)
            elif old is not None and op in ('resize', 'reserve', 'push_back', 'emplace_back', 'shrink_to_fit'):
                s.ghost['runs'] = tuple(q for q in s.ghost['runs'] if q[0] not in (b.obj, old.obj)) + tuple((b.obj, s.const(ladd(q[1], b.off))) + q[2:] for q in moved)
                if old.obj in self.windows:
                    self.windows.add(b.obj)
        return outs

    # reading

    def load(self, I, st, k, o, off, size, ty):
        if 'runs' not in st.ghost or size > 16:
            return None
        qs = [q for q in st.ghost['runs'] if q[0] == k]
        if not qs and k not in self.windows:
            return None
        pos = self.inside(I, st, k, off, size, k in self.windows)
        if pos is None:
            return None
        bs = [self.byte(st, ladd(pos, i)) for i in range(size)]
        bits = ()
        for s in bs:
            bits += bits_of(s.lin, 8)
        return I.typed(from_bits(bits) if size > 1 else bs[0].lin, ty, st)

    def inside(self, I, st, k, off, size, must):
        """position in the data of the bytes at off"""
        for q in st.ghost['runs']:
            if q[0] == k and self.ge(st, lsub(off, q[1])) and self.ge(st, lsub(ladd(q[1], q[2]), ladd(off, size))):
                if must:
                    I.oblige(True, 'only-delivered-bytes-are-read', '')
                return st.const(ladd(q[3], lsub(off, q[1])))
        if must:
            for q in st.ghost['runs']:
                if q[0] == k:
                    for c in (pge(as_lin(lsub(off, q[1]))), pge(as_lin(lsub(ladd(q[1], q[2]), ladd(off, size))))):
                        if st.decide(c) is None:
                            raise Split([[c], [neg(c)]])
            I.oblige(False, 'only-delivered-bytes-are-read', 'reads %s bytes that are not (all) part of the data' % size)
        return None

    def byte(self, st, pos):
        """the symbol for the byte at a position of the data"""
        pos = st.const(pos)
        for p in st.ghost['seen']:
            if p == pos or st.is_zero(lsub(p, pos)) is True:
                return byte_sym(('data', st.ghost['epoch'], p))
        st.ghost['seen'] += (pos,)
        s = byte_sym(('data', st.ghost['epoch'], pos))
        if self.new:
            self.new(st, pos, s)
        return s

    def at(self, st, p, n, pos):
        """do the n bytes at p lie in the data at pos"""
        if n == 0 or not isinstance(n, int) and st.is_zero(n) is True:
            return True
        if not isinstance(p, Ptr) or p.obj not in st.mem or st.mem[p.obj].dead:
            return False
        for q in st.ghost['runs']:
            if q[0] == p.obj and self.ge(st, lsub(p.off, q[1])) and self.ge(st, lsub(ladd(q[1], q[2]), ladd(p.off, n))):
                return st.is_zero(lsub(ladd(q[3], lsub(p.off, q[1])), pos)) is True
        return False
