"""Conversions between character sets with iconv replaced by its contract: any text, any buffer, any way a call may end."""
from wire import *
from models import ret, thrown
import models
from s04 import impossible

ENC = {'Unknown': 0, 'UTF8': 1, 'UTF16': 2, 'UTF32': 3}
NAME = {'UTF8': ('UTF-8', 'UTF8'), 'UTF16': ('UTF-16LE',), 'UTF32': ('UTF-32LE',)}
# bytes written per byte read, at most (numerator, denominator)
RATIO = {('UTF8', 'UTF16'): (2, 1), ('UTF8', 'UTF32'): (4, 1), ('UTF16', 'UTF8'): (3, 2), ('UTF16', 'UTF32'): (2, 1),
         ('UTF32', 'UTF8'): (1, 1), ('UTF32', 'UTF16'): (1, 1)}
EINVAL, EILSEQ, E2BIG = 22, 84, 7
CALLS = 6


class Conv:
    """one conversion; the ghost of a state tells what happened"""

    def __init__(self, rep, m, frm, to, thr, alloc=False):
        self.rep, self.m, self.frm, self.to, self.thr, self.alloc = rep, m, frm, to, thr, alloc
        self.R = R = Run(rep, m, exact=True)
        I = R.I
        I.unroll, I.max_cfgs, I.max_work = 8, 6000, 2000
        self.f = fn(m, r'^drv::conv\(')
        self.where = fn(m, r'^Srl::Tools::conv_charset\(Srl::Encoding, Srl::String const&, std::vector').where
        self.n = sym(('text size',), 0, 1 << 31)
        self.idx = sym(('index',), 0, 1 << 40)
        self.size = sym(('buffer size',), 0, 1 << 40)
        self.src = R.buf(self.n.lin, 'the text', 'bytes', ro=True)
        R.st.mem[self.src.obj].src = 'text'
        self.junk = R.buf(None, 'converted text', 'lazy')
        self.vec = R.vec(self.size.lin, 'the buffer')
        R.st.ghost.update(conv=None, opened=(), total=0, ended=None, calls=0, last=None, left=None, copied=None, failed=False)
        I.models = [(re.compile(r'^iconv_open$'), self.open), (re.compile(r'^iconv$'), self.conv), (re.compile(r'^iconv_close$'), self.close)] + I.models
        if alloc:
            I.models = [(re.compile(r'^std::vector::(resize|reserve|push_back|insert|assign|operator=)$'), self.grow)] + I.models
        old = I.hooks.get('copy')

        def copied(I, st, d, s, n):
            if isinstance(s, Ptr) and s.obj == self.src.obj:
                st.ghost['copied'] = (d, s.off, n)
            return old(I, st, d, s, n) if old else False
        I.hooks['copy'] = copied

    def grow(self, I, st, a, d, n):
        """an allocation that may fail"""
        bad = st.fork()
        bad.ghost['failed'] = True
        outs = models.vector_op(I, st, a, d, n)
        if outs is NotImplemented:
            return outs
        return list(outs) + thrown(I, bad, '_ZTISt9bad_alloc', NULL)

    def open(self, I, st, a, d, n):
        to, frm = self.cstr(I, st, a[0]), self.cstr(I, st, a[1])
        I.oblige(to in NAME.get(self.to, ()) and frm in NAME.get(self.frm, ()), 'converter-is-the-one-asked-for',
                 'opens a converter from %s to %s for %s to %s' % (frm, to, self.frm, self.to))
        bad = st.fork()
        bad.ghost['ended'] = 'open'
        k = ('cd', len(st.ghost['opened']))
        st.add(k, Obj('in', 8, 'undef', 'a converter'))
        st.ghost['opened'] += ('open',)
        return ret(I, st, Ptr(k, 0)) + ret(I, bad, Ptr('null', 2**64 - 1))

    def cstr(self, I, st, p):
        out = ''
        if not isinstance(p, Ptr) or p.obj == 'null':
            return None
        for i in range(32):
            c = st.const(as_lin(st.to_u(I.load(st, Ptr(p.obj, ladd(p.off, i)), 'i8'), 8)))
            if not isinstance(c, int):
                raise GiveUp('the name of a character set is not constant')
            if not c:
                return out
            out += chr(c)

    def handle(self, I, st, p, what):
        g = st.ghost['opened']
        i = p.obj[1] if isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == 'cd' else None
        I.oblige(i is not None and i < len(g), 'converter-is-open', '%s something that is no open converter' % what)
        if i is None or i >= len(g):
            raise GiveUp('a converter that has not been opened')
        I.oblige(g[i] == 'open', 'converter-is-open', '%s a converter that is closed already' % what)
        return i

    def close(self, I, st, a, d, n):
        i = self.handle(I, st, a[0], 'closes')
        g = st.ghost['opened']
        st.ghost['opened'] = g[:i] + ('closed',) + g[i + 1:]
        return ret(I, st, 0)

    def conv(self, I, st, a, d, n):
        self.handle(I, st, a[0], 'uses')
        g = st.ghost
        src, dst = I.load(st, a[1], 'ptr'), I.load(st, a[3], 'ptr')
        left, room = [st.const(as_lin(st.to_u(I.load(st, x, 'i64'), 64))) for x in (a[2], a[4])]
        if not isinstance(src, Ptr) or not isinstance(dst, Ptr):
            raise GiveUp('source or destination of a conversion not known')
        k = g['calls']
        if k >= CALLS:
            raise GiveUp('more than %d steps' % CALLS)
        # the source is what has not been read yet
        so = st.mem[self.src.obj]
        consumed = g['conv'] or 0
        I.oblige(src.obj == self.src.obj and equal(st, src.off, consumed) is True and equal(st, ladd(src.off, left), self.n.lin) is True,
                 'source-is-what-is-left', 'converts other bytes than those left of the text')
        # the destination is the buffer, behind what has been written, and the room is there
        store, size = vec_of(st, self.vec)
        if isinstance(dst, Ptr) and dst.obj != store:
            I.oblige(room == 0 or st.is_zero(room) is True, 'writes-stay-in-the-buffer', 'converts into memory that is not the buffer')
            raise GiveUp('the destination is not the buffer')
        I.oblige(st.entails(lsub(size, ladd(dst.off, room))), 'writes-stay-in-the-buffer', 'announces more room than the buffer has')
        I.oblige(equal(st, dst.off, ladd(self.idx.lin, g['total'])) is True, 'output-is-contiguous', 'the text does not continue where it ended')
        if g['last'] is not None:
            I.oblige(st.entails(lsub(ladd(room, -1), g['last'])), 'conversion-makes-progress', 'is called again with no more room than before')
        num, den = RATIO[self.frm, self.to]
        out = []
        for how in ('done', EINVAL, EILSEQ, E2BIG):
            s = st.fork()
            h = s.ghost
            c = left if how == 'done' else sym(('consumed', k, how), 0, 1 << 31).lin
            p = sym(('produced', k, how), 0, 1 << 41).lin
            cond = [pge(lsub(room, p)), pge(lsub(lscale(as_lin(c), num), lscale(p, den)))]
            if how != 'done':
                cond.append(pge(ladd(lsub(left, c), -1)))
            if how == E2BIG:
                # the next character does not fit, and all of the text may need more than there is
                cond += [pge(lsub(3, lsub(room, p))), pge(ladd(lsub(lscale(as_lin(left), num), lscale(as_lin(room), den)), -1))]
            if not all(s.assume(x) for x in cond):
                continue
            if not (isinstance(p, int) and p == 0):
                I.copy(s, dst, Ptr(self.junk.obj, 0), p)
            I.store(s, a[1], Ptr(src.obj, ladd(src.off, c)), 8, 'ptr')
            I.store(s, a[3], Ptr(dst.obj, ladd(dst.off, p)), 8, 'ptr')
            I.store(s, a[2], lsub(left, c), 8, 'i64')
            I.store(s, a[4], lsub(room, p), 8, 'i64')
            h['conv'], h['total'], h['calls'] = ladd(consumed, c), ladd(g['total'], p), k + 1
            h['ended'] = how
            h['last'] = lsub(room, p)
            if how != 'done':
                e = ('errno',)
                if e not in s.mem:
                    s.add(e, Obj('glob', 4, 'lazy', 'errno'))
                I.store(s, Ptr(e, 0), how, 4, 'i32')
            out += ret(I, s, 0 if how == 'done' else (1 << 64) - 1)
        return out

    def go(self):
        outs = self.R.call(self.f, ENC[self.to], self.src, self.n.lin, ENC[self.frm], self.vec, self.thr, self.idx.lin)
        return [o for o in outs if not impossible(o.st)]


def pairs():
    for frm in ENC:
        for to in ENC:
            for thr in (0, 1):
                yield frm, to, thr
