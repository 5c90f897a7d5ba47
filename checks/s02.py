"""The input window: whatever is read, in whatever order, is the next part of the data; refilling loses and moves nothing."""
import itertools
from stream import *
from s04 import impossible

BIG = (1 << 64) - 1
TERM = (ord(';'), ord('|'))


def run(rep):
    m = model('input.cpp')
    rep.level = 'other'
    rep.explanation = (
        'Sequences of operations on the input, of unknown sizes, over data of unknown bytes and length from a stream or from memory. The '
        'analysis keeps a record of which bytes of the data lie where, through every read of the stream, copy and reallocation. What an '
        'operation gives has to be exactly the part of the data that is next; it may fail only if the data ends too early, and has to then; '
        'no byte is read that has not been delivered.')
    jobs = []
    for src in ('stream', 'memory'):
        for ops in histories(rep.tier == 'thorough'):
            w = '%s: %s' % (src, ', '.join(ops))
            jobs.append((w, lambda r, src=src, ops=ops, w=w: follow(r, m, src, ops, w)))
    parallel(rep, jobs)


SIZED = ['peek', 'try_peek', 'move', 'block']
LAST = ['peek', 'try_peek', 'block', 'move peek', 'byte', 'word', 'until 0', 'until 1', 'until 2', 'skip_until 1', 'skip_while 1', 'skip_pair 1',
        'at_pair', 'text 0', 'text 1', 'text 2']


def histories(full):
    for b in LAST:
        yield tuple(b.split(' ')) if b == 'move peek' else (b,)
    for a in SIZED:
        for b in LAST + ['text 3']:
            yield (a,) + (tuple(b.split(' ')) if b == 'move peek' else (b,))
    for pre in itertools.product(['try_peek', 'move', 'block', 'until 1'], repeat=2):
        for b in LAST if full else ['peek', 'block', 'until 1', 'text 1']:
            yield pre + (tuple(b.split(' ')) if b == 'move peek' else (b,))
    for a in SIZED + ['until 1']:
        for other in ('stream', 'memory'):
            for b in (('block',), ('move', 'peek'), ('until 1',)):
                yield (a, other) + b
    for far in (1100, 2300) if full else (1100,):
        yield ('until %d' % far, 'block')
        yield ('byte', 'until %d' % far, 'byte')


class Bad(Exception):
    pass


class Follow:
    def __init__(self, rep, m, src):
        self.rep, self.m = rep, m
        self.R = R = Run(rep, m, exact=True)
        R.I.unroll, R.I.max_cfgs, R.I.max_work, R.I.decided_cap = 40, 6000, 4000, 5000
        self.S = Source(R)
        self.k = 0
        self.src = src
        st = R.st
        self.out = R.obj(16, 'a block')
        self.vec = R.vec(0, 'a text')
        self.live, self.ended = [], []
        o, = R.I.call(st, fn(m, r'^drv::make\('), [])
        st, self.inp = o.st, o.val
        h = st.add(('in', 'results'), Obj('in', None, 'undef', 'results'))
        h.cells[0] = (8, self.inp)
        if src == 'stream':
            outs = R.I.call(st, self.f('from_stream'), [self.inp, self.S.stream(st)])
        else:
            n = sym(('size of the data',), 0, BIG).lin
            outs = R.I.call(st, self.f('from_memory'), [self.inp, self.S.memory(st, n), n])
        for o in outs:
            if o.kind == 'ret':
                self.live.append((o.st, 0))
            elif not impossible(o.st):
                self.bad('set-does-not-fail', 'a source cannot be set')

    def f(self, name):
        return fn(self.m, r'^drv::%s\(' % name)

    def bad(self, rule, why):
        self.rep.check(False, rule, self.where, why)

    def ge(self, st, l):
        return self.S.ge(st, l)

    def again(self, src):
        """another source is set, whatever has been read before"""
        states = [st for st, C in self.live] + self.ended
        self.live, self.ended = [], []
        for st in states:
            if impossible(st):
                continue
            if src == 'stream':
                outs = self.R.I.call(st, self.f('from_stream'), [self.inp, self.S.stream(st)])
            else:
                n = sym(('size of the other data',), 0, BIG).lin
                outs = self.R.I.call(st, self.f('from_memory'), [self.inp, self.S.memory(st, n), n])
            for o in outs:
                self.rep.check(o.kind == 'ret' or impossible(o.st), 'set-does-not-fail', self.where, 'a source cannot be set')
                if o.kind == 'ret':
                    self.live.append((o.st, 0))

    def step(self, op, what):
        if op in ('stream', 'memory'):
            return self.again(op)
        op, *k = op.split(' ')
        k = int(k[0]) if k else None
        self.k += 1
        n = sym(('n', self.k), 0, BIG).lin
        new = []
        for st, C in self.live:
            args = [self.inp]
            if op in ('peek', 'try_peek', 'move', 'block'):
                args.append(n)
            need = n
            if op in ('byte', 'word'):
                need = {'byte': 1, 'word': 4}[op]
            if op in ('until', 'skip_until'):
                need = k + 1
                for i in range(k):
                    st.mask[self.S.byte(st, ladd(C, i))] = byte_mask(lambda v: v not in TERM)
                st.mask[self.S.byte(st, ladd(C, k))] = byte_mask(lambda v: v in TERM)
            if op == 'skip_while':
                need = k + 1
                for i in range(k):
                    st.mask[self.S.byte(st, ladd(C, i))] = byte_mask(lambda v: v in TERM)
                st.mask[self.S.byte(st, ladd(C, k))] = byte_mask(lambda v: v not in TERM)
            if op == 'skip_pair':
                need = k + 2
                for i in range(k):
                    st.mask[self.S.byte(st, ladd(C, i))] = byte_mask(lambda v: v != ord('*'))
                st.mask[self.S.byte(st, ladd(C, k))] = 1 << ord('*')
                st.mask[self.S.byte(st, ladd(C, k + 1))] = 1 << ord('/')
            if op == 'text':
                need = k + 1
                for i in range(k):
                    st.mask[self.S.byte(st, ladd(C, i))] = byte_mask(lambda v: v != ord('"'))
                st.mask[self.S.byte(st, ladd(C, k))] = 1 << ord('"')
            if op in ('until', 'block'):
                args.append(self.out)
            if op == 'text':
                args.append(self.vec)
            for o in self.R.I.call(st, self.f(op), args):
                if o.kind == 'throw':
                    self.ended.append(o.st)
                r = []
                why = cases(o.st, lambda s: None if impossible(s) else self.judge(s, C, op, k, n, need, o, r))
                self.rep.check(why is None, 'input-is-read-in-order' if why is None or 'fails' not in why else 'input-is-read-to-its-end',
                               self.where, '%s: %s %s' % (what, op, why))
                if o.kind == 'ret' and why is None and not impossible(o.st):
                    new.append((o.st, self.after(o.st, C, op, k, n, need, o)))
        self.live = new
        self.rep.count('paths', len(new))

    def after(self, st, C, op, k, n, need, o):
        if op in ('move', 'block', 'byte', 'word'):
            return st.const(ladd(C, need))
        if op in ('until', 'skip_until', 'skip_while', 'text', 'skip_pair'):
            return st.const(ladd(C, k))
        return C

    def judge(self, st, C, op, k, n, need, o, r):
        """why the outcome is not the one the data calls for"""
        g = st.ghost
        S = self.S
        left = lsub(g['T'], C)
        if op == 'at_pair':
            return self.at_pair(st, C, o, left)
        if o.kind == 'throw' and not is_srl(o):
            return 'ends in another exception than Srl::Exception'
        if o.kind not in ('ret', 'throw'):
            return 'ends the process'
        ok = o.kind == 'ret'
        if op == 'try_peek':
            v = st.const(as_lin(st.to_u(o.val, 1)))
            if not isinstance(v, int):
                raise Split([[peq(v)], [pne(v)]])
            ok = v == 1
        if not ok:
            if self.ge(st, lsub(left, need)):
                return 'fails although the data goes on'
            if not g['ended']:
                return 'fails before the data has ended'
            if not self.ge(st, lsub(need, ladd(left, 1))):
                raise Split([[pge(lsub(left, need))], [neg(pge(lsub(left, need)))]])
            if op != 'try_peek':
                return None
            return self.window(st, C, left)
        if not self.ge(st, lsub(left, need)):
            c = pge(lsub(as_lin(left), need))
            if st.decide(c) is None:
                raise Split([[c], [neg(c)]])
            return 'succeeds although only a part of the data asked for has been delivered'
        if op in ('peek', 'byte', 'word'):
            if op == 'peek':
                return None if S.at(st, o.val, n, C) else 'does not give the next bytes of the data'
            want = ()
            for i in range(need):
                want += bits_of(S.byte(st, ladd(C, i)).lin, 8)
            got = bits_of(o.val, 8 * need)
            return None if got == want or equal(st, as_lin(st.to_u(o.val, 8 * need)), from_bits(want)) is True else 'does not give the next bytes'
        if op in ('block', 'until'):
            p, sz = self.R.I.load(st, self.out, 'ptr'), st.const(as_lin(st.to_u(self.R.I.load(st, Ptr(self.out.obj, 8), 'i64'), 64)))
            ln = n if op == 'block' else k
            if equal(st, sz, ln) is not True:
                return 'gives a block of another size'
            if not S.at(st, p, ln, C):
                return 'gives a block of other bytes than the next'
        if op.startswith('skip'):
            if equal(st, as_lin(st.to_u(o.val, 64)), k) is not True:
                return 'counts other than %d bytes' % k
        if op == 'try_peek':
            return self.window(st, C, need)
        if op == 'text':
            return self.text(st, C, k, o)
        return self.window(st, self.after(st, C, op, k, n, need, o), 0)

    def window(self, st, C, n):
        """the position is right and n bytes lie there"""
        p, = self.R.I.call(st.fork(), self.f('where'), [self.inp])
        return None if self.S.at(st, p.val, n, C) else 'leaves the position at other bytes than the next'

    def at_pair(self, st, C, o, left):
        if o.kind != 'ret':
            return 'ends in an exception'
        v = st.const(as_lin(st.to_u(o.val, 1)))
        if not isinstance(v, int):
            raise Split([[peq(v)], [pne(v)]])
        two = self.decided(st, lsub(left, 2))
        b = [self.S.byte(st, ladd(C, i)) for i in range(2)]
        if v:
            return None if two and [vals(st, x) for x in b] == [[ord('*')], [ord('/')]] else 'finds a token that is not there'
        if not two:
            return None if st.ghost['ended'] else 'fails before the data has ended'
        s = st.fork()
        there = all(s.assume(peq(ladd(x.lin, -ord(c)))) for x, c in zip(b, '*/')) and not impossible(s)
        return 'does not find the token' if there else None

    def decided(self, st, l):
        """is l >= 0"""
        l = st.const(l)
        if isinstance(l, int):
            return l >= 0
        t = st.decide(pge(l))
        if t is None:
            raise Split([[pge(l)], [neg(pge(l))]])
        return t

    def text(self, st, C, k, o):
        b = [self.S.byte(st, ladd(C, i)) for i in range(k)]

        def is_(i, c):
            vs = vals(st, b[i])
            if ord(c) not in vs:
                return False
            if len(vs) > 1:
                raise Split([[peq(ladd(b[i].lin, -ord(c)))], [pne(ladd(b[i].lin, -ord(c)))]])
            return True
        want, i = [], 0
        while i < k:
            for tok, by in (('\\q', ord('Q')), ('\\tt', ord('T'))):
                if i + len(tok) <= k and all(is_(i + j, c) for j, c in enumerate(tok)):
                    want.append(by)
                    i += len(tok)
                    break
            else:
                want.append(b[i].lin)
                i += 1
        if equal(st, as_lin(st.to_u(o.val, 64)), len(want)) is not True:
            return 'gives a text of another length'
        store, size = vec_of(st, self.vec)
        for i, w in enumerate(want):
            got = self.R.I.load(st, Ptr(store, i), 'i8') if store else None
            if got is None or equal(st, as_lin(st.to_u(got, 8)), w) is not True:
                return 'gives another text'
        return self.window(st, ladd(C, k), 0)


def follow(rep, m, src, ops, what):
    F = Follow.__new__(Follow)
    F.where = fn(m, r'^Srl::Lib::In::try_fetch_data\(').where if src == 'stream' else fn(m, r'^Srl::Lib::In::set\(').where
    F.__init__(rep, m, src)
    for op in ops:
        F.step(op, what)
    if not F.live:
        rep.undecided(what, 'nothing is read')
    F.R.report()
