"""Memory handed out: large enough, aligned, inside one allocation, and not given out twice while it is in use."""
import itertools
from wire import *
from s04 import impossible

SIZE = {'get_1': 1, 'get_2': 2, 'get_4': 4, 'get_8': 8, 'get_24': 24, 'get_16': 16, 'create': 16}
ALIGN = {'get_1': 1, 'get_2': 2, 'get_4': 4, 'get_8': 8, 'get_24': 8, 'get_16': 16, 'create': 8}


def run(rep):
    do = Jobs(rep)
    m = model('heap.cpp')
    rep.level = 'other'
    rep.explanation = (
        'Sequences of operations on heaps (blocks of six types and any number of elements taken, given back, everything cleared, heaps '
        'moved and destroyed). Every block has to lie inside one live allocation, to be aligned for its type and to be provably disjoint '
        'from each block that is in use; no block in use is written to by the heap; at the end everything has been freed once.')
    for ops in histories(rep.tier == 'thorough'):
        w = ', '.join(ops)
        do(w, follow, m, ops, w)
    do.all()


def histories(full):
    gets = ['get_1', 'get_8', 'get_24', 'create']
    some = ['get_1', 'get_4', 'get_16']
    for n in (1, 2):
        for g in itertools.product(SIZE, repeat=n):
            yield g + ('destroy',)
    for g in itertools.product(gets if full else ['get_1', 'get_8', 'create'], repeat=3):
        yield g + ('destroy',)
    # blocks given back are handed out again
    for a, b in itertools.product(some, SIZE):
        yield (a, 'put 0', b, 'get_1', 'destroy')
    for a, b, c in itertools.product(['get_8', 'get_1'], ['get_1', 'get_4'], ['get_1', 'get_8', 'get_16']):
        more = (b,) if full else ()
        yield (a, b, 'put 0', c) + more + ('destroy',)
        yield (a, b, 'put 1', 'put 0', c) + more + ('destroy',)
    for a, b in itertools.product(['get_1', 'get_8'], ['get_1', 'get_4', 'get_16']):
        yield (a, 'clear', b, 'get_8', 'destroy')
        yield (a, b, 'clear', b, a, 'destroy')
        yield (a, 'put 0', 'clear', b, 'get_8', 'destroy')
        yield (a, 'clear', 'clear', b, 'clear', b, a, 'destroy')
        # heaps that are moved: both can be used
        yield (a, 'moved', b, 'other', 'get_4', 'destroy', 'destroy')
        yield (a, b, 'moved', 'put 0', b, 'other', a, 'destroy', 'destroy')
        yield (a, 'moved', 'get_1', 'other', b, 'clear', a, 'destroy', 'destroy')
        yield (a, 'moved', 'clear', b, 'other', a, 'destroy', 'destroy')
        yield (a, 'assign', b, 'other', 'get_4', 'get_1', 'destroy', 'destroy')
        yield (a, 'other', b, 'assign', 'get_4', 'other', 'get_1', 'destroy', 'destroy')
        yield ('moved', a, 'other', b, 'destroy', 'destroy')


class Bad(Exception):
    pass


def follow(rep, m, ops, what):
    R = Run(rep, m, exact=True)
    R.I.unroll, R.I.max_cfgs, R.I.max_work, R.I.decided_cap, R.I.max_splits = 60, 3000, 2000, 2000, 2000
    where = fn(m, r'^Srl::Lib::Heap::alloc\(').where
    f = lambda n: fn(m, r'^drv::%s\(' % n)
    R.I.hooks['fill'] = lambda I, st, d, byte, n: touched(I, st, d, n)
    R.I.hooks['copy'] = lambda I, st, d, s, n: touched(I, st, d, n)
    # ghost: 'heaps' in use, 'cur' the one that is used, 'blocks' ((heap, object, offset, length), ..) in use, 'all' handed out
    R.st.ghost.update(heaps=(), cur=None, blocks=(), all=())
    k = [0]

    def new(st):
        o, = R.I.call(st, f('make'), [])
        keep(R, o.st, o.val)
        o.st.ghost['heaps'] += (o.val,)
        o.st.ghost['cur'] = o.val
        return [o.st]
    live = new(R.st)
    for i, op in enumerate(ops):
        op, *arg = op.split(' ')
        nxt = []
        for st in live:
            g = st.ghost
            h = g['cur']
            if op in SIZE:
                n = sym(("n", i), 1 if len(ops) > 3 else 0, 1 << 25 if len(ops) < 4 else 1000).lin if op != 'create' else 1
                for o in R.I.call(st, f(op), [h, n if op != 'create' else sym(('v', i), 0, (1 << 32) - 1).lin]):
                    if o.kind != 'ret':
                        rep.check(impossible(o.st), 'memory-is-handed-out', where, '%s: %s fails' % (what, op))
                        continue
                    ln = lscale(n, SIZE[op]) if not isinstance(n, int) else n * SIZE[op]
                    why = cases(o.st, lambda s: None if impossible(s) else judge(R, s, o.val, ln, ALIGN[op]))
                    rep.check(why is None, 'blocks-are-apart-and-large-enough', where, '%s: %s: %s' % (what, op, why))
                    if why is None and not impossible(o.st):
                        keep(R, o.st, o.val)
                        o.st.ghost['blocks'] += ((h, o.val.obj, o.val.off, ln),)
                        o.st.ghost['all'] += ((h, o.val.obj, o.val.off, ln),)
                        nxt.append(o.st)
                continue
            if op == 'put':
                b = g['all'][int(arg[0])]
                ln = b[3]
                if not st.assume(pge(ladd(ln, -1))):
                    continue
                g['blocks'] = tuple(x for x in g['blocks'] if x != b)
                off = b[2]
                outs = R.I.call(st, f('put'), [b[0] if b[0] in g['heaps'] else h, Ptr(b[1], off), st.const(ln)])
            elif op == 'clear':
                g['blocks'] = tuple(x for x in g['blocks'] if x[0] != h)
                outs = R.I.call(st, f('clear'), [h])
            elif op == 'moved':
                outs = R.I.call(st, f('moved'), [h])
            elif op == 'assign':
                nxt_ = []
                for s in new(st):
                    to, frm = s.ghost['cur'], h
                    # what the target held is gone
                    for o in R.I.call(s, f('assign'), [to, frm]):
                        if o.kind == 'ret':
                            o.st.ghost['blocks'] = tuple((to,) + x[1:] if x[0] == frm else x for x in o.st.ghost['blocks'])
                            o.st.ghost['all'] = tuple((to,) + x[1:] if x[0] == frm else x for x in o.st.ghost['all'])
                            nxt_.append(o.st)
                nxt += nxt_
                continue
            elif op == 'other':
                others = [x for x in g['heaps'] if x != h]
                if others:
                    g['cur'] = others[0]
                    nxt.append(st)
                else:
                    nxt += new(st)
                continue
            elif op == 'destroy':
                g['blocks'] = tuple(x for x in g['blocks'] if x[0] != h)
                outs = R.I.call(st, f('destroy'), [h])
            for o in outs:
                if o.kind != 'ret':
                    rep.check(impossible(o.st), 'memory-is-handed-out', where, '%s: %s fails' % (what, op))
                    continue
                s = o.st
                if op == 'moved':
                    keep(R, s, o.val)
                    s.ghost['heaps'] += (o.val,)
                    s.ghost['cur'] = o.val
                    for key in ('blocks', 'all'):
                        s.ghost[key] = tuple((o.val,) + x[1:] if x[0] == h else x for x in s.ghost[key])
                if op == 'destroy':
                    s.ghost['heaps'] = tuple(x for x in s.ghost['heaps'] if x != h)
                    if s.ghost['heaps']:
                        s.ghost['cur'] = s.ghost['heaps'][0]
                why = alive(s)
                rep.check(why is None or impossible(s), 'blocks-in-use-stay', where, '%s: %s: %s' % (what, op, why))
                nxt.append(s)
        live = nxt
        rep.count('paths', len(live))
    for st in live:
        if not st.ghost['heaps']:
            left = [o.name for k, o in st.mem.items() if is_heap(k) and not o.dead]
            rep.check(not left or impossible(st), 'everything-is-freed-once', where, '%s: %s not freed' % (what, left[:2]))
    if not live:
        rep.undecided(what, 'no path')
    R.report()


def is_heap(k):
    return isinstance(k, tuple) and k and isinstance(k[0], tuple) and k[0] and k[0][0] == 'heap'


def keep(R, st, v):
    """what has been handed out is reachable"""
    k = ('in', 'results')
    if k not in st.mem:
        st.add(k, Obj('in', None, 'undef', 'results'))
    o = st.wobj(k)
    o.cells[8 * len(o.cells)] = (8, v)


def ge(st, l):
    l = st.const(l)
    return l >= 0 if isinstance(l, int) else st.entails(as_lin(l))


def judge(R, st, p, n, align):
    n = st.const(n)
    if n == 0:
        return None
    if not isinstance(n, int) and st.is_zero(n) is None:
        raise Split([[peq(n)], [pne(n)]])
    if st.is_zero(n) is True:
        return None
    if not isinstance(p, Ptr) or p.obj == 'null' or p.obj not in st.mem:
        return 'no memory'
    o = st.mem[p.obj]
    if o.dead:
        return 'a block of memory that has been freed'
    if not ge(st, p.off) or not ge(st, lsub(o.size, ladd(p.off, n))):
        return 'a block that is too small: %s bytes at %s of %s' % (n, p.off, o.size)
    a = R.I.ptr2int(p)
    if align > 1:
        r = st.const(as_lin(R.I.rem(st, a, align)))
        z = r == 0 if isinstance(r, int) else st.is_zero(r)
        if z is None:
            raise Split([[peq(r)], [pne(r)]])
        if not z:
            return 'not aligned by %d: %s' % (align, p.off)
    for h, k, off, ln in st.ghost['blocks']:
        if k != p.obj:
            continue
        if ge(st, lsub(p.off, ladd(off, ln))) or ge(st, lsub(off, ladd(p.off, n))):
            continue
        c = pge(as_lin(lsub(p.off, ladd(off, ln))))
        if st.decide(c) is None:
            raise Split([[c], [neg(c)]])
        ln_ = st.const(ln)
        if not isinstance(ln_, int) and st.is_zero(ln_) is None:
            raise Split([[peq(ln_)], [pne(ln_)]])
        if ln_ == 0 or st.is_zero(ln_) is True:
            continue
        return 'a block that overlaps another one that is in use'
    return None


def touched(I, st, d, n):
    """memory in use is not written to"""
    if 'blocks' in st.ghost and isinstance(d, Ptr):
        for h, k, off, ln in st.ghost['blocks']:
            if k == d.obj:
                ok = ge(st, lsub(d.off, ladd(off, ln))) or ge(st, lsub(off, ladd(d.off, n)))
                if not ok:
                    for x in (ln, n):
                        x = st.const(x)
                        if x == 0 or not isinstance(x, int) and st.is_zero(x) is True:
                            ok = True
                if not ok:
                    c = pge(as_lin(lsub(d.off, ladd(off, ln))))
                    if not isinstance(c, int) and st.decide(c) is None:
                        raise Split([[c], [neg(c)]])
                I.oblige(ok, 'blocks-in-use-are-not-overwritten', 'the heap writes to a block that is in use')
    return False


def alive(st):
    for h, k, off, ln in st.ghost['blocks']:
        n = st.const(ln)
        if n == 0 or k in st.mem and not st.mem[k].dead:
            continue
        if not isinstance(n, int) and st.is_zero(n) is True:
            continue
        return 'a block in use is freed'
    return None
