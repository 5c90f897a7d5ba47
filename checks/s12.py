"""Nesting: the depth that is accepted when a tree is loaded, and scopes that are skipped without recursion."""
from wire import *
from models import ret
from s22 import keep

LIMIT = 128
PATTERNS = {                                # what precedes each further scope, and the scope itself
    'arrays': ((), 1), 'objects': ((), 2), 'arrays after a value': ((3,), 1), 'objects after an empty array': ((1, 0), 2),
    'arrays after two values and an object with a value': ((3, 3, 2, 3, 0), 1),
}


def run(rep):
    do = Jobs(rep)
    m = model('depth.cpp')
    rep.level = 'other'
    rep.explanation = (
        'A tree is loaded from a parser whose items are chosen by the analysis: scopes nested to every depth around the limit (and to '
        'any depth beyond), with other items between them. Loading has to succeed exactly up to the limit and to read the items up to '
        'the end of the root, deeper nesting has to end in Srl::Exception with a stack that does not grow any more. Scopes that are '
        'skipped: all sequences of items up to a length, and deep ones; exactly the items up to the end of the scope are taken and the '
        'depth of the calls does not depend on the nesting.')
    full = rep.tier == 'thorough'
    for name in PATTERNS if full else ['arrays', 'objects', 'arrays after a value', 'objects after an empty array']:
        for lo, hi in ((0, 6), (LIMIT - 1, LIMIT - 1), (LIMIT, LIMIT), (LIMIT + 1, LIMIT + 1), (LIMIT + 2, LIMIT + 60)):
            w = 'load, %s %d to %d deep' % (name, lo, hi)
            do(w, load, m, PATTERNS[name], lo, hi, w)
    do('load, 300 scopes side by side', wide, m, 300, 'load, 300 scopes side by side')
    do('skip, any sequence', skip, m, 9 if full else 7, 'skip, any sequence')
    for name in PATTERNS:
        do('skip deep, ' + name, skip_deep, m, PATTERNS[name], 300, 'skip deep, ' + name)
    for name in ('arrays', 'objects'):
        do('search behind %s' % name, search, m, PATTERNS[name], 'search behind %s' % name)
    do.all()


def start(rep, m):
    R = Run(rep, m, exact=True)
    R.I.unroll, R.I.max_cfgs, R.I.max_work, R.I.decided_cap, R.I.max_splits, R.I.max_rec = 3000, 20000, 20000, 20000, 20000, 900
    R.st.ghost.update(k=0, depth=0, deepest=0, stack=(), over=False)
    return R, lambda n: fn(m, r'^drv::%s\(' % n)


def items(R, choose):
    """choose(state) is the next item: a number or a symbol"""
    def nxt(I, st, a, d, n):
        x = choose(I, st)
        if not isinstance(x, int):
            for v, item in ((0, 0), (1, 1), (2, 3)):
                t = st.decide(peq(ladd(x, -v)))
                if t is None:
                    raise Split([[peq(ladd(x, -v))], [pne(ladd(x, -v))]])
                if t:
                    x = item
                    break
        g = st.ghost
        g['over'] = g['over'] or g['k'] > 0 and g['depth'] <= 0
        g['k'] += 1
        g['seq'] = g.get('seq', ()) + (x,)
        g['stack'] = max(g['stack'], (len(I.frames),)) if g['depth'] else g['stack']
        if not any(e[0] == min(g['depth'], 4000) for e in g.get('at', ())):
            g['at'] = g.get('at', ()) + ((g['depth'], len(I.frames)),)
        g['depth'] += {0: -1, 1: 1, 2: 1}.get(x, 0)
        g['deepest'] = max(g['deepest'], g['depth'])
        return ret(I, st, x)
    R.I.models = [(re.compile(r'^srl_next_item$'), nxt)] + R.I.models


def begin(R, f, what):
    b = R.buf(1, 'a document')
    o, = R.I.call(R.st, f('parser'), [])
    keep(R, o.st, o.val)
    p = o.val
    o, = R.I.call(o.st, f('tree'), [])
    keep(R, o.st, o.val)
    return o.st, o.val, p, b


def srl(o):
    return o.kind == 'throw' and 'Srl9Exception' in str(o.val[1])


def script(pattern, n):
    """a root scope with n scopes in each other, all closed"""
    out = [1]
    for _ in range(n):
        out += list(pattern[0]) + [pattern[1]]
    return out + [0] * (n + 1)


def load(rep, m, pattern, lo, hi, what):
    where = fn(m, r'^Srl::Node::read_source\(').where
    for n in range(lo, hi + 1) if hi - lo < 10 else (lo, (lo + hi) // 2, hi):
        R, f = start(rep, m)
        s = script(pattern, n)
        items(R, lambda I, st: s[st.ghost['k']] if st.ghost['k'] < len(s) else 0)
        st, t, p, b = begin(R, f, what)
        outs = R.I.call(st, f('load'), [t, p, b])
        rep.count('paths', len(outs))
        rep.check(bool(outs), 'depth-limit', where, '%s: does not end' % what)
        for o in outs:
            if n <= LIMIT:
                rep.check(o.kind == 'ret', 'depth-limit', where, '%s: a document %d deep is refused' % (what, n))
                if o.kind == 'ret':
                    rep.check(o.st.ghost['k'] == len(s), 'whole-document-is-read', where,
                              '%s: %s of %d items of a document %d deep are read' % (what, o.st.ghost['k'], len(s), n))
            else:
                rep.check(srl(o), 'depth-limit', where, '%s: a document %d deep is %s' % (
                    what, n, 'accepted' if o.kind == 'ret' else 'refused by another exception'))


def wide(rep, m, n, what):
    """scopes beside each other are no nesting"""
    where = fn(m, r'^Srl::Node::read_source\(').where
    R, f = start(rep, m)
    s = [1] + [1, 0, 2, 3, 0] * (n // 2) + [0]
    items(R, lambda I, st: s[st.ghost['k']] if st.ghost['k'] < len(s) else 0)
    st, t, p, b = begin(R, f, what)
    outs = R.I.call(st, f('load'), [t, p, b])
    rep.count('paths', len(outs))
    for o in outs or [None]:
        rep.check(o is not None and o.kind == 'ret' and o.st.ghost['k'] == len(s), 'depth-limit', where, '%s: refused' % what)


def skip(rep, m, length, what):
    where = fn(m, r'^Srl::Node::consume_scope\(').where
    R, f = start(rep, m)
    xs = [sym(('item', i), 0, 2).lin for i in range(length)]

    def choose(I, st):
        k = st.ghost['k']
        if k <= 1:
            return 1 + k
        if k < 2 + length and st.ghost['depth'] > 1:
            return xs[k - 2]
        return 0
    items(R, choose)
    st, t, p, b = begin(R, f, what)
    outs = R.I.call(st, f('skip'), [t, p, b])
    rep.count('paths', len(outs))
    rep.check(bool(outs), 'skipped-exactly', where, '%s: does not end' % what)
    for o in outs:
        g = o.st.ghost
        ok = o.kind == 'ret' and g['depth'] == 0 and not g['over']
        rep.check(ok, 'skipped-exactly', where, '%s: %s: %s' % (
            what, ' '.join(map(str, g['seq'])), 'an exception' if o.kind != 'ret' else 'items behind the scope are taken' if g['over'] else 'the rest of the scope is left'))
        flat(rep, g, where, what)


def flat(rep, g, where, what):
    at = dict(g.get('at', ()))
    rep.check(all(v == at[1] for k, v in at.items() if k >= 1) if 1 in at else True, 'skipping-does-not-recurse', where,
              '%s: the depth of the calls grows with the nesting' % what)


def skip_deep(rep, m, pattern, n, what):
    where = fn(m, r'^Srl::Node::consume_scope\(').where
    R, f = start(rep, m)
    s = script(pattern, n)
    items(R, lambda I, st: s[st.ghost['k']] if st.ghost['k'] < len(s) else 0)
    st, t, p, b = begin(R, f, what)
    outs = R.I.call(st, f('skip'), [t, p, b])
    rep.count('paths', len(outs))
    rep.check(bool(outs), 'skipped-exactly', where, '%s: does not end' % what)
    for o in outs:
        g = o.st.ghost
        rep.check(o.kind == 'ret' and g['k'] == len(s), 'skipped-exactly', where,
                  '%s: %s' % (what, 'an exception' if o.kind != 'ret' else '%d of %d items are taken' % (g['k'], len(s))))
        flat(rep, g, where, what)


def search(rep, m, pattern, what):
    """scopes that come before the member looked for are kept, up to the limit"""
    where = fn(m, r'^Srl::Node::read_source\(').where
    stack = []
    for n in (LIMIT + 40, LIMIT + 80):
        R, f = start(rep, m)
        s = script(pattern, n)
        items(R, lambda I, st: s[st.ghost['k']] if st.ghost['k'] < len(s) else 0)
        late = R.buf(4, 'object')
        st, t, p, b = begin(R, f, what)
        outs = R.I.call(st, f('find'), [t, late, p, b])
        rep.count('paths', len(outs))
        rep.check(bool(outs), 'depth-limit', where, '%s: does not end' % what)
        for o in outs:
            rep.check(srl(o), 'depth-limit', where, '%s: a missing member is not reported' % what)
        stack.append(max((o.st.ghost['stack'] for o in outs), default=()))
    rep.check(stack[0] == stack[1], 'stack-is-bounded', where, '%s: the stack grows with the nesting beyond the limit' % what)
