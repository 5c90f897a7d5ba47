"""JSON documents: every order of operations gives a document of the grammar that says what was written."""
import json
from wire import *
from s04 import impossible

P = 'PJson'
OPS = ['literal', 'text', 'object', 'array', 'end']


def run(rep):
    do = Jobs(rep)
    m = harness()
    rep.level = 'other'
    rep.explanation = (
        'All orders of up to %d operations of the writer inside a root scope, with and without spacing, are followed through the code in '
        'one abstract run that shares common beginnings; open scopes are then ended. The bytes the abstract stream has received are read '
        'as strict JSON and compared with the operations: members, names and values, order and nesting.')
    depth = 5 if rep.tier == 'thorough' else 4
    rep.explanation %= depth
    for space in (1, 0):
        do('orders of operations, %s' % ('compact' if space else 'spaced'), orders, m, space, depth)
        do('shapes, %s' % ('compact' if space else 'spaced'), shapes, m, space)
    do.all()


def where(m):
    return fn(m, r'^Srl::PJson::write\(').where


class Doc:
    def __init__(self, rep, m, space):
        self.rep, self.m, self.space = rep, m, space
        self.R = R = Run(rep, m, exact=True)
        R.I.unroll = 200
        self.S = Sink(R)
        self.S.init(R.st)
        os_ = R.obj(256, 'the stream')
        self.bufs = {}
        for s in ['12', 'txt', 'a', 'bc', 'd']:
            p = R.buf(len(s), 'text ' + s, 'undef', ro=True)
            for i, ch in enumerate(s.encode()):
                R.st.mem[p.obj].cells[i] = (1, ch)
            self.bufs[s] = p
        q = Seq(R)
        q.call(fn(m, r'^drv::out_to_stream\('), os_, to='out')
        q.call(fn(m, r'^drv::new_json\('), space, to='p')
        self.start = q.live

    def put(self, live, op, name):
        q = Seq(self.R)
        q.live = [(st.fork(), names) for st, names in live]
        nm = (self.bufs[name], len(name)) if name else (NULL, 0)
        data = {'literal': (self.bufs['12'], 2), 'text': (self.bufs['txt'], 3)}.get(op, ())
        q.call(of(self.m, 'put_' + op, P), 'p', *data, *(() if op == 'end' else nm), 'out')
        self.threw(q, op)
        return q.live

    def threw(self, q, op):
        for o, i in q.thrown:
            self.rep.check(impossible(o.st), 'writer-does-not-refuse', where(self.m), 'writing ends in an exception (%s)' % op)

    def over(self, live, ops, want):
        q = Seq(self.R)
        q.live = [(st.fork(), names) for st, names in live]
        q.call(fn(self.m, r'^drv::finish\('), 'out')
        self.threw(q, 'finish')
        n = 0
        for st, names in q.live:
            if impossible(st):
                continue
            n += 1
            bs = [st.const(v) if k == 'b' and isinstance(v, (int, Lin, Bits)) else None for off, k, v, l in st.ghost['sink']]
            what = ' '.join(o if not nm else '%s %s' % (o, nm) for o, nm in ops)
            if st.ghost['torn'] or not st.ghost['flushed'] or not all(isinstance(b, int) for b in bs):
                self.rep.check(False, 'document-is-json', where(self.m), 'the document is not complete or depends on something else: ' + what)
                continue
            text = bytes(bs).decode('latin1')
            why = None
            try:
                got = json.loads(text, object_pairs_hook=lambda ps: ('object', ps), parse_constant=lambda c: 1 / 0)
            except (ValueError, ZeroDivisionError) as e:
                why = 'not JSON: %r' % text
            else:
                if got != want:
                    why = '%r does not say what was written' % text
            self.rep.check(why is None, 'document-is-json', where(self.m), '%s (%s)' % (why, what))
        if not n:
            self.rep.undecided('documents', 'nothing is written')
        self.rep.count('documents', n)


def meaning(ops):
    """nested lists of what a sequence of operations writes"""
    stack = []
    for op, name in ops:
        if op == 'end':
            kind, nm, items = stack.pop()
            v = ('object', items) if kind == 'object' else items
            if not stack:
                return v
            name = nm
        elif op in ('object', 'array'):
            stack.append((op, name, []))
            continue
        else:
            v = 12 if op == 'literal' else 'txt'
        items = stack[-1][2]
        items.append((name or '', v) if stack[-1][0] == 'object' else v)
    raise Broken('scopes are not closed')


NAMES = ['a', 'bc', '', 'd']


def orders(rep, m, space, depth):
    d = Doc(rep, m, space)

    def go(live, ops, scopes, left):
        end = list(ops)
        cur = live
        for _ in range(scopes):
            cur = d.put(cur, 'end', None)
            end.append(('end', None))
        d.over(cur, end, meaning(end))
        if not left:
            return
        for op in OPS:
            if op == 'end' and scopes < 2:
                continue
            name = None if op == 'end' else NAMES[len(ops) % len(NAMES)]
            go(d.put(live, op, name), ops + [(op, name)], scopes + (op in ('object', 'array')) - (op == 'end'), left - 1)
    for root in ('object', 'array'):
        go(d.put(d.start, root, None), [(root, None)], 1, depth)
    d.R.report()


SHAPES = [
    [('array', 'a')] * 40 + [('literal', 'd')] + [('end', None)] * 40,
    [('object', 'a')] * 40 + [('literal', 'd')] + [('end', None)] * 40,
    [('object', 'a'), ('array', 'bc')] * 20 + [('end', None), ('literal', 'a')] * 39 + [('end', None)],
    [('array', None)] + [('literal', None)] * 40 + [('end', None)],
    [('object', None)] + [('text', 'a')] * 40 + [('end', None)],
]


def shapes(rep, m, space):
    d = Doc(rep, m, space)
    for ops in SHAPES:
        live = d.start
        for op, name in ops:
            live = d.put(live, op, name)
        d.over(live, ops, meaning(ops))
    d.R.report()
