"""Strings and names in JSON documents: what the writer emits is a string of the grammar for the same bytes; escapes are read as the grammar says."""
import itertools
from wire import *
from s04 import impossible, result, data_of, scope_tags
from iconvm import Iconv

P = 'PJson'
SHORT = {ord('"'): '"', ord('\\'): '\\', ord('/'): '/', ord('b'): '\b', ord('f'): '\f', ord('n'): '\n', ord('r'): '\r', ord('t'): '\t'}
HEX = {ord(c): int(c, 16) for c in '0123456789abcdefABCDEF'}


def run(rep):
    do = Jobs(rep)
    m = harness()
    rep.level = 'other'
    rep.explanation = (
        'Writer: texts of unknown bytes are written as values and as names; on every path the bytes the stream has received have to be, '
        'for every value of every byte, a quoted string by the JSON grammar (no raw quote, backslash or control character inside) that '
        'denotes the bytes of the text, and nothing else. Reader: documents with every sequence of up to three units (a plain byte, a short '
        'escape, \\uXXXX, a surrogate pair), all bytes and digits unknown, as value and as name; the bytes read have to be '
        'those the grammar and UTF-8 assign.')
    full = rep.tier == 'thorough'
    L = layout(m)
    tags = scope_tags(m, L)
    for place in PLACES:
        for n in range(0, 5 if full else 4 if place == 'value' else 3):
            do('write %d bytes as %s' % (n, place), write, m, L, place, [None] * n)
    for pre in (b'x', b'\x01', b'"', b'\\', b'/', b'\n', b'\xc3'):
        for ops in ([pre, None, pre], [None, pre, None]):
            do('write around %r' % pre, write, m, L, 'value', ops)
    for n in (500, 1100) if full else (500,):
        for ops in ([b'x'] * n + [None], [None] + [b'x'] * n, [b'x'] * n + [None] + [b'y'] * 30):
            do('write long text', write, m, L, 'value', ops)
    for place in PLACES:
        for n in range(0, 4 if full else 3):
            for us in itertools.product(UNITS if n < 3 else FEWER, repeat=n):
                w = 'read %s as %s' % (' '.join(u[0] for u in us) or 'nothing', place)
                if n < 2 or place == 'value' or full:
                    do(w, read, m, L, tags, w, place, us, n < 2 and len(us[0:1]) and us[0][0] != 'pair')
    for wide in range(8):
        w = 'read a pair with digit %d unknown' % wide
        do(w, read, m, L, tags, w, 'value', UNITS[-1:], {wide})
    do.all()


PLACES = ['value', 'member', 'name']


def write(rep, m, L, place, ops):
    R = Run(rep, m, exact=True)
    R.I.unroll = 2000
    R.I.max_cfgs = 6000
    R.I.decided_cap, R.I.max_work = 3000, 6000
    S = Sink(R)
    S.init(R.st)
    os_ = R.obj(256, 'the stream')
    n = len(ops)
    src = R.buf(n, 'the text', 'undef', ro=True)
    one = R.buf(1, 'a name', 'undef', ro=True)
    R.st.mem[one.obj].cells[0] = (1, ord('k'))
    syms = []
    for i, b in enumerate(ops):
        s = byte_sym(('text', i))
        if b is not None:
            R.st.mask[s] = 1 << b[0]
            R.st.mem[src.obj].cells[i] = (1, b[0])
        else:
            R.st.mem[src.obj].cells[i] = (1, s.lin)
        syms.append(s)
    q = Seq(R)
    q.call(fn(m, r'^drv::out_to_stream\('), os_, to='out')
    q.call(fn(m, r'^drv::new_json\('), 1, to='p')
    if place == 'value':
        q.call(of(m, 'put_array', P), 'p', NULL, 0, 'out')
        q.call(of(m, 'put_text', P), 'p', src, n, NULL, 0, 'out')
        before, after = '[', ']'
    elif place == 'member':
        q.call(of(m, 'put_object', P), 'p', NULL, 0, 'out')
        q.call(of(m, 'put_text', P), 'p', src, n, one, 1, 'out')
        before, after = '{"k":', '}'
    else:
        q.call(of(m, 'put_object', P), 'p', NULL, 0, 'out')
        q.call(of(m, 'put_literal', P), 'p', one, 1, src, n, 'out')
        before, after = '{', ':k}'
    q.call(of(m, 'put_end', P), 'p', 'out')
    q.call(fn(m, r'^drv::finish\('), 'out')
    w = fn(m, r'^Srl::PJson::write\(').where
    for o, i in q.thrown:
        rep.check(impossible(o.st), 'writer-does-not-refuse', w, 'writing ends in an exception')
    k = 0
    for st, names in q.live:
        if impossible(st):
            continue
        k += 1
        bs = [v if kind == 'b' else None for off, kind, v, l in st.ghost['sink']]
        why = 'the document is not complete' if st.ghost['torn'] or not st.ghost['flushed'] or any(x is None or isinstance(x, tuple) for x in bs) else \
            cases(st, lambda s: None if impossible(s) else spelled(s, bs, before, after, ops, syms))
        rep.check(why is None, 'text-is-spelled-by-the-grammar', w, 'a text of %d bytes as %s: %s' % (n, place, why))
    if not k:
        rep.undecided('write', 'nothing is written')
    rep.count('paths', k)
    R.report()


def spelled(st, bs, before, after, ops, syms):

    """why the bytes are not the quoted text"""
    def lit(i, t):
        return [st.const(as_lin(b)) for b in bs[i:i + len(t)]] == list(t.encode())
    if not lit(0, before + '"'):
        return 'the quotes do not open: %s' % bs[:8]
    i = len(before) + 1
    for j, s in enumerate(syms):
        used = set()
        for v in vals(st, s):
            u = unit(bs, i, s, v)
            if isinstance(u, str):
                return 'byte %02x %s' % (v, u)
            got, ln = u
            if got != bytes([v]):
                return 'byte %02x is written as text for %r' % (v, got)
            used.add(ln)
        if len(used) != 1:
            raise Broken('texts of different form on one path')
        i += used.pop()
    if not lit(i, '"' + after) or i + 1 + len(after) != len(bs):
        return 'something else follows: %s' % bs[i:i + 8]
    return None


def unit(bs, i, s, v):
    """(bytes denoted, length) of the unit of a JSON string at i where byte s is v; or why there is none"""
    def at(j):
        if j >= len(bs):
            return None
        b = bs[j]
        if isinstance(b, int):
            return b
        f = compilev(b, [s])
        if f is None:
            raise Broken('a character that depends on other bytes: %r %s %s' % (b, s, [(x.key, x.defn) for x in deps(b)]))
        return f(v) & 255
    c = at(i)
    if c is None or c == ord('"'):
        return 'ends the string'
    if c < 0x20:
        return 'stands as a raw control character'
    if c != ord('\\'):
        return bytes([c]), 1
    c = at(i + 1)
    if c in SHORT:
        return SHORT[c].encode(), 2
    if c == ord('u'):
        h = [HEX.get(at(i + 2 + k)) for k in range(4)]
        if None in h:
            return 'is written with a wrong \\u escape'
        u = h[0] << 12 | h[1] << 8 | h[2] << 4 | h[3]
        if 0xd800 <= u < 0xe000:
            return 'is written as a surrogate'
        return chr(u).encode(), 6
    return 'is written with an unknown escape'


PLAIN = sum(1 << c for c in range(0x20, 256) if c not in (ord('"'), ord('\\')))
R16 = range(16)


def hexmask(nibbles):
    return sum(1 << c for c, v in HEX.items() if v in nibbles)


# \uXXXX by the length of the UTF-8 form: the nibbles, and per byte which of them it depends on and how
UNITS = [('plain',), ('short',),
         ('code below 80', ([0], [0], range(8), R16), [((2, 3), lambda c, d: c << 4 | d)]),
         ('code below 100', ([0], [0], range(8, 16), R16), [((2,), lambda c: 0xc0 | c >> 2), ((2, 3), lambda c, d: 0x80 | (c & 3) << 4 | d)]),
         ('code below 800', ([0], range(1, 8), R16, R16), [((1, 2), lambda b, c: 0xc0 | b << 2 | c >> 2), ((2, 3), lambda c, d: 0x80 | (c & 3) << 4 | d)])]
E3 = [((0,), lambda a: 0xe0 | a), ((1, 2), lambda b, c: 0x80 | b << 2 | c >> 2), ((2, 3), lambda c, d: 0x80 | (c & 3) << 4 | d)]
UNITS += [('code below 1000', ([0], range(8, 16), R16, R16), E3), ('code above', ([*range(1, 13), 14, 15], R16, R16, R16), E3),
          ('code below d800', ([13], range(8), R16, R16), E3),
          ('pair', ([13], range(8, 12), R16, R16, [13], range(12, 16), R16, R16),
           [((1, 2), lambda b, c: 0xf0 | (((b & 3) << 4 | c) + 4) >> 4),
            ((1, 2, 3), lambda b, c, d: 0x80 | ((b & 3) << 8 | c << 4 | d) + 0x40 >> 2 & 63),
            ((3, 5, 6), lambda d, f, g: 0x80 | (d & 3) << 4 | (f & 3) << 2 | g >> 2),
            ((6, 7), lambda g, h: 0x80 | (g & 3) << 4 | h)])]


FEWER = [u for u in UNITS if u[0] in ('plain', 'short', 'code below 100', 'pair')]


class Text:
    """bytes of a document, some unknown, and the bytes the grammar makes of them"""

    def __init__(self):
        self.bytes, self.masks, self.want, self.n = [], {}, [], 0

    def unknown(self, mask):
        s = byte_sym(('doc byte', self.n, mask))
        self.n += 1
        self.masks[s] = mask
        self.bytes.append(s)
        return s

    def const(self, t):
        self.bytes += list(t.encode())

    def add(self, u, wide):
        """wide: the digits written in every way, the others with decimal digits or else capital letters"""
        if u[0] == 'plain':
            self.want.append(((self.unknown(PLAIN),), lambda v: v))
        elif u[0] == 'short':
            self.const('\\')
            self.want.append(((self.unknown(sum(1 << c for c in SHORT)),), lambda v: ord(SHORT[v])))
        else:
            ds = []
            for i, ns in enumerate(u[1]):
                if i % 4 == 0:
                    self.const('\\u')
                mk = hexmask(ns)
                if wide is not True and i not in (wide or ()):
                    for some in (range(0x30, 0x3a), range(0x41, 0x47)):
                        if mk & sum(1 << c for c in some):
                            mk &= sum(1 << c for c in some)
                            break
                ds.append(self.unknown(mk))
            for on, f in u[2]:
                self.want.append((tuple(ds[j] for j in on), lambda *v, f=f: f(*[HEX[x] for x in v])))


def read(rep, m, L, tags, what, place, us, wide):
    t = Text()
    t.const({'value': '["', 'member': '{"k":"', 'name': '{"'}[place])
    for u in us:
        t.add(u, wide)
    t.const({'value': '"]', 'member': '"}', 'name': '":1}'}[place])
    R = Run(rep, m, exact=True)
    R.I.unroll, R.I.max_cfgs, R.I.decided_cap = 200, 6000, 3000
    Iconv(R)
    doc = R.buf(len(t.bytes), 'the document', 'undef', ro=True)
    outp = R.obj(128, 'the result')
    for i, b in enumerate(t.bytes):
        R.st.mem[doc.obj].cells[i] = (1, b if isinstance(b, int) else b.lin)
    for s, mk in t.masks.items():
        R.st.mask[s] = mk
    q = Seq(R)
    q.call(fn(m, r'^drv::in_of_memory\('), doc, len(t.bytes), to='in')
    q.call(fn(m, r'^drv::new_json\('), 1, to='r')
    w = fn(m, r'^Srl::PJson::read\(').where

    def get(check):
        q.call(of(m, 'get', P), 'r', 'in', outp)
        for o, i in q.thrown:
            rep.check(impossible(o.st), 'string-is-read-by-the-grammar', w, '%s: the document is refused' % what)
        q.thrown = []
        for st, names in q.live:
            why = cases(st, lambda s: None if impossible(s) else check(s))
            rep.check(why is None, 'string-is-read-by-the-grammar', w, '%s: %s' % (what, why))
        rep.count('paths', len(q.live))
    get(lambda st: None)

    def check(st):
        ty, x, name, ns = result(st, L, outp)
        p, n = (name, ns)
        if place != 'name':
            if ty != tags['String']:
                return 'read as type %s' % ty
            p, n = data_of(st, L, outp, m, R)
        if n != len(t.want):
            return '%s bytes are read instead of %d' % (n, len(t.want))
        for j, (order, f) in enumerate(t.want):
            b = byte_at(st, p.obj, ladd(p.off, j))
            why = 'undefined' if b is None or isinstance(b, tuple) else differs(st, b, order, f)
            if why:
                return 'byte %d is %s' % (j, why)
    get(check)

    def end(st):
        ty, x, name, ns = result(st, L, outp)
        if ty != tags['Scope_End']:
            return 'the end is read as type %s' % ty
    get(end)
    if not q.live:
        rep.undecided(what, 'nothing is read')
    R.report()


def differs(st, b, order, f):
    """why the byte is not the function of the document"""
    if isinstance(b, int):
        b = as_lin(b)
    ds = deps(b)
    if None in ds:
        raise Broken('a byte of which not all bits are known')
    more = sorted(ds - set(order), key=lambda s: s.uid)
    if not all(s in st.mask for s in more):
        return 'a function of something else'
    al = list(order) + more
    sets = [vals(st, s) for s in al]
    n = 1
    for x in sets:
        n *= len(x)
    if n > 600000:
        raise Broken('too many cases')
    g = compilev(b, al)
    if g is None:
        raise Broken('a byte that is not followed')
    k = len(order)
    for v in itertools.product(*sets):
        if g(*v) & 255 != f(*v[:k]):
            return '%02x instead of %02x for the characters %s' % (g(*v) & 255, f(*v[:k]), ' '.join(chr(c) for c in v))
    return None
