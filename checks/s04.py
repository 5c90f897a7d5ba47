"""MessagePack documents are those of the specification, in both directions."""
from wire import *

RNG = {'signed char': (-128, 127), 'unsigned char': (0, 255), 'short': (-2**15, 2**15 - 1), 'unsigned short': (0, 2**16 - 1),
       'int': (-2**31, 2**31 - 1), 'unsigned int': (0, 2**32 - 1), 'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1)}
P = 'PMsgPack'
U, S_, F = 'unsigned', 'signed', 'float'
FIXED = {0xCA: (F, 4), 0xCB: (F, 8), 0xCC: (U, 1), 0xCD: (U, 2), 0xCE: (U, 4), 0xCF: (U, 8), 0xD0: (S_, 1), 0xD1: (S_, 2), 0xD2: (S_, 4),
         0xD3: (S_, 8)}
SIZED = {0xC4: ('binary', 1), 0xC5: ('binary', 2), 0xC6: ('binary', 4), 0xD9: ('string', 1), 0xDA: ('string', 2), 0xDB: ('string', 4),
         0xDC: ('array', 2), 0xDD: ('array', 4), 0xDE: ('map', 2), 0xDF: ('map', 4)}
RANGES = [(0x00, 0x7F, 'int'), (0x80, 0x8F, 'map'), (0x90, 0x9F, 'array'), (0xA0, 0xBF, 'string'), (0xE0, 0xFF, 'int')]


class Bad(Exception):
    pass


def run(rep):
    do = Jobs(rep)
    m = harness()
    rep.level = 'other'
    rep.explanation = (
        'Abstract interpretation of the compiled writer and reader against the table of the MessagePack specification.  '
        'Writer: for every type of value with an abstract value of its whole range (text and binary data: an abstract '
        'length of 0 to 2^32-1), and for sequences of scopes, elements and names, the bytes that reach the stream on every '
        'path are decoded with the table and have to denote exactly what was written.  Reader: one document for every first '
        'byte, its further bytes and its length abstract; on every path the result has to be what the table says, the '
        'claimed length has to lie within the document, and an exception of the library has to be the result exactly for '
        'first bytes that are not supported and for documents that end too early.  Element counts are followed through '
        'sequences of reads with an abstract count.')
    L = layout(m)
    ends = scope_tags(m, L)
    for c in RNG:
        do('write ' + c, write_int, m, L, c)
    for c, n in (('float', 4), ('double', 8)):
        do('write ' + c, write_fp, m, L, c, n)
    do('write bool', write_bool, m, L)
    do('write null', write_seq, m, L, [('null',)], ['nil'])
    for kind in ('text', 'blob'):
        do('write ' + kind, write_data, m, L, kind)
    for name, ops, want in SEQS:
        do('write ' + name, write_seq, m, L, ops, want)
    do('write many elements', write_many, m, L)
    for parent in ('array', 'object'):
        for name, child in CHILDREN:
            do('count %s in %s' % (name, parent), write_counts, m, L, parent, child)
    for b in range(256):
        do('read %02x' % b, read_first, m, L, b, ends)
    do('read nothing', read_nothing, m, L)
    for kind, head in (('array', 0x90), ('array', 0xDC), ('array', 0xDD), ('map', 0x80), ('map', 0xDE), ('map', 0xDF)):
        do('read elements of %02x' % head, read_elements, m, L, kind, head, ends)
    for b in range(256):
        do('read key %02x' % b, read_key, m, L, b, ends)
    do('read nested', read_nested, m, L, ends)
    do.all()


# ------------------------------------------------------------------ writer
def payload(R, n, name):
    p = R.buf(n, name, 'bytes', ro=True)
    R.st.mem[p.obj].src = name
    return p


def start_writer(rep, m, objs):
    R = Run(rep, m, exact=True)
    R.I.unroll = 40
    S = Sink(R)
    S.init(R.st)
    os_ = R.obj(256, 'the stream')
    extra = objs(R)
    q = Seq(R)
    q.call(fn(m, r'^drv::out_to_stream\('), os_, to='out')
    q.call(fn(m, r'^drv::new_msgpack\('), to='p')
    return R, q, extra


def finish_writer(rep, m, q, what, check):
    q.call(fn(m, r'^drv::finish\('), 'out')
    w = where(m)
    for o, i in q.thrown:
        if impossible(o.st):
            continue
        rep.check(False, 'writer-does-not-refuse', w, '%s ends in an exception' % what)
    n = 0
    for st, _ in q.live:
        n += 1
        why = cases(st, lambda s: describe(q.R.I, s, check))
        rep.check(why is None, 'written-bytes-denote-the-value', w, '%s: %s' % (what, why))
    if not n:
        rep.undecided(what, 'no path ends')
    rep.count('paths', n)
    q.R.report()


def describe(I, st, check):
    if impossible(st):
        return None
    if st.ghost['torn']:
        return 'a part of what is in the stream is overwritten with something else'
    if not st.ghost['flushed']:
        return 'the stream is not flushed'
    try:
        return check(st, Doc(I, st))
    except Bad as e:
        return str(e)


def where(m):
    f = fn(m, r'^Srl::PMsgPack::write\(')
    return f.where


def rwhere(m):
    return fn(m, r'^Srl::PMsgPack::read\(').where


class Doc:
    """the written bytes, decoded by the table of the specification"""

    def __init__(self, I, st):
        self.I, self.st, self.p, self.i = I, st, st.ghost['sink'], 0

    def end(self):
        return self.i >= len(self.p)

    def byte(self):
        if self.end():
            raise Bad('the document ends too early')
        o, k, v, l = self.p[self.i]
        self.i += 1
        if k != 'b':
            raise Bad('data where a byte of the encoding should be')
        if v is None:
            raise Bad('byte %r of the document is not set' % (o,))
        return v

    def bytes(self, n):
        return [self.byte() for _ in range(n)]

    def head(self):
        """(class, first byte): splits where the first byte could be of several classes"""
        b = self.byte()
        if isinstance(b, tuple):
            raise Bad('a byte of a number where a first byte should be')
        x = bits_of(b, 8)
        if isinstance(b, Bits) and x:
            # the constant bits apart
            c = sum(1 << i for i, y in enumerate(x) if y == 1 and not isinstance(y, tuple))
            u = ladd(as_lin(from_bits(tuple(0 if not isinstance(y, tuple) and y == 1 else y for y in x))), c)
        else:
            u = as_lin(self.st.to_u(b, 8))
        u = self.st.const(u)
        if isinstance(u, int):
            for lo, hi, c in RANGES:
                if lo <= u <= hi:
                    return c, u
            if u in FIXED or u in SIZED or u in (0xC0, 0xC2, 0xC3):
                return {0xC0: 'nil', 0xC2: 'false', 0xC3: 'true'}.get(u, 'table'), u
            raise Bad('first byte %02x' % u)
        lo, hi = self.st.range(u)
        for x in (0x80, 0x90, 0xA0, 0xC0, 0xE0):
            if lo < x <= hi:
                d = self.st.decide(pge(ladd(u, -x)))
                if d is None:
                    raise Split([[pge(ladd(u, -x))], [pge(lsub(x - 1, u))]])
                lo, hi = (x, hi) if d else (lo, x - 1)
        for a, z, c in RANGES:
            if a <= lo and hi <= z:
                return c, u
        if lo < hi and hi - lo <= 32:
            raise Split([[peq(ladd(u, -x))] for x in range(lo, hi + 1)])
        raise Bad('first byte between %s and %s' % (lo, hi))

    def number(self, n, big=True):
        x = num(self.I, self.st, self.bytes(n))
        if x is None:
            raise Bad('bytes that are not those of a whole number')
        return x

    def size(self, c, b):
        """(kind, number) of a sized thing"""
        if c == 'string':
            return c, lsub(b, 0xA0)
        if c == 'map':
            return c, lsub(b, 0x80)
        if c == 'array':
            return c, lsub(b, 0x90)
        k, n = SIZED[b]
        return k, self.st.to_u(self.number(n), 8 * n)

    def run(self, n, src):
        """the payload has to be the n bytes of a source"""
        st = self.st
        n = st.const(n)
        if n == 0 or not isinstance(n, int) and st.is_zero(n) is True:
            return
        if self.end():
            raise Bad('the data is missing')
        o, k, v, l = self.p[self.i]
        if k == 'b' and not isinstance(n, int):
            z = st.is_zero(n)
            for x in range(2):
                if st.is_zero(ladd(n, -x)) is None:
                    raise Split([[peq(ladd(n, -x))], [pne(ladd(n, -x))]])
        if k == 'run':
            e = equal(st, l, n)
            if e is not True:
                raise Bad('%s bytes are announced, %s written' % (n, l)) if e is False else Bad('the announced length is not shown to be the written one')
            self.i += 1
            if v[0] != ('in', src) or st.is_zero(v[1]) is not True:
                raise Bad('other data is written')
            return
        if not isinstance(n, int):
            raise Bad('the data is not where it belongs')
        for i in range(n):
            if equal(st, self.byte(), byte_sym(('doc', src, i)).lin) is not True:
                raise Bad('other data is written')


def integer(st, D):
    c, b = D.head()
    if c == 'int':
        if isinstance(b, int):
            return b if b < 0x80 else b - 256
        return b if st.entails(lsub(0x7F, b)) else ladd(b, -256)
    if c == 'table' and b in FIXED and FIXED[b][0] != F:
        sgn, n = FIXED[b]
        x = D.number(n)
        return st.to_u(x, 8 * n) if sgn == U else st.to_s(x, 8 * n)
    raise Bad('an integer is written as ' + (c if c != 'table' else '%02x' % b))


def write_int(rep, m, L, c):
    lo, hi = RNG[c]
    v = sym(('value', c), lo, hi)

    def objs(R):
        return L.obj(R, 'the value', L.tag[c][0], v.lin)
    R, q, val = start_writer(rep, m, objs)
    q.call(of(m, 'put', P), 'p', val, NULL, 0, 'out')

    def check(st, D):
        x = integer(st, D)
        if not D.end():
            return 'more than one value is written'
        return None if equal(st, x, v.lin) is True else 'the written integer is not the value'
    finish_writer(rep, m, q, 'a value of ' + c, check)


def write_fp(rep, m, L, c, n):
    v = fsym(('value', c), 8 * n)

    def objs(R):
        return L.obj(R, 'the value', [t for t in L.tag[c] if c == 'float' or t not in L.tag['float']][0], v, n)
    R, q, val = start_writer(rep, m, objs)
    q.call(of(m, 'put', P), 'p', val, NULL, 0, 'out')

    def check(st, D):
        k, b = D.head()
        if k != 'table' or b not in FIXED or FIXED[b][0] != F or FIXED[b][1] != n:
            return 'written with first byte %s' % (b,)
        bs = D.bytes(n)
        if not D.end():
            return 'more than one value is written'
        x = spelled_float(st, bs, n)
        return None if x is not None and x == v else 'the bytes are not those of the value, the highest first'
    finish_writer(rep, m, q, 'a value of ' + c, check)


def spelled_float(st, bs, n):
    """the float whose bytes these are, the highest first"""
    src = None
    for i, b in enumerate(bs):
        if isinstance(b, (Lin, Bits)):
            x = bits_of(b, 8)
            if x and all(isinstance(y, tuple) and y[0] is x[0][0] and y[1] == x[0][1] + j for j, y in enumerate(x)):
                s, at = x[0]
                if at == 8 * (n - 1 - i) and (src is None or src is s):
                    src = s
                    continue
        return None
    return src.defn[1] if src.defn and src.defn[0] == 'fbits' else None


def write_bool(rep, m, L):
    v = sym(('value', 'bool'), 0, 1)

    def objs(R):
        return L.obj(R, 'the value', L.tag['bool'][0], v.lin)
    R, q, val = start_writer(rep, m, objs)
    q.call(of(m, 'put', P), 'p', val, NULL, 0, 'out')

    def check(st, D):
        k, b = D.head()
        if k not in ('true', 'false') or not D.end():
            return 'written as ' + k
        return None if st.entails(ladd(v.lin, -1) if k == 'true' else lscale(v.lin, -1)) else 'written as ' + k + ' whatever it is'
    finish_writer(rep, m, q, 'a truth value', check)


def write_data(rep, m, L, kind):
    PAYLOADS.update(('the data', 'a name'))
    n = sym(('length', kind), 0, 2**32 - 1)

    def objs(R):
        return payload(R, n.lin, 'the data')
    R, q, data = start_writer(rep, m, objs)
    q.call(of(m, 'put_' + kind, P), 'p', data, n.lin, NULL, 0, 'out')
    want = 'string' if kind == 'text' else 'binary'

    def check(st, D):
        c, b = D.head()
        if c not in ('string', 'table') or c == 'table' and b not in SIZED:
            return 'written as ' + c
        k, x = D.size(c, b)
        if k != want:
            return 'written as ' + k
        if equal(st, x, n.lin) is not True:
            return 'the length %s is written for %s bytes' % (x, n)
        D.run(n.lin, 'the data')
        return None if D.end() else 'something follows the data'
    finish_writer(rep, m, q, 'data of any length', check)


# what is written, what is expected: names of fields are texts of an abstract length below 32
SEQS = [
    ('an empty array', [('array',), ('end',)], [('array', [])]),
    ('an empty object', [('object',), ('end',)], [('map', [])]),
    ('an array of one', [('array',), ('null',), ('end',)], [('array', ['nil'])]),
    ('an object of one', [('object',), ('null', 'k0'), ('end',)], [('map', [('k0', 'nil')])]),
    ('an object of three', [('object',), ('null', 'k0'), ('text', 'k1'), ('null', 'k0'), ('end',)],
     [('map', [('k0', 'nil'), ('k1', 'text'), ('k0', 'nil')])]),
    ('an array in an object', [('object',), ('null', 'k0'), ('array', 'k1'), ('null',), ('null',), ('end',), ('null', 'k0'), ('end',)],
     [('map', [('k0', 'nil'), ('k1', ('array', ['nil', 'nil'])), ('k0', 'nil')])]),
    ('an object in an array', [('array',), ('object',), ('null', 'k0'), ('end',), ('null',), ('end',)],
     [('array', [('map', [('k0', 'nil')]), 'nil'])]),
    ('deep scopes', [('array',)] * 6 + [('object',), ('null', 'k0'), ('end',)] + [('end',), ('null',)] * 5 + [('end',)],
     [('array', [('array', [('array', [('array', [('array', [('array', [('map', [('k0', 'nil')])]), 'nil']), 'nil']), 'nil']), 'nil']), 'nil'])]),
    ('scopes among scopes', [('array',), ('array',), ('end',), ('object',), ('null', 'k1'), ('end',), ('array',), ('null',), ('end',), ('null',), ('array',),
                             ('end',), ('end',)],
     [('array', [('array', []), ('map', [('k1', 'nil')]), ('array', ['nil']), 'nil', ('array', [])])]),
    ('scopes among fields', [('object',), ('array', 'k0'), ('end',), ('object', 'k1'), ('null', 'k1'), ('end',), ('array', 'k1'), ('null',), ('end',),
                             ('null', 'k0'), ('array', 'k1'), ('end',), ('end',)],
     [('map', [('k0', ('array', [])), ('k1', ('map', [('k1', 'nil')])), ('k1', ('array', ['nil'])), ('k0', 'nil'), ('k1', ('array', []))])]),
    ('a scope around long data', [('array',), ('blob',), ('object',), ('blob', 'k0'), ('end',), ('null',), ('end',)],
     [('array', ['blob', ('map', [('k0', 'blob')]), 'nil'])]),
]


SRC = {'k0': 'text k0', 'k1': 'text k1', 'text': 'the text', 'blob': 'the blob'}


def write_seq(rep, m, L, ops, want):
    PAYLOADS.update(SRC.values())
    ns = {k: sym(('seq length', k), lo, hi) for k, lo, hi in (('k0', 1, 31), ('k1', 1, 31), ('text', 1, 31), ('blob', 65536, 1 << 31))}

    def objs(R):
        return {'k0': payload(R, ns['k0'].lin, 'text k0'), 'k1': payload(R, ns['k1'].lin, 'text k1'),
                'text': payload(R, ns['text'].lin, 'the text'), 'blob': payload(R, ns['blob'].lin, 'the blob')}
    R, q, bufs = start_writer(rep, m, objs)
    for op in ops:
        if op[0] == 'end':
            q.call(of(m, 'put_end', P), 'p', 'out')
            continue
        nm = (bufs[op[1]], ns[op[1]].lin) if len(op) > 1 else (NULL, 0)
        data = (bufs[op[0]], ns[op[0]].lin) if op[0] in ('text', 'blob') else ()
        q.call(of(m, 'put_' + op[0], P), 'p', *data, *nm, 'out')

    def expect(st, D, w):
        c, b = D.head()
        if w == 'nil':
            if c != 'nil':
                raise Bad('%s instead of nil' % (c if c != 'table' else '%02x' % b))
            return
        if c == 'table' and b in FIXED or c in ('int', 'true', 'false', 'nil'):
            raise Bad('%s instead of %s' % (c, w))
        k, x = D.size(c, b)
        if isinstance(w, str):
            if k not in ('string', 'binary') or (k == 'binary') != (w == 'blob'):
                raise Bad('%s instead of %s' % (k, w))
            if equal(st, x, ns[w].lin) is not True:
                raise Bad('another length than that of ' + w)
            D.run(ns[w].lin, SRC[w])
            return
        if k != w[0]:
            raise Bad('%s instead of %s' % (k, w[0]))
        if equal(st, x, len(w[1])) is not True:
            raise Bad('a scope of %d elements is announced with %s' % (len(w[1]), x))
        for e in w[1]:
            if w[0] == 'map':
                expect(st, D, e[0])
                expect(st, D, e[1])
            else:
                expect(st, D, e)

    def check(st, D):
        for w in want:
            expect(st, D, w)
        return None if D.end() else 'something follows the document'
    finish_writer(rep, m, q, 'a sequence of %d operations' % len(ops), check)


def write_many(rep, m, L):
    """more elements than one or two bytes count: the count after k elements is followed as a number"""
    R, q, _ = start_writer(rep, m, lambda R: None)
    q.call(of(m, 'put_array', P), 'p', NULL, 0, 'out')
    for i in range(300):
        q.call(of(m, 'put_null', P), 'p', NULL, 0, 'out')
    q.call(of(m, 'put_end', P), 'p', 'out')

    def check(st, D):
        c, b = D.head()
        if c not in ('array', 'table') or c == 'table' and b not in SIZED:
            return 'written as ' + c
        k, x = D.size(c, b)
        if k != 'array' or equal(st, x, 300) is not True:
            return '%s of %s announced for 300 elements' % (k, x)
        for i in range(300):
            if D.head()[0] != 'nil':
                return 'element %d is not nil' % i
        return None if D.end() else 'something follows the array'
    finish_writer(rep, m, q, 'an array of 300', check)

CHILDREN = [('a value', [('null',)]), ('text', [('text',)]), ('an array', [('array',), ('end',)]), ('an object', [('object',), ('null',), ('end',)])]


def write_counts(rep, m, L, parent, child):
    """any count: the cell that counts is found by what one more element changes, and holds an abstract number then"""
    PAYLOADS.add('the text')
    txt = sym(('count text',), 1, 31)
    R, q, buf = start_writer(rep, m, lambda R: payload(R, txt.lin, 'the text'))

    def do(q):
        for op in child:
            if op[0] == 'end':
                q.call(of(m, 'put_end', P), 'p', 'out')
            else:
                q.call(of(m, 'put_' + op[0], P), 'p', *((buf, txt.lin) if op[0] == 'text' else ()), NULL, 0, 'out')
    q.call(of(m, 'put_' + parent, P), 'p', NULL, 0, 'out')
    do(q)
    a = [st.fork().mem for st, n in q.live]
    do(q)
    if len(a) != len(q.live):
        raise Broken('%d ways to write elements, %d to write another' % (len(a), len(q.live)))
    for i, (st, names) in enumerate(q.live):
        count_from(rep, m, R, st, names, a[i], do, parent, child)
    R.report()


def count_from(rep, m, R, st, names, before, do, parent, child):
    hits = []
    for k, o in st.mem.items():
        p = before.get(k)
        if p is None or o is p:
            continue
        for off, (sz, v) in o.cells.items():
            if o.kind == 'heap' and v == 2 and p.cells.get(off) == (sz, 1):
                hits.append((k, off, sz))
    found = 0
    for k, off, sz in hits:
        c = sym(('count', off, sz), 2, min(1 << 8 * sz, 2**32) - 2)
        for more in (0, 1):
            s2 = st.fork()
            s2.wobj(k).cells[off] = (sz, c.lin)
            q2 = Seq(R)
            q2.live = [(s2, names)]
            if more:
                do(q2)
            q2.call(of(m, 'put_end', P), 'p', 'out')
            q2.call(fn(m, r'^drv::finish\('), 'out')
            mine = False
            for s3, _ in q2.live:
                def announced(s):
                    if impossible(s):
                        return None
                    D = Doc(R.I, s)
                    k0, x = D.size(*D.head())
                    if equal(s, x, ladd(c.lin, more)) is not True:
                        return '%s are announced, %d more than which were written' % (x, more)
                    return None
                if s3.ghost['torn']:
                    why = 'the stream is torn'
                else:
                    try:
                        D = Doc(R.I, s3)
                        x = D.size(*D.head())[1]
                        if isinstance(x, int):
                            continue         # not what the announced number comes from
                        why = cases(s3, announced)
                    except Split:
                        why = cases(s3, announced)
                    except Bad as e:
                        why = str(e)
                mine = True
                rep.check(why is None, 'written-bytes-denote-the-value', where(m), 'after any number of elements, %s last: %s' % (child[0][0], why))
            if not mine:
                break
            found += 1
            rep.check(sz >= 4, 'written-bytes-denote-the-value', where(m), 'elements are counted in %d bytes' % sz)
    if not found:
        rep.undecided('counts in ' + parent, 'no cell that counts')
    rep.count('counting cells', found)
    R.report()


# ------------------------------------------------------------------ reader
def scope_tags(m, L):
    """type numbers of scopes, their end, text, binary data and null, from the library's own tables"""
    out = {}
    for name, w in (('Object', 'put_object'), ('Array', 'put_array'), ('Scope_End', 'put_end'), ('Null', 'put_null'), ('String', 'put_text'),
                    ('Binary', 'put_blob')):
        seen = []
        R, q, _ = start_writer(None, m, lambda R: None)
        R.I.mute = 1

        def enter(I, st, g, a):
            if g.dem.startswith('Srl::PMsgPack::write('):
                c = st.mem[a[1].obj].cells.get(ladd(a[1].off, L.type))
                seen.append(st.const(c[1]) if c else None)
        if name == 'Scope_End':
            q.call(of(m, 'put_array', P), 'p', NULL, 0, 'out')
        R.I.hooks['enter'] = enter
        q.call(of(m, w, P), 'p', *[NULL if x['ty'] == 'ptr' else 0 for x in of(m, w, P).d['args'][1:-1]], 'out')
        if not seen or not isinstance(seen[0], int):
            raise Broken('type number of %s not found' % name)
        out[name] = seen[0]
    return out


def start_reader(rep, m, size, first=()):
    R = Run(rep, m, exact=True)
    R.I.unroll = 40
    k = ('in', 'doc')
    o = Obj('buf', size, 'bytes', 'the document', ro=True)
    o.src = 'doc'
    R.st.add(k, o)
    for i, b in enumerate(first):
        if b is not None:
            R.st.mask[byte_sym(('doc', 'doc', i))] = 1 << b if isinstance(b, int) else byte_mask(b)
    outp = R.obj(128, 'the result')
    q = Seq(R)
    q.call(fn(m, r'^drv::in_of_memory\('), Ptr(k, 0), size, to='in')
    q.call(fn(m, r'^drv::new_msgpack\('), to='p')
    return R, q, outp


def doc(i):
    return byte_sym(('doc', 'doc', i))


def be(i, n):
    return mk(0, {doc(ladd(i, j)): 256 ** (n - 1 - j) for j in range(n)})


def result(st, L, outp):
    o = st.mem[outp.obj]
    c = o.cells
    t, v = L.of(st, outp, MEM_MSG)
    name, ns = c.get(0), c.get(8)
    return t, v, (name[1] if name else None), (st.const(ns[1]) if ns else None)


def data_of(st, L, outp, m, R):
    """(pointer, size) of a Value with data, through its own accessors"""
    s2 = st.fork()
    out = []
    for pat in (r'^Srl::Value::data\(\) const$', r'^Srl::Value::size\(\) const$'):
        res = [o for o in R.I.call(s2.fork(), m.one(pat), [Ptr(outp.obj, MEM_MSG)]) if o.kind == 'ret']
        if len(res) != 1:
            return None, None
        out.append(res[0].val)
    return out[0], st.const(as_lin(st.to_u(out[1], 64)))


def whole(st, L, t, v):
    """integer a Value stands for; None if it is none"""
    for c, (lo, hi) in RNG.items():
        if L.tag[c][0] == t:
            w = CTYPES[c]
            if isinstance(v, (Fp, FSym, Unk)) or v is None:
                return None
            return st.to_s(v, 64) if lo < 0 else st.to_u(v, 64)
    return None


def wants(b, at=0):
    """(kind, header length, number, payload) the table gives for a first byte at a place; None: not supported"""
    for lo, hi, c in RANGES:
        if lo <= b <= hi:
            if c == 'int':
                return 'int', 1, b if b < 0x80 else b - 256
            return c, 1, b - lo
    if b == 0xC0:
        return 'nil', 1, None
    if b in (0xC2, 0xC3):
        return 'bool', 1, b - 0xC2
    if b in FIXED:
        k, n = FIXED[b]
        return {U: 'int', S_: 'sint', F: 'float'}[k], 1 + n, n
    if b in SIZED:
        k, n = SIZED[b]
        return k, 1 + n, be(ladd(at, 1), n)
    return None


def judge(rep, m, L, R, o, b, at, N, outp, tags, what):
    """why the outcome of reading what starts with byte b at a place is wrong; None if it is right"""
    w = wants(b, at)

    def fits(st):
        need = w[1]
        return ladd(at, need)

    def check(st):
        if impossible(st):
            return None
        if o.kind == 'throw':
            if not is_srl(o):
                return 'ends in another exception than Srl::Exception'
            if w is None:
                return None
            end = fits(st)
            if w[0] in ('string', 'binary') and st.decide(pge(lsub(N, end))) is True:
                end = ladd(end, w[2])
            d = st.decide(pge(lsub(N, end)))
            if d is None:
                raise Split([[pge(lsub(N, end))], [pge(ladd(lsub(end, N), -1))]])
            return 'a complete %s is refused' % w[0] if d else None
        if w is None:
            return 'a first byte %02x is accepted' % b
        end = fits(st)
        if not (lsub(N, end) >= 0 if isinstance(lsub(N, end), int) else st.entails(lsub(N, end))):
            return 'a %s is read that the document has not the bytes for' % w[0]
        t, v, name, ns = result(st, L, outp)
        if w[0] in ('int', 'sint') and b not in FIXED:
            x = whole(st, L, t, v)
            return None if equal(st, x, w[2]) is True else 'read as %s of type %s instead of %d' % (x, t, w[2])
        if w[0] in ('int', 'sint'):
            x = whole(st, L, t, v)
            u = be(ladd(at, 1), w[2])
            u = st.to_s(u, 8 * w[2]) if w[0] == 'sint' else u
            return None if x is not None and equal(st, x, u) is True else 'the bytes are read as another number (type %s)' % t
        if w[0] == 'nil':
            return None if t == tags['Null'] else 'nil is read as type %s' % t
        if w[0] == 'bool':
            if t != L.tag['bool'][0]:
                return 'a truth value is read as type %s' % t
            return None if equal(st, st.to_u(v, 64), w[2]) is True else 'the other truth value is read'
        if w[0] == 'float':
            if t not in (L.tag['float'] if w[2] == 4 else L.tag['double']):
                return 'a float of %d bytes is read as type %s' % (w[2], t)
            return None if (v.w if isinstance(v, FSym) else None) == (32 if t == L.tag['float'][0] else 64) and float_of(st, v, [doc(ladd(at, 1 + j)) for j in range(w[2])]) else 'the bytes are read as another number'
        if w[0] in ('map', 'array'):
            return None if t == tags['Object' if w[0] == 'map' else 'Array'] else '%s is read as type %s' % (w[0], t)
        if t != tags['String' if w[0] == 'string' else 'Binary']:
            return '%s is read as type %s' % (w[0], t)
        p, n = data_of(st, L, outp, m, R)
        if equal(st, n, w[2]) is not True:
            return 'a %s of %s bytes is read as %s' % (w[0], w[2], n)
        e = ladd(end, w[2])
        if not (lsub(N, e) >= 0 if isinstance(lsub(N, e), int) else st.entails(lsub(N, e))):
            return 'a %s is read that the document has not the bytes for' % w[0]
        if not isinstance(p, Ptr) or p.obj != ('in', 'doc') or equal(st, p.off, end) is not True:
            return 'the data is taken from elsewhere'
        return None
    why = cases(o.st, check)
    rep.check(why is None, 'read-value-is-the-documents', rwhere(m), '%s: %s' % (what, why))


def float_of(st, v, syms):
    """is v the float the bytes spell, the highest first"""
    if not isinstance(v, FSym) or not v.defn:
        return False
    if v.defn[0] == 'cast' and v.w == 32:
        # stored narrower where that is shown to be the same number
        d = v.defn[1]
        e = fsym(('fcast', v, 64), 64, ('cast', v))
        return float_of(st, d, syms) and any(st.srange(sym(('fcmp', 'oeq', x, y), 0, 1)) == (1, 1) for x, y in ((d, e), (e, d)))
    if v.defn[0] != 'ofbits' or v.w != 8 * len(syms):
        return False
    x = bits_of(v.defn[1], v.w)
    n = len(syms)
    return x is not None and all(x[8 * (n - 1 - j) + i] == (s, i) for j, s in enumerate(syms) for i in range(8))


def read_first(rep, m, L, b, tags):
    N = sym(('size', 'doc'), 1, 1 << 40).lin
    R, q, outp = start_reader(rep, m, N, [b])
    q.call(of(m, 'get', P), 'p', 'in', outp)
    n = 0
    for o in [Outcome('ret', st) for st, _ in q.live] + [o for o, _ in q.thrown]:
        n += 1
        judge(rep, m, L, R, o, b, 0, N, outp, tags, 'first byte %02x' % b)
    rep.count('paths', n)
    if not n:
        rep.undecided('read %02x' % b, 'no path ends')
    R.report()


def read_nothing(rep, m, L):
    R, q, outp = start_reader(rep, m, 0)
    q.call(of(m, 'get', P), 'p', 'in', outp)
    rep.check(not q.live and all(is_srl(o) for o, _ in q.thrown), 'read-value-is-the-documents', rwhere(m), 'an empty document is accepted')
    R.report()


def read_elements(rep, m, L, kind, head, tags):
    """an abstract number of elements: the end comes after exactly so many"""
    size = sym(('size', 'doc of elements'), 64, 1 << 40).lin
    hn = {0x90: 1, 0x80: 1, 0xDC: 3, 0xDD: 5, 0xDE: 3, 0xDF: 5}[head]
    first = [(lambda b: head <= b <= head + 15) if hn == 1 else head]
    step = ['nil'] if kind == 'array' else ['key', 'nil']
    first += [None] * (hn - 1)
    for i in range(5):
        first += [0xC0] if kind == 'array' else [0xA1, ord('k'), 0xC0]
    R, q, outp = start_reader(rep, m, size, first)
    cnt = lsub(doc(0).lin, head) if hn == 1 else be(1, hn - 1)
    q.call(of(m, 'get', P), 'p', 'in', outp)
    before = [(st.fork(), dict(n)) for st, n in q.live]
    for k in range(5):
        if not q.live:
            break
        q.call(of(m, 'get', P), 'p', 'in', outp)
        live = []
        for st, names in q.live:
            t, v, name, ns = result(st, L, outp)
            if t is None:
                raise Broken('type of what is read not known')
            want = peq(lsub(cnt, k)) if t == tags['Scope_End'] else pge(ladd(lsub(cnt, k), -1))
            why = cases(st, lambda s: None if impossible(s) or s.decide(want) is True else
                        'the end comes after %d of %s elements' % (k, cnt) if t == tags['Scope_End'] else 'more than %d elements are read of %s' % (k, cnt))
            rep.check(why is None, 'scope-ends-after-its-elements', rwhere(m), 'a scope with first byte %02x: %s' % (head, why))
            if t == tags['Scope_End']:
                continue
            rep.check(t == tags['Null'], 'read-value-is-the-documents', rwhere(m), 'an element nil is read as type %s' % t)
            if kind == 'map':
                at = hn + 3 * k
                rep.check(isinstance(name, Ptr) and name.obj == ('in', 'doc') and equal(st, name.off, at + 1) is True and ns == 1,
                          'names-are-the-keys', rwhere(m), 'the key of an element is not its name')
            live.append((st, names))
        q.live = live
        rep.count('paths', len(live))
    for o, i in q.thrown:
        why = cases(o.st, lambda s: None if impossible(s) else 'refused')
        rep.check(why is None, 'read-value-is-the-documents', rwhere(m), 'a complete scope is refused')
    for st, names in before:
        count_down(rep, m, R, st, names, outp, L, cnt, head, [doc(i) for i in range(hn)], tags)
    R.report()


def count_down(rep, m, R, st, names, outp, L, cnt, head, syms, tags):
    """any count: what is kept of it moves by the same step with every element and the end comes at one value of it"""
    if impossible(st):
        return
    found = 0
    for k, o in list(st.mem.items()):
        for off, (sz, v) in list(o.cells.items()):
            if o.kind != 'heap' or not isinstance(v, (Lin, Bits)) or not any(x in deps(v) for x in syms):
                continue
            c = sym(('left', sz), 0, (1 << 8 * sz) - 1)
            s2 = st.fork()
            s2.wobj(k).cells[off] = (sz, c.lin)
            q = Seq(R)
            q.live = [(s2, names)]
            q.call(of(m, 'get', P), 'p', 'in', outp)
            ends, steps = set(), set()
            for s3, _ in q.live:
                if impossible(s3):
                    continue
                if result(s3, L, outp)[0] == tags['Scope_End']:
                    ends.add(s3.const(c.lin))
                else:
                    w = s3.mem[k].cells.get(off) if k in s3.mem else None
                    steps.add(s3.const(lsub(as_lin(s3.to_u(w[1], 8 * sz)), c.lin)) if w else None)
            if not ends:
                continue
            found += 1
            if len(ends) != 1 or len(steps) != 1 or not all(isinstance(x, int) for x in ends | steps):
                raise Broken('how elements are counted down is not known: %s %s' % (ends, steps))
            e, d = ends.pop(), steps.pop()
            v0 = as_lin(st.to_u(v, 8 * sz))
            rep.check(equal(st, ladd(v0, lscale(cnt, d)), e) is True, 'scope-ends-after-its-elements', rwhere(m),
                      'a scope with first byte %02x: %s is counted from for %s elements' % (head, v0, cnt))
    if not found:
        rep.undecided('counts of %02x' % head, 'nothing counts down')
    rep.count('counting cells', found)


def read_key(rep, m, L, b, tags):
    """the key of a field: text is its name, other plain values are skipped, scopes are refused"""
    N = sym(('size', 'doc of a key'), 2, 1 << 40).lin
    R, q, outp = start_reader(rep, m, N, [0x81, b])
    q.call(of(m, 'get', P), 'p', 'in', outp)
    q.call(of(m, 'get', P), 'p', 'in', outp)
    w = wants(b, 1)
    plain = w is not None and w[0] not in ('map', 'array')
    n = 0
    for st, names in q.live:
        n += 1

        def check(s):
            if impossible(s):
                return None
            if not plain:
                return 'a key with first byte %02x is accepted' % b
            end = ladd(1, w[1])
            if w[0] in ('string', 'binary'):
                end = ladd(end, w[2])
            need = lsub(N, ladd(end, 1))
            if not (need >= 0 if isinstance(need, int) else s.entails(need)):
                return 'a field is read that the document has not the bytes for'
            t, v, name, ns = result(s, L, outp)
            if w[0] != 'string':
                return None if ns == 0 else 'a key that is no text gives a name'
            if equal(s, ns, w[2]) is not True:
                return 'the name of a field is not its key'
            if s.is_zero(ns if not isinstance(ns, int) else ns) is True:
                return None
            if not isinstance(name, Ptr) or name.obj != ('in', 'doc') or equal(s, name.off, ladd(1, w[1])) is not True:
                if s.is_zero(ns) is None:
                    raise Split([[peq(ns)], [pne(ns)]])
                return 'the name of a field is not its key'
            return None
        why = cases(st, check)
        rep.check(why is None, 'names-are-the-keys', rwhere(m), 'key %02x: %s' % (b, why))
    for o, i in q.thrown:
        n += 1

        def refused(s):
            if impossible(s):
                return None
            if not is_srl(o):
                return 'ends in another exception than Srl::Exception'
            if not plain or i < 3:
                return None
            # the field has to be incomplete, or its value refused
            end = ladd(1, w[1])
            d = s.decide(pge(lsub(N, end)))
            if d is None:
                raise Split([[pge(lsub(N, end))], [pge(ladd(lsub(end, N), -1))]])
            if not d:
                return None
            if w[0] in ('string', 'binary'):
                end = ladd(end, w[2])
            # a value nil that is all there has to be accepted
            d = s.decide(pge(lsub(N, ladd(end, 1))))
            if d is None:
                raise Split([[pge(lsub(N, ladd(end, 1)))], [pge(lsub(end, N))]])
            if not d:
                return None
            if isinstance(end, int):
                mask = s.mask.get(doc(end), ALL)
                return 'a complete field is refused' if mask >> 0xC0 & 1 else None
            return None
        why = cases(o.st, refused)
        rep.check(why is None, 'names-are-the-keys', rwhere(m), 'key %02x: %s' % (b, why))
    rep.count('paths', n)
    R.report()


def read_nested(rep, m, L, tags):
    """scopes within scopes, as bytes and as what is to be read"""
    T = dict(tags, I='int')
    docs = [
        ([0x92, 0x91, 0xC0, 0xC0], ['Array', 'Array', 'Null', 'Scope_End', 'Null', 'Scope_End']),
        ([0x92, 0x90, 0x80], ['Array', 'Array', 'Scope_End', 'Object', 'Scope_End', 'Scope_End']),
        ([0x82, 0xA0, 0x91, 0xC0, 0xA0, 0xC0], ['Object', 'Array', 'Null', 'Scope_End', 'Null', 'Scope_End']),
        ([0x91, 0x81, 0xA0, 0x92, 0xC0, 0xC0], ['Array', 'Object', 'Array', 'Null', 'Null', 'Scope_End', 'Scope_End', 'Scope_End']),
        ([0x91] * 6 + [0xC0], ['Array'] * 6 + ['Null'] + ['Scope_End'] * 6),
        ([0x81, 0xA0] * 4 + [0xC0], ['Object'] * 4 + ['Null'] + ['Scope_End'] * 4),
    ]
    for bs, want in docs:
        R, q, outp = start_reader(rep, m, len(bs), bs)
        for w in want:
            q.call(of(m, 'get', P), 'p', 'in', outp)
            for st, _ in q.live:
                t = result(st, L, outp)[0]
                rep.check(t == tags[w], 'scope-ends-after-its-elements', rwhere(m), 'of %s type %s is read instead of %s' % (bytes(bs).hex(), t, w))
        rep.check(not q.thrown and q.live, 'scope-ends-after-its-elements', rwhere(m), 'the document %s is refused' % bytes(bs).hex())
        # and then it is over
        q.thrown = []
        q.call(of(m, 'get', P), 'p', 'in', outp)
        rep.check(not q.live and all(is_srl(o) for o, _ in q.thrown), 'scope-ends-after-its-elements', rwhere(m),
                  'something is read after the end of ' + bytes(bs).hex())
        R.report()
