"""Base64 and hex text is coded exactly and malformed text rejected."""
from ai import *
from build import Broken

ALPHA = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
DEC = {ord(c): i for i, c in enumerate(ALPHA)}
MA = byte_mask(lambda v: v in DEC)
EQ = 1 << 61
HEXV = {ord(c): i for i, c in enumerate('0123456789ABCDEF')}
HEXV.update({ord(c): i + 10 for i, c in enumerate('abcdef')})
MH = byte_mask(lambda v: v in HEXV)


def b64_char(r, get):
    """character r of a group; get(j) is byte j of it (None behind the end)"""
    x = [get(j) for j in range(3)]
    y = [0 if v is None else v for v in x]
    if r >= 2 and x[r - 1] is None:
        return 61
    return ord(ALPHA[(y[0] >> 2, (y[0] << 4 | y[1] >> 4) & 63, (y[1] << 2 | y[2] >> 6) & 63, y[2] & 63)[r]])


def b64_byte(r, c):
    c = [DEC.get(v, 0) for v in c]
    return (c[0] << 2 | c[1] >> 4, c[1] << 4 | c[2] >> 2, c[2] << 6 | c[3])[r] & 255


def hex_char(r, b, lower=False):
    return ord('0123456789ABCDEF'[b >> 4 if r == 0 else b & 15])


def find(m, pat, nargs, sret=False):
    out = [f for f in m.repo_funcs() if re.search(pat, f.dem) and len(f.d['args']) == nargs and not f.decl]
    if not out:
        raise Broken('no function %s with %d arguments' % (pat, nargs))
    return out


def run(rep):
    do = Jobs(rep)
    m = api()
    rep.level = 'other'
    rep.explanation = (
        'Abstract interpretation of the coders.  For inputs of any length: loops are generalised with inductive linear '
        'facts about their counters, every access has to stay inside its buffer, every byte stored has to be the function '
        'of the input bytes at the corresponding positions the standard assigns (all byte values, bit by bit), and the '
        'size returned has to be the exact one.  The finitely many shapes of the last groups are partitioned by length '
        '(0 to 9) with every byte value abstract, where also the acceptance of texts is decided: the texts reaching a '
        'normal return are exactly the well-formed ones.')

    enc = find(m, r'Tools::bytes_to_base64\(.*vector', 3)
    enc2 = [f for f in find(m, r'Tools::bytes_to_base64\(', 3) if f not in enc]
    dec = find(m, r'Tools::base64_to_bytes\(', 4)
    dec2 = find(m, r'Tools::base64_to_bytes\(', 3)
    size = find(m, r'Tools::get_base64_decoded_size\(', 2)
    hx = find(m, r'Tools::bytes_to_hex\(', 3)
    unhx = find(m, r'Tools::hex_to_bytes\(.*\)$', 4)
    unhx2 = find(m, r'Tools::hex_to_bytes\(.*\)$', 3)
    rep.count('functions', len(enc + enc2 + dec + dec2 + size + hx + unhx + unhx2))

    do('texts of any length', any_len, m, enc[0], 'base64 coder')
    do('texts of any length', any_len, m, enc2[0], 'base64 coder (new vector)') if enc2 else None
    do('texts of any length', any_len_dec, m, dec[0])
    do('texts of any length', any_len_hex, m, hx[0], unhx[0], unhx2[0])
    for n in range(0, 7):
        do('base64 of %d bytes' % n, enc_exact, m, enc[0], n, True)
        if enc2:
            do('base64 of %d bytes' % n, enc_exact, m, enc2[0], n, False)
        do('hex of %d bytes' % n, hex_exact, m, hx[0], n)
    for n in range(0, 10):
        do('size of %d characters' % n, size_exact, m, size[0], n)
        do('base64 text of %d characters' % n, dec_exact, m, dec2[0], n)
        do('hex text of %d characters' % n, unhex_exact, m, unhx2[0], n)
        if n <= 4:
            for ds in range(0, n + 1):
                do('hex text of %d characters to %d bytes' % (n, ds), unhex_dest, m, unhx[0], n, ds)
    for n in (4, 8):
        for ds in range(0, 8):
            do('base64 text of %d characters to %d bytes' % (n, ds), dec_dest, m, dec[0], n, ds)
    do.all()


def where(f):
    return f.where if isinstance(f.where, str) else str(f.where)


# ------------------------------------------------------------------ any length
def N(tag, hi=1 << 48):
    return sym((tag,), 0, hi).lin


def stored(I, on_store):
    """calls back for every store of a byte to a watched object"""
    def h(I_, st, k, o, off, size, v):
        if o.extra == 'watched' and size == 1 and not I_.mute:
            on_store(st, k, off, v)
        return False
    I.hooks['store'] = h


def pos(s):
    """(object, offset) of an input byte symbol"""
    k = s.key
    return (k[1], k[3]) if isinstance(k, tuple) and k[0] == 'm' else None


def group_rule(st, off, v, num, den, spec, width):
    """is v, stored at position off, the output the standard assigns?  Output position den*q + r belongs to the input
    positions num*q + j."""
    ds = deps(v)
    if None in ds or any(not isinstance(s, Sym) or s.byte is None for s in ds):
        return None
    places = {}
    for s in ds:
        p = pos(s)
        if p is None:
            return None
        places[s] = p[1]
    for r in range(den):
        js = {}
        ok = True
        base = lscale(lsub(off, r), num)
        for s, x in places.items():
            for j in range(width):
                # den * x == num * (off - r) + den * j
                d = lsub(lscale(ladd(x, -j), den), base)
                if st.is_zero(d) is True:
                    js[s] = j
                    break
            else:
                ok = False
                break
        if not ok or len(set(js.values())) != len(js):
            continue
        order = sorted(js, key=lambda s: js[s])
        good = True
        fn, ids = compilev(v, order), [js[s] for s in order]
        if fn is None:
            return None
        for combo in product_small([vals(st, s) for s in order]):
            got = fn(*combo)
            exp = spec(r, dict(zip(ids, combo)))
            if exp is None or got & 255 != exp:
                good = False
                break
        if good:
            return True
    return False


def product_small(ls):
    import itertools
    n = 1
    for l in ls:
        n *= len(l)
    if n <= 70000:
        return itertools.product(*ls)
    # every value of each input with the others at the extremes
    def gen():
        for i, l in enumerate(ls):
            rest = [(x[0], x[-1], x[len(x) // 2]) if j != i else l for j, x in enumerate(ls)]
            yield from itertools.product(*rest)
    return gen()


def any_len(rep, m, f, name):
    n, cap = N('n'), N('cap')

    def watch(R, out_obj):
        pass

    def go():
        R = Run(rep, m)
        src = R.buf(n, 'the input', ro=True)
        args = []
        dem = f.dem
        out = None
        if 'sret' in f.d['args'][0]:
            out = R.obj(24, 'the result', 'undef')
            args = [out, src, n]
        else:
            out = R.vec(cap, 'the output')
            args = [src, n, out]

        def on_store(st, k, off, v):
            v = st.const(v)
            if v == 61:
                return
            if isinstance(v, int) and v == 0:
                return
            if not deps(v) and not isinstance(v, int):
                return

            def spec(r, x):
                g = [x.get(j) for j in range(3)]
                y = [0 if q is None else q for q in g]
                return ord(ALPHA[(y[0] >> 2, (y[0] << 4 | y[1] >> 4) & 63, (y[1] << 2 | y[2] >> 6) & 63, y[2] & 63)[r]])
            if isinstance(v, int):
                R.I.oblige(v == ord('A'), 'character-belongs-to-the-bytes-coded', 'stores the constant %d' % v)
                return
            ok = group_rule(st, off, v, 3, 4, spec, 3)
            R.I.oblige(ok is True, 'character-belongs-to-the-bytes-coded',
                       'the character stored is not the one of the Base64 alphabet for the input bytes at its position')
        R.I.hooks['store'] = lambda I, st, k, o, off, size, v: (
            on_store(st, k, off, v) if size == 1 and o.kind == 'vec' and not I.mute else None) and False
        outs = R.call(f, *args)
        for o in outs:
            if o.kind != 'ret':
                continue
            want = lscale(R.I.quot(o.st, ladd(n, 2), 3), 4)
            if f.d['ret'] != 'void' and o.val is not None:
                d = lsub(as_lin(o.val), want)
                R.I.oblige(o.st.is_zero(d) is True, 'encoded-size', 'returns a size other than 4 * ((n + 2) / 3)', where(f))
            if 'sret' in f.d['args'][0]:
                k, sz = vec_of(o.st, out)
                R.I.oblige(o.st.is_zero(lsub(sz, want)) is True, 'encoded-size', 'the text has a size other than 4 * ((n + 2) / 3)', where(f))
        R.report()
        rep.count('abstract outcomes', len(outs))
    guarded(rep, name + ', any length', go)


def any_len_dec(rep, m, f):
    n, ds = N('n'), N('dest')

    def go():
        R = Run(rep, m)
        src = R.buf(n, 'the text', ro=True)
        dst = R.buf(ds, 'the destination', 'lazy')

        def on_store(st, k, off, v):
            def spec(r, x):
                c = [x.get(j) for j in range(4)]
                if r > 2:
                    return None
                need = ((0, 1), (1, 2), (2, 3))[r]
                if any(c[j] is None for j in need) or any(x.get(j) is not None for j in range(4) if j not in need):
                    return None
                if any(c[j] not in DEC and c[j] != 61 for j in need):
                    return None
                if any(c[j] == 61 for j in need):
                    return 0 if False else SKIP
                return b64_byte(r, [0 if q is None else q for q in c])
            ok = group_rule_dec(st, off, v, spec)
            R.I.oblige(ok is True, 'byte-belongs-to-the-characters-decoded',
                       'the byte stored is not the one the characters at its position stand for')
        R.I.hooks['store'] = lambda I, st, k, o, off, size, v: (
            on_store(st, k, off, v) if size == 1 and k == dst.obj and not I.mute else None) and False
        outs = R.call(f, dst, ds, src, n)
        R.report()
        rep.count('abstract outcomes', len(outs))
    guarded(rep, 'base64 decoder, any length', go)


SKIP = -1


def group_rule_dec(st, off, v, spec):
    """output position 3q + r belongs to the characters 4q + j"""
    ds = deps(v)
    if None in ds or any(s is None or s.byte is None or pos(s) is None for s in ds):
        return None
    for r in range(3):
        js = {}
        base = lscale(lsub(off, r), 4)
        for s in ds:
            for j in range(4):
                d = lsub(lscale(ladd(pos(s)[1], -j), 3), base)
                if st.is_zero(d) is True:
                    js[s] = j
                    break
            else:
                break
        if len(js) != len(ds) or len(set(js.values())) != len(js):
            continue
        order = sorted(js, key=lambda s: js[s])
        good = True
        fn, ids = compilev(v, order), [js[s] for s in order]
        if fn is None:
            return None
        for combo in product_small([vals(st, s) for s in order]):
            exp = spec(r, dict(zip(ids, combo)))
            if exp == SKIP:
                continue
            got = fn(*combo)
            if exp is None or got is None or got & 255 != exp:
                good = False
                break
        if good:
            return True
    return False


def any_len_hex(rep, m, f, g, g2):
    n, ds = N('n'), N('dest')

    def enc():
        R = Run(rep, m)
        src = R.buf(n, 'the input', ro=True)
        out = R.obj(24, 'the result', 'undef')

        def on_store(st, k, off, v):
            v = st.const(v)
            if v == 0:
                return
            ok = group_rule(st, off, v, 1, 2, lambda r, x: hex_char(r, x[0]) if 0 in x else None, 1)
            R.I.oblige(ok is True, 'digit-belongs-to-the-byte-coded', 'the digit stored is not the one of the byte at its position')
        R.I.hooks['store'] = lambda I, st, k, o, off, size, v: (
            on_store(st, k, off, v) if size == 1 and o.kind == 'vec' and not I.mute else None) and False
        outs = R.call(f, out, src, n)
        for o in outs:
            if o.kind == 'ret':
                k, sz = vec_of(o.st, out)
                R.I.oblige(o.st.is_zero(lsub(sz, lscale(n, 2))) is True, 'encoded-size', 'the text has a size other than 2 * n', where(f))
        R.report()
    guarded(rep, 'hex coder, any length', enc)

    def dec():
        R = Run(rep, m)
        src = R.buf(n, 'the text')
        R.st.mem[src.obj].ro = True
        dst = R.buf(ds, 'the destination')

        def on_store(st, k, off, v):
            if not deps(v):
                return

            def spec(r, x):
                if 0 not in x or 1 not in x:
                    return None
                return HEXV[x[0]] << 4 | HEXV[x[1]] if x[0] in HEXV and x[1] in HEXV else None
            ok = group_rule(st, off, v, 2, 1, spec, 2)
            R.I.oblige(ok is True, 'byte-belongs-to-the-digits-decoded', 'the byte stored is not the one of the digits at its position')
        R.I.hooks['store'] = lambda I, st, k, o, off, size, v: (
            on_store(st, k, off, v) if size == 1 and k == dst.obj and not I.mute else None) and False
        R.call(g, dst, ds, src, n)
        R.report()
    guarded(rep, 'hex decoder, any length', dec)


# ------------------------------------------------------------------ partitioned by length
def in_syms(src, st, n):
    return [byte_sym(('m', src.obj, 0, i, 8)) for i in range(n)]


def compare(rep, rule, f, st, k, spec, syms, count, what):
    """contents of an object against functions of the input bytes"""
    for i in range(count):
        v = cell(st, k, i)
        o = st.mem.get(k)
        if v is None and o is not None and o.dflt == 'zero' and not any(not isinstance(c, int) for c in o.cells):
            v = 0
        if v is None:
            rep.bad(rule, where(f), 'position %d of the result %s is not written' % (i, what))
            continue
        need = spec(i)
        ds = deps(v)
        if callable(need):
            order = sorted(set(ds) | set(need.syms), key=lambda s: s.uid if isinstance(s, Sym) else -1)
        else:
            order = sorted((s for s in ds if s is not None), key=lambda s: s.uid)
        if None in ds or any(s not in syms for s in order):
            rep.bad(rule, where(f), 'position %d of the result %s depends on something else than the input' % (i, what))
            continue
        good = True
        fn = compilev(v, order)
        for combo in product_small([vals(st, s) for s in order]):
            got = fn(*combo) if fn else None
            exp = need(dict(zip(order, combo))) if callable(need) else need
            if got is None or got & 255 != exp:
                good = False
                rep.bad(rule, where(f), 'position %d of the result %s is %s for the bytes %s, expected %s' % (
                    i, what, got, ['0x%02x' % x for x in combo], exp))
                break
        if good:
            rep.ok(rule, '%s position %d' % (what, i))


class Spec:
    def __init__(self, syms, fn):
        self.syms, self.fn = syms, fn

    def __call__(self, asg):
        return self.fn(asg)


def enc_exact(rep, m, f, n, into):
    want = 4 * ((n + 2) // 3)
    for cap in ((0, want - 1, want, want + 3) if into else (None,)):
        if cap is not None and cap < 0:
            continue
        R = Run(rep, m, exact=True)
        src = R.buf(n, 'the input', ro=True)
        if into:
            out = R.vec(cap, 'the output')
            outs = R.call(f, src, n, out)
        else:
            out = R.obj(24, 'the result', 'undef')
            outs = R.call(f, out, src, n)
        R.report()
        syms = in_syms(src, None, n)
        what = 'of %d bytes%s' % (n, '' if cap is None else ' (room for %d)' % cap)
        for o in outs:
            if not rep.check(o.kind == 'ret', 'coding-succeeds', where(f), 'coding %d bytes throws' % n):
                continue
            k, sz = vec_of(o.st, out)
            if into:
                rep.check(o.st.const(o.val) == want, 'encoded-size', where(f), 'returns %r for %d bytes' % (o.val, n))
                rep.check(o.st.const(sz) == max(want, cap), 'encoded-size', where(f), 'the text of %d bytes has size %r' % (n, sz))
            else:
                rep.check(o.st.const(sz) == want, 'encoded-size', where(f), 'the text of %d bytes has size %r' % (n, sz))

            def spec(i):
                q, r = divmod(i, 4)
                js = [3 * q + j for j in range(3) if 3 * q + j < n]
                return Spec([syms[j] for j in js],
                            lambda asg: b64_char(r, lambda j: asg[syms[3 * q + j]] if 3 * q + j < n else None))
            if k is not None:
                compare(rep, 'text-is-standard-base64', f, o.st, k, spec, syms, want, what)


def hex_exact(rep, m, f, n):
    R = Run(rep, m, exact=True)
    src = R.buf(n, 'the input', ro=True)
    out = R.obj(24, 'the result', 'undef')
    outs = R.call(f, out, src, n)
    R.report()
    syms = in_syms(src, None, n)
    for o in outs:
        if not rep.check(o.kind == 'ret', 'coding-succeeds', where(f), 'coding %d bytes throws' % n):
            continue
        k, sz = vec_of(o.st, out)
        rep.check(o.st.const(sz) == 2 * n, 'encoded-size', where(f), 'the text of %d bytes has size %r' % (n, sz))
        if k is not None:
            compare(rep, 'text-is-hex', f, o.st, k, lambda i: Spec([syms[i // 2]], lambda asg: hex_char(i % 2, asg[syms[i // 2]])),
                    syms, 2 * n, 'of %d bytes' % n)


def size_exact(rep, m, f, n):
    R = Run(rep, m, exact=True)
    src = R.buf(n, 'the text', ro=True)
    outs = R.call(f, src, n)
    R.report()
    syms = in_syms(src, None, n)
    if n % 4:
        for o in outs:
            rep.check(o.kind == 'ret', 'size-of-any-text-is-computed', where(f), 'throws for %d characters' % n)
        return
    for o in outs:
        if not rep.check(o.kind == 'ret', 'size-of-any-text-is-computed', where(f), 'throws for %d characters' % n):
            continue
        st = o.st
        for pad in range(3 if n else 1):
            # well formed texts with this padding that reach this return
            if not reaches(st, syms, form(n, pad)):
                continue
            want = n // 4 * 3 - pad
            got = st.const(o.val)
            rep.check(got == want, 'decoded-size', where(f), 'the size of %d characters with %d fill characters is computed as %r' % (n, pad, got))


def form(n, pad):
    return [MA] * (n - pad) + [EQ] * pad


def reaches(st, syms, masks):
    return all(st.mask.get(s, ALL) & x for s, x in zip(syms, masks))


def within(st, syms, masks):
    return all(st.mask.get(s, ALL) & ~x == 0 for s, x in zip(syms, masks))


def dec_exact(rep, m, f, n):
    """vector<uint8_t> base64_to_bytes(text)"""
    R = Run(rep, m, exact=True)
    src = R.buf(n, 'the text', ro=True)
    out = R.obj(24, 'the result', 'undef')
    outs = R.call(f, out, src, n)
    R.report()
    syms = in_syms(src, None, n)
    pads = [p for p in range(3) if n and n % 4 == 0 and p <= n]
    for o in outs:
        st = o.st
        if o.kind != 'ret':
            for p in pads:
                rep.check(not reaches(st, syms, form(n, p)), 'well-formed-text-is-accepted', where(f),
                          'a text of %d characters, %d of them fill characters, may be rejected' % (n, p))
            if n == 0:
                rep.bad('well-formed-text-is-accepted', where(f), 'the empty text is rejected')
            continue
        if n % 4:
            rep.bad('malformed-text-is-rejected', where(f), 'a text of %d characters is accepted' % n)
            continue
        acc = [p for p in pads if reaches(st, syms, form(n, p))]
        bad = not any(within(st, syms, form(n, p)) for p in pads) if n else False
        if n:
            rep.check(not bad, 'malformed-text-is-rejected', where(f),
                      'a text of %d characters with something else than the alphabet or with misplaced fill characters is accepted: %s' % (
                          n, describe(st, syms)))
        if bad:
            continue
        for p in acc or [0]:
            k, sz = vec_of(st, out)
            want = n // 4 * 3 - p
            rep.check(st.const(sz) == want, 'decoded-size', where(f), '%d characters with %d fill characters yield %r bytes' % (n, p, sz))
            if k is None:
                continue

            def spec(i):
                q, r = divmod(i, 3)
                return Spec(syms[4 * q:4 * q + 4], None)
            for i in range(want):
                q, r = divmod(i, 3)
                used = [syms[4 * q + r], syms[4 * q + r + 1]]
                v = cell(st, k, i)
                compare1(rep, 'bytes-are-those-coded', f, st, v, used, lambda x: b64_byte(r, [x.get(syms[4 * q + j], 65) for j in range(4)]),
                         syms, 'byte %d of %d characters' % (i, n))


def describe(st, syms):
    out = []
    for i, s in enumerate(syms):
        vs = vals(st, s)
        if len(vs) < 256:
            out.append('[%d] %s' % (i, '%d values such as %r' % (len(vs), chr(vs[0])) if len(vs) > 1 else repr(chr(vs[0]))))
        else:
            out.append('[%d] any' % i)
    return ', '.join(out)


def compare1(rep, rule, f, st, v, used, spec, syms, what):
    if v is None:
        rep.bad(rule, where(f), '%s is not written' % what)
        return
    ds = deps(v)
    if any(s not in used for s in ds):
        rep.bad(rule, where(f), '%s depends on other input than it should' % what)
        return
    fn = compilev(v, used)
    for combo in product_small([vals(st, s) for s in used]):
        asg = dict(zip(used, combo))
        got = fn(*combo) if fn else None
        if got is None or got & 255 != spec(asg) & 255:
            rep.bad(rule, where(f), '%s is %s for the characters %s, expected %s' % (what, got, [chr(x) for x in combo], spec(asg) & 255))
            return
    rep.ok(rule, what)


def dec_dest(rep, m, f, n, ds):
    """decoding into a destination of any size stays inside and rejects malformed groups that are used"""
    R = Run(rep, m, exact=True)
    src = R.buf(n, 'the text', ro=True)
    dst = R.buf(ds, 'the destination')
    outs = R.call(f, dst, ds, src, n)
    R.report()
    syms = in_syms(src, None, n)
    for o in outs:
        st = o.st
        if o.kind != 'ret':
            for p in range(3):
                rep.check(not reaches(st, syms, form(n, p)), 'well-formed-text-is-accepted', where(f),
                          'a text of %d characters, %d of them fill characters, may be rejected' % (n, p))
            continue
        for p in range(3):
            if not reaches(st, syms, form(n, p)) or not within(st, syms, form(n, p)):
                continue
            for i in range(min(ds, n // 4 * 3 - p)):
                q, r = divmod(i, 3)
                compare1(rep, 'bytes-are-those-coded', f, st, cell(st, dst.obj, i), [syms[4 * q + r], syms[4 * q + r + 1]],
                         lambda x: b64_byte(r, [x.get(syms[4 * q + j], 65) for j in range(4)]), syms,
                         'byte %d of %d characters into %d bytes' % (i, n, ds))


def unhex_check(rep, f, outs, syms, n, get, room):
    for o in outs:
        st = o.st
        wf = n % 2 == 0 and room >= n // 2
        if o.kind != 'ret':
            if wf:
                rep.check(not reaches(st, syms, [MH] * n) if n else False, 'well-formed-text-is-accepted', where(f),
                          'a text of %d hex digits may be rejected' % n)
            continue
        if not wf:
            rep.bad('malformed-text-is-rejected', where(f), 'a hex text of %d characters is accepted for %d bytes' % (n, room))
            continue
        if not rep.check(within(st, syms, [MH] * n), 'malformed-text-is-rejected', where(f),
                         'a text with something else than hex digits is accepted: %s' % describe(st, syms)):
            continue
        for i in range(n // 2):
            compare1(rep, 'bytes-are-those-coded', f, st, get(st, i), syms[2 * i:2 * i + 2],
                     lambda x: HEXV[x[syms[2 * i]]] << 4 | HEXV[x[syms[2 * i + 1]]], syms, 'byte %d of %d hex digits' % (i, n))


def unhex_exact(rep, m, f, n):
    if n > 5:
        return
    R = Run(rep, m, exact=True)
    src = R.buf(n, 'the text', ro=True)
    out = R.obj(24, 'the result', 'undef')
    outs = R.call(f, out, src, n)
    R.report()

    def get(st, i):
        k, sz = vec_of(st, out)
        return cell(st, k, i)
    for o in outs:
        if o.kind == 'ret' and n % 2 == 0:
            k, sz = vec_of(o.st, out)
            rep.check(o.st.const(sz) == n // 2, 'decoded-size', where(f), '%d hex digits yield %r bytes' % (n, sz))
    unhex_check(rep, f, outs, in_syms(src, None, n), n, get, n // 2)


def unhex_dest(rep, m, f, n, ds):
    R = Run(rep, m, exact=True)
    src = R.buf(n, 'the text', ro=True)
    dst = R.buf(ds, 'the destination')
    outs = R.call(f, dst, ds, src, n)
    R.report()
    unhex_check(rep, f, outs, in_syms(src, None, n), n, lambda st, i: cell(st, dst.obj, i), ds)
