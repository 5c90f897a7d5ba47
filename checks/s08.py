"""Decimal text and integers convert exactly."""
from vals import *
import s06

RNG = {1: (-128, 127), 2: (0, 255), 3: (-2**15, 2**15 - 1), 4: (0, 2**16 - 1), 5: (-2**31, 2**31 - 1), 6: (0, 2**32 - 1),
       7: (-2**63, 2**63 - 1), 8: (0, 2**64 - 1)}
DIGIT = byte_mask(lambda c: 48 <= c <= 57)
SPACE = byte_mask(lambda c: c == 32 or 9 <= c <= 13)


def run(rep):
    do = Jobs(rep)
    m = api()
    rep.level = 'other'
    rep.explanation = (
        'Abstract interpretation.  Writer: for each integer type the value is one abstract number of its whole range; on '
        'every path the characters stored have to be digits whose weighted sum is provably (by linear arithmetic over the '
        'quotients) the value, the first not 0, with a minus sign exactly for negative values, and the digit buffer has to '
        'hold them.  Reader: texts of 0 to 24 characters, every character abstract (surrounding space up to 7 '
        'characters); an integer result has to be provably the decimal value of the characters, and every path that '
        'ends in anything else has to contradict "an optional minus sign, digits, value within 64 bits".  The bounds of '
        'the accesses to the text are proved for texts of any length.')
    L = layout(m)
    T = {c: L.tag[c][0] for c in CTYPES}
    to_str = [f for f in m.find(r'Srl::Tools::type_to_str\(') if not f.decl]
    if not to_str:
        raise Broken('no Tools::type_to_str')
    buf_str = [f for f in to_str if len(f.d['args']) == 2 and 'sret' not in f.d['args'][0]]
    own_str = [f for f in to_str if f not in buf_str]
    for c, w in CTYPES.items():
        signed = c in ('signed char', 'short', 'int', 'long')
        for f in buf_str:
            do('text of ' + c, write, m, L, f, T[c], signed, c, w, False)
    for f in buf_str:
        for t in L.tag['double']:
            do('text of floating point', write_fp, m, L, f, t, t == L.tag['float'][0])
        do('text of bool', words, m, L, f)
    read = [f for f in m.find(r'Srl::Tools::str_to_type\(unsigned char const\*') if not f.decl][0]
    ints = {v: k for k, v in T.items()}
    for n in range(0, 25):
        do('integer text of %d characters' % n, parse, m, L, read, n, T, n <= 5)
    do('text of any length', parse_any, m, read)
    do.all()


def where(f):
    return s06.where(f)


def write(rep, m, L, f, tag, signed, name, w, own):
    R = Run(rep, m, exact=True)
    R.I.unroll = 30
    lo, hi = RNG[tag] if tag in RNG else (0, 2**64 - 1)
    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if signed else (0, (1 << w) - 1)
    v = sym(('value', name), lo, hi)
    val = L.obj(R, 'the value', tag, v.lin)
    if own:
        out = R.obj(32, 'the text', 'undef')
        outs = R.call(f, out, val)
    else:
        room = sym(('room', name), 0, 1 << 40).lin
        out = R.vec(room, 'the buffer')
        outs = R.call(f, val, out)
    n = 0
    for o in outs:
        if o.kind != 'ret':
            rep.check(False, 'integers-have-a-text', where(f), 'the text of %s can end in %s' % (name, o.kind))
            continue
        st = o.st
        if own:
            k, size = string_of(st, out)
        else:
            k, _ = vec_of(st, out)
            size = st.const(o.val)
        if not isinstance(size, int):
            rep.undecided('text of ' + name, 'length %r' % (size,))
            continue
        n += 1
        why = cases(st, lambda q: digits_of(q, k, size, v, lo, hi, own))
        rep.check(why is None, 'integer-text-is-exact', where(f), 'text of %s: %s' % (name, why))
        need = size if not own else 0
        if need:
            kk, vs = vec_of(st, out)
            rep.check(st.entails(lsub(vs, need)), 'text-fits-the-buffer', where(f), 'a text of %d characters is announced in a smaller buffer' % need)
    rep.count('paths', n)
    if not n:
        rep.undecided('text of ' + name, 'no path returns')
    R.report()


def string_of(st, p):
    o = st.mem[p.obj]
    d = o.extra if isinstance(o.extra, dict) else None
    b, n = o.cells.get(0), o.cells.get(8)
    return (b[1].obj if b and isinstance(b[1], Ptr) else None), (st.const(n[1]) if n else None)


def digits_of(st, k, size, v, lo, hi, own):
    """why the characters at k are not the shortest decimal text of v; None if they are"""
    if size < 1:
        return 'no characters'
    cs = []
    for i in range(size):
        c = cell(st, k, i)
        if c is None:
            return 'character %d of %d is not set' % (i, size)
        c = st.const(as_lin(st.to_u(c, 8)))
        cs.append(c)
    neg_ = cs[0] == 45
    if neg_:
        if not st.entails(lsub(-1, v.lin)):
            return 'a value that is not negative is written with a minus sign'
        cs = cs[1:]
        if not cs:
            return 'a minus sign without digits'
    elif not st.entails(v.lin):
        return 'a negative value is written without a minus sign'
    total = 0
    for i, c in enumerate(cs):
        d = ladd(c, -48)
        if not (st.entails(d) if not isinstance(d, int) else d >= 0) or not (st.entails(lsub(9, d)) if not isinstance(d, int) else d <= 9):
            return 'character %d is not shown to be a digit' % i
        if i == 0 and len(cs) > 1 and not (st.entails(ladd(d, -1)) if not isinstance(d, int) else d >= 1):
            return 'the first digit may be 0'
        total = ladd(lscale(total, 10), d) if not isinstance(total, int) or total else d
    want = lscale(v.lin, -1) if neg_ else v.lin
    diff = lsub(total, want)
    z = diff == 0 if isinstance(diff, int) else st.is_zero(diff) is True
    if not z:
        return 'the digits are not shown to be those of the value (%d characters)' % size
    return None


def write_fp(rep, m, L, f, tag, single):
    R = Run(rep, m, exact=True)
    R.I.unroll = 30
    v = fsym(('value', tag), 32 if single else 64)
    out = R.vec(sym(('room', tag), 0, 1 << 40).lin, 'the buffer')
    outs = R.call(f, L.obj(R, 'the value', tag, v, 4 if single else 8), out)
    for o in outs:
        if o.kind != 'ret':
            continue
        size = o.st.const(o.val)
        kk, vs = vec_of(o.st, out)
        rep.check(o.st.entails(lsub(vs, as_lin(size))), 'text-fits-the-buffer', where(f), 'more characters are announced than the buffer holds')
        # a whole number within 64 bits is written as an integer
        f2i = [y for y in o.st.iv if isinstance(y.key, tuple) and y.key[0] == 'f2i' and y.key[3] == 64]
        if isinstance(size, int) and len(f2i) == 1:
            why = cases(o.st, lambda q: digits_of(q, kk, size, f2i[0], 0, 0, False))
            rep.check(why is None, 'integer-text-is-exact', where(f), 'text of a whole floating point number: %s' % why)
    rep.count('paths', len(outs))
    R.report()


def words(rep, m, L, f):
    tag = L.tag['bool'][0]
    for val, text in ((0, b'false'), (1, b'true')):
        R = Run(rep, m, exact=True)
        out = R.vec(sym(('room',), 0, 1 << 40).lin, 'the buffer')
        outs = R.call(f, L.obj(R, 'the value', tag, val), out)
        for o in outs:
            if o.kind == 'ret':
                k, _ = vec_of(o.st, out)
                n = o.st.const(o.val)
                got = [o.st.const(cell(o.st, k, i)) if cell(o.st, k, i) is not None else None for i in range(n)] if isinstance(n, int) else None
                rep.check(got == list(text), 'literals-are-those-of-the-grammar', where(f), 'the text of %s is not %s' % (bool(val), text.decode()))
        R.report()


def parse(rep, m, L, f, n, T, spaces):
    R = Run(rep, m, exact=True)
    R.I.unroll, R.I.max_work = 60, 2000
    R.I.max_cfgs = 6000
    src = R.buf(n, 'the text', 'bytes', ro=True)
    out = R.obj(160, 'the result', 'undef')
    ss = []
    st = R.st
    for i in range(n):
        s = R.I.load(st, Ptr(src.obj, i), 'i8')
        s = list(deps(s))[0]
        ss.append(s)
    if not spaces and n:
        for i in (0, n - 1):
            st.mask[ss[i]] = st.mask.get(ss[i], ALL) & ~SPACE
    hint = 11
    outs = R.call(f, out, src, n, hint)
    cnt = {}
    for o in outs:
        if o.kind != 'ret':
            rep.check(False, 'text-is-read-or-refused', where(f), 'reading a text of %d characters ends in %s' % (n, o.kind))
            continue
        ok, tag, pay = result(m, L, o.st, out)
        if ok is None:
            rep.undecided('integer text of %d characters' % n, 'unclear result')
            continue
        kind = 'int' if ok == 1 and tag in (T['long'], T['unsigned long'], T['int'], T['unsigned int']) else 'other'
        cnt[kind] = cnt.get(kind, 0) + 1
        if kind == 'int':
            why = cases(o.st, lambda q: is_decimal(q, ss, pay, tag in (T['long'], T['int'])))
            rep.check(why is None, 'integer-is-the-value-of-the-text', where(f), 'text of %d characters: %s' % (n, why))
        else:
            why = cases(o.st, lambda q: may_be_decimal(q, ss))
            rep.check(why is None, 'integer-text-is-read-as-integer', where(f), 'text of %d characters: %s' % (n, why))
            if ok == 1 and tag == L.tag['bool'][0]:
                rep.check(is_word(o.st, ss, pay), 'literals-are-those-of-the-grammar', where(f),
                          'a text of %d characters other than true or false is read as a truth value' % n)
    rep.count('paths', sum(cnt.values()))
    if n and not cnt.get('int'):
        rep.undecided('integer text of %d characters' % n, 'no integer result')
    R.report()


def result(m, L, st, out):
    """pair<bool, Value>: the flag precedes the value"""
    o = st.mem[out.obj]
    b = o.cells.get(0)
    if not b or b[0] != 1:
        return None, None, None
    ok = st.const(b[1])
    for at in (8, 16):
        t, v = L.of(st, out, at)
        if t is not None:
            return (ok if isinstance(ok, int) else None), t, v
    return None, None, None


def shape(st, ss):
    """the characters without surrounding space, as far as that is decided: (masks, symbols)"""
    ms = [st.mask.get(s, ALL) for s in ss]
    a, b = 0, len(ss)
    while a < b and not ms[a] & ~SPACE:
        a += 1
    while a < b and not ms[b - 1] & ~SPACE:
        b -= 1
    return ss[a:b], ms[a:b]


def horner(ss):
    t = 0
    for s in ss:
        t = ladd(lscale(t, 10), ladd(s.lin, -48))
    return t


def is_decimal(st, ss, pay, signed):
    xs, ms = shape(st, ss)
    if not xs:
        return 'space alone is read as a number'
    minus = ms[0] == 1 << 45
    if minus:
        xs, ms = xs[1:], ms[1:]
    if not xs or any(x & ~DIGIT for x in ms):
        return 'a text with something else than digits is read as an integer'
    want = lscale(horner(xs), -1) if minus else horner(xs)
    if pay is None or not isinstance(pay, (int, Lin, Bits)):
        return 'the value is unknown'
    d = lsub(as_lin(st.to_s(pay, 64) if signed else st.to_u(pay, 64)), want)
    if (d == 0) if isinstance(d, int) else st.is_zero(d) is True:
        return None
    return 'the integer is not shown to be the decimal value of the characters'


def may_be_decimal(st, ss):
    """why the state admits a decimal integer within 64 bits; None if it does not"""
    xs, ms = shape(st, ss)
    if not xs:
        return None
    for minus in (False, True):
        s2 = st.fork()
        ys = xs
        ok = True
        if minus:
            if not ms[0] >> 45 & 1 or len(xs) < 2:
                continue
            s2.mask[xs[0]] = 1 << 45
            ys = xs[1:]
        for s in ys:
            x = s2.mask.get(s, ALL) & DIGIT
            if not x:
                ok = False
                break
            s2.mask[s] = x
        if not ok:
            continue
        h = horner(ys)
        lim = 2**63 - 1 if minus else 2**64 - 1
        if not s2.assume_ge(lsub(lim, h)) or s2.entails(lsub(h, lim + 1)) or impossible(s2):
            continue
        return 'an integer within 64 bits (%s%d digits) is not read as an integer' % ('minus, ' if minus else '', len(ys))
    return None


def is_word(st, ss, pay):
    xs, ms = shape(st, ss)
    p = st.const(as_lin(pay)) if pay is not None else None
    text = {1: 'true', 0: 'false'}.get(p)
    if text is None or len(ms) != len(text):
        return False
    return all(not m_ & ~((1 << ord(c)) | (1 << ord(c.upper()))) for m_, c in zip(ms, text))


def parse_any(rep, m, f):
    n = sym(('n',), 0, 1 << 40).lin
    R = Run(rep, m)
    src = R.buf(n, 'the text', 'bytes', ro=True)
    out = R.obj(160, 'the result', 'undef')
    for hint in (11, 10):
        R.call(f, out, src, n, hint)
    R.report()
