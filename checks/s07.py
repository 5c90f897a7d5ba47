"""Numeric conversions are exact or throw."""
from vals import *
import s06
import s08

FLT = 3.4028234663852886e38
BITS = dict(list(CTYPES.items()) + [('bool', 1)])
INTS = ['bool'] + list(CTYPES)
FPS = ['float', 'double', 'long double']
SIGNED = ('signed char', 'short', 'int', 'long')


def bounds(c):
    w = BITS[c]
    return (-(1 << w - 1), (1 << w - 1) - 1) if c in SIGNED else (0, (1 << w) - 1)


def run(rep):
    do = Jobs(rep)
    m = api()
    rep.level = 'other'
    rep.explanation = (
        'Abstract interpretation of every pair of arithmetic types: a Value is built by the library\'s own constructor from one '
        'abstract number standing for the whole range of the source type (NaN and infinity included) and pasted into a variable of '
        'the target type.  A path that returns has to leave exactly the number (an integer: shown by linear arithmetic; '
        'floating point: the correctly rounded number, or the truncated one in an integer, shown in range where it is converted), '
        'and a path that throws has to contradict "the number lies within the range of the target", and to throw Srl::Exception.  '
        'Texts of up to 4 abstract characters are pasted likewise.')
    for src in INTS + FPS[:2]:
        ctor = [f for f in m.find(r'^Srl::Value::Value<%s>\(' % src) if not f.decl]
        if not ctor:
            raise Broken('no constructor of Value for ' + src)
        for dst in INTS + FPS:
            for meth in (r'^void Srl::Value::paste<%s>\(' % dst, r'^%s Srl::Value::unwrap<%s>\(' % (dst, dst)):
                f = m.one(meth)
                do('%s to %s' % (src, dst), pair, m, ctor[0], f, src, dst)
    for dst in INTS + FPS:
        f = m.one(r'^void Srl::Value::paste<%s>\(' % dst)
        for n in range(0, 5):
            do('text of %d characters to %s' % (n, dst), text, m, f, dst, n)
    do.all()


def width(c):
    return {'float': 32, 'double': 64, 'long double': 80}.get(c) or max(8, BITS[c])


def pair(rep, m, ctor, f, src, dst):
    R = Run(rep, m, exact=True)
    fp = src in FPS
    if fp:
        v = fsym(('number', src), width(src))
    else:
        v = sym(('number', src), *bounds(src)).lin
    R.I.no_joins = True
    n = width(src) // 8
    arg = R.obj(n, 'the number', 'undef', {0: (n, v)})
    val = R.obj(96, 'the value', 'undef')
    first = R.call(ctor, val, arg)
    where = s06.where(f)
    name = '%s to %s' % (src, dst)
    by_ref = f.dem.startswith('void')
    nret = nthrow = 0
    size = 16 if dst == 'long double' else width(dst) // 8
    for o in first:
        if o.kind != 'ret':
            rep.check(False, 'a-number-makes-a-value', s06.where(ctor), 'a value of %s ends in %s' % (src, o.kind))
            continue
        R.st = o.st
        if by_ref:
            out = R.obj(size, 'the target', 'undef')
            outs = R.call(f, val, out)
        else:
            outs = R.call(f, val)
        for x in outs:
            if x.kind == 'ret':
                nret += 1
                if by_ref:
                    c = x.st.mem[out.obj].cells.get(0)
                    got = c[1] if c else None
                else:
                    got = x.val
                why = cases(x.st, lambda q: arrives(q, v, got, src, dst))
                rep.check(why is None, 'number-arrives-exactly', where, '%s: %s' % (name, why))
            elif x.kind == 'throw':
                nthrow += 1
                rep.check(is_srl(x), 'refusal-is-an-exception', where, '%s: something else than Srl::Exception is thrown' % name)
                why = cases(x.st, lambda q: fits(q, v, src, dst))
                rep.check(why is None, 'number-in-range-is-accepted', where, '%s: %s' % (name, why))
            else:
                rep.check(False, 'conversion-returns-or-throws', where, '%s ends in %s' % (name, x.kind))
    rep.count('paths', nret + nthrow)
    if not nret:
        rep.undecided(name, 'no path returns')
    R.report()


def equal_fp(st, a, b, depth=0):
    """the same floating point number on this path (widening is exact; narrowing where the code compared the result)"""
    if a is b or depth > 4:
        return a is b
    for x, y in ((a, b), (b, a)):
        if isinstance(x, FSym) and x.defn and x.defn[0] == 'cast' and x.w >= x.defn[1].w:
            if equal_fp(st, x.defn[1], y, depth + 1):
                return True
    # narrowed, and known to be equal to the wider one
    for x, y in ((a, b), (b, a)):
        if isinstance(x, FSym) and x.defn and x.defn[0] == 'cast' and x.w < x.defn[1].w:
            wide = x.defn[1]
            if equal_fp(st, wide, y, depth + 1) and compared_equal(st, x, wide):
                return True
    return False


def strip(x):
    while isinstance(x, FSym) and x.defn and x.defn[0] == 'cast' and x.w >= x.defn[1].w:
        x = x.defn[1]
    return x


def compared_equal(st, a, b):
    a, b = strip(a), strip(b)
    for s, (lo, hi) in list(st.iv.items()):
        k = s.key
        if isinstance(k, tuple) and k and k[0] == 'fcmp' and {strip(k[2]), strip(k[3])} == {a, b}:
            if k[1] == 'oeq' and lo >= 1 or k[1] == 'une' and hi <= 0:
                return True
    return False


def source(st, x, v):
    """the number v itself, behind exact conversions"""
    return equal_fp(st, x, v)


def arrives(st, v, got, src, dst):
    fp = src in FPS
    if got is None:
        return 'nothing is stored'
    if not fp and dst in BITS:
        w = max(8, BITS[dst])
        if isinstance(got, Cmp):
            for want in (0, 1):
                s2 = st.fork()
                if s2.assume(got if want else neg(got)) and s2.is_zero(ladd(v, -want)) is not True:
                    return 'the result is not shown to be the number'
            return None
        if not isinstance(got, (int, Lin, Bits)):
            return 'the result is unknown'
        lo, hi = bounds(dst)
        g = as_lin(st.to_s(got, w) if dst in SIGNED else st.to_u(got, w))
        d = lsub(g, v)
        return None if ((d == 0) if isinstance(d, int) else st.is_zero(d) is True) else 'the result is not shown to be the number'
    if not fp:
        got = strip(got)
        tw = width(dst)
        lo, hi = st.range(v)
        if isinstance(got, Fp):
            c = st.const(v)
            return None if isinstance(c, int) and got.v == (float(c)) else 'the result is another number'
        if not (isinstance(got, FSym) and got.defn and got.defn[0] == 'int'):
            if isinstance(got, FSym) and got.defn and got.defn[0] == 'cast' and got.w < got.defn[1].w and -2**53 <= lo and hi <= 2**53:
                got = strip(got.defn[1])
            if not (isinstance(got, FSym) and got.defn and got.defn[0] == 'int'):
                return 'the result is not the number'
        _, iv, w, op = got.defn
        g = as_lin(st.to_s(iv, w) if op == 'sitofp' else st.to_u(iv, w))
        d = lsub(g, v)
        if not ((d == 0) if isinstance(d, int) else st.is_zero(d) is True):
            return 'another number is converted'
        if got.w < min(tw, 64) and not (got.w >= 32 and -2**24 <= lo and hi <= 2**24):
            return 'the number is rounded more than the target requires'
        return None
    if dst in FPS:
        if equal_fp(st, got, v):
            return None
        # rounded to the target
        x = strip(got)
        if isinstance(x, FSym) and x.defn and x.defn[0] == 'cast' and x.w == 32 and dst == 'float' and equal_fp(st, x.defn[1], v):
            lo, hi, nan = st.frange(x.defn[1])
            if lo > hi or (lo >= -FLT and hi <= FLT) or lo == hi:
                return None
            return 'a number up to %s becomes infinite' % max(hi, -lo)
        return 'the result is not the number'
    lo, hi = bounds(dst)
    if dst == 'bool':
        for pred, want in (('oeq', 0), ('une', 1)):
            s2 = st.fork()
            src_syms = {y for y in s2.fl if isinstance(y, FSym) and equal_fp(s2, y, v)} | {v}
            if not all(s2.fassume(y, pred, 0.0) for y in src_syms):
                continue
            g = s2.const(as_lin(s2.to_u(got, 8)) if isinstance(got, (int, Lin, Bits)) else as_lin(got))
            if isinstance(got, Cmp):
                g = s2.decide(got)
                g = None if g is None else int(g)
            if isinstance(g, Lin) and len(g.t) == 1 and g.t[0][0].key[0] == 'f2i':
                continue
            if g != want:
                return 'a truth value other than that of the number is stored'
        return None
    g = got
    if not isinstance(g, (int, Lin, Bits)):
        return 'the result is unknown'
    w = max(8, BITS[dst])
    g = as_lin(st.to_s(g, w) if dst in SIGNED else st.to_u(g, w))
    if isinstance(g, int):
        lo_, hi_, nan = st.frange(v)
        return None if not nan and lo_ == hi_ and int(lo_) == g else 'a constant is stored'
    if len(g.t) == 1 and g.c == 0 and g.t[0][1] == 1:
        y = g.t[0][0]
        if isinstance(y.key, tuple) and y.key[0] == 'f2i' and equal_fp(st, y.key[1], v):
            a, b = st.range(g)
            return None if a >= lo and b <= hi else 'a number out of range is stored'
    return 'the result is not the number'


def fits(st, v, src, dst):
    """why a path that throws admits a number within the range of the target; None if it does not"""
    fp = src in FPS
    lo, hi = bounds(dst) if dst in BITS else ((-FLT, FLT) if dst == 'float' else (-INF, INF))
    if not fp:
        if dst in FPS:
            return 'an integer is refused'
        s2 = st.fork()
        if not s2.assume_ge(ladd(v, -lo)) or not s2.assume_ge(lsub(hi, v)) or impossible(s2):
            return None
        return 'a number within the range of the target is refused'
    if dst in FPS and (width(dst) >= width(src)):
        return 'a number every one of which the target represents is refused'
    s2 = st.fork()
    ys = {y for y in s2.fl if isinstance(y, FSym) and equal_fp(s2, y, v)} | {v}
    a, b = -INF, INF
    ao = bo = False
    nan = True
    for y in ys:
        l, h, n = s2.frange(y)
        lo_o, hi_o = s2.fopen(y, 'lo_open'), s2.fopen(y, 'hi_open')
        if l > a or l == a and lo_o:
            a, ao = l, lo_o
        if h < b or h == b and hi_o:
            b, bo = h, hi_o
        nan = nan and n
    # the real numbers of [lo, hi] that remain
    l, lo_o = (a, ao) if a > lo or a == lo and ao else (lo, False)
    h, hi_o = (b, bo) if b < hi or b == hi and bo else (hi, False)
    if l > h or l == h and (lo_o or hi_o):
        return None
    if dst in BITS and BITS[dst] == 64 and l >= hi - 2048:
        return None                   # no such double below the rounded maximum
    return 'a number in [%s, %s] is refused' % (l, h)


def text(rep, m, f, dst, n):
    R = Run(rep, m, exact=True)
    R.I.no_joins = True
    R.I.unroll, R.I.max_work, R.I.max_cfgs = 60, 2000, 6000
    src = R.buf(n, 'the text', 'bytes', ro=True)
    ss = []
    for i in range(n):
        ss.append(list(deps(R.I.load(R.st, Ptr(src.obj, i), 'i8')))[0])
    val = R.obj(96, 'the value', 'undef')
    ctor = [g for g in m.find(r'^Srl::Value::Value\(Srl::Lib::MemBlock const&, Srl::Encoding\)') if not g.decl]
    if not ctor:
        raise Broken('no constructor of Value from text')
    blk = R.obj(16, 'the block', 'undef', {0: (8, src), 8: (8, n)})
    first = R.call(ctor[0], val, blk, 1)
    size = 16 if dst == 'long double' else width(dst) // 8
    lo, hi = bounds(dst) if dst in BITS else (0, 0)
    where = s06.where(f)
    cnt = 0
    for o in first:
        if o.kind != 'ret':
            continue
        R.st = o.st
        out = R.obj(size, 'the target', 'undef')
        for x in R.call(f, val, out):
            cnt += 1
            if x.kind == 'throw':
                rep.check(is_srl(x), 'refusal-is-an-exception', where, 'text to %s: something else than Srl::Exception is thrown' % dst)
                why = cases(x.st, lambda q: decimal_fits(q, ss, dst))
                rep.check(why is None, 'number-in-range-is-accepted', where, 'text to %s: %s' % (dst, why))
                continue
            if x.kind != 'ret':
                rep.check(False, 'conversion-returns-or-throws', where, 'text to %s ends in %s' % (dst, x.kind))
                continue
            why = cases(x.st, lambda q: no_number(q, ss))
            rep.check(why is None, 'text-that-is-no-number-is-refused', where, 'text of %d characters to %s: %s' % (n, dst, why))
            if dst in BITS:
                c = x.st.mem[out.obj].cells.get(0)
                why = cases(x.st, lambda q: is_text(q, ss, c[1] if c else None, dst))
                rep.check(why is None, 'number-arrives-exactly', where, 'text of %d characters to %s: %s' % (n, dst, why))
    rep.count('paths', cnt)
    R.report()


NUMERIC = byte_mask(lambda c: chr(c) in '0123456789+-.eEtruefalsTRUEFALSinfINFatyATYnpP()xX_')


def no_number(st, ss):
    xs, ms = s08.shape(st, ss)
    if not xs:
        return 'space alone is read as a number'
    if any(not x & NUMERIC for x in ms):
        return 'a text with characters no number contains is accepted'
    return None


def only_int(st, ss):
    """the text can only be an optional minus sign and digits"""
    xs, ms = s08.shape(st, ss)
    if xs and ms[0] == 1 << 45:
        xs, ms = xs[1:], ms[1:]
    return bool(xs) and not any(x & ~s08.DIGIT for x in ms)


def is_text(st, ss, got, dst):
    if not only_int(st, ss):
        return None                   # words and fractions: read elsewhere
    if got is None:
        return 'nothing is stored'
    w = max(8, BITS[dst])
    if isinstance(got, Cmp):
        for want in (0, 1):
            s2 = st.fork()
            if s2.assume(got if want else neg(got)):
                why = s08.is_decimal(s2, ss, want, True)
                if why:
                    return why
        return None
    if not isinstance(got, (int, Lin, Bits)):
        return 'the result is unknown'
    return s08.is_decimal(st, ss, as_lin(st.to_s(got, w) if dst in SIGNED else st.to_u(got, w)), True)


def decimal_fits(st, ss, dst):
    xs, ms = s08.shape(st, ss)
    if not xs:
        return None
    lo, hi = bounds(dst) if dst in BITS else (-10**30, 10**30)
    for minus in (False, True):
        s2 = st.fork()
        ys = xs
        if minus:
            if not ms[0] >> 45 & 1 or len(xs) < 2:
                continue
            s2.mask[xs[0]] = 1 << 45
            ys = xs[1:]
        if not all(s2.mask.get(s, ALL) & s08.DIGIT for s in ys):
            continue
        for s in ys:
            s2.mask[s] = s2.mask.get(s, ALL) & s08.DIGIT
        h = lscale(s08.horner(ys), -1) if minus else s08.horner(ys)
        if not s2.assume_ge(lsub(hi, h)) or not s2.assume_ge(lsub(h, lo)) or impossible(s2):
            continue
        return 'a decimal number within the range of the target (%d digits) is refused' % len(ys)
    return None
