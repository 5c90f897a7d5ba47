"""Text of floating point numbers denotes the digits and the exponent computed for the number, and is a JSON number."""
from ai import *
from common import api
from wire import fn, byte_at
from models import ret
import models

NDIG, LOW, HIGH = 17, -324, 308


def run(rep):
    do = Jobs(rep)
    m = api()
    rep.level = 'other'
    rep.explanation = (
        'fpconv_dtoa is followed with a stand-in for the generator of digits that yields n unknown digits (the first not 0) and the '
        'exponent of the last one, for every n up to 17 and every decimal exponent a double can have, for both signs and for every bit '
        'pattern of a finite number. The bytes written are read by the grammar of JSON numbers: sign, digits (the same symbols in the same '
        'order, zeros only around them), point and exponent have to denote exactly sign, digits and exponent.')
    f = fn(m, r'^fpconv_dtoa$')
    full = rep.tier == 'thorough'
    few = set(range(-26, 27)) | {s * x for s in (1, -1) for x in (30, 49, 50, 98, 99, 100, 101, 109, 110, 111, 199, 200, 201, 299, 300, 301, 307, 308)} | {-324, -323, -310, -309}
    for neg in (0, 1):
        for n in range(1, NDIG + 1):
            for e in range(LOW, HIGH + 1):
                if full or e in few or n in (1, 17) and abs(e) % 3 == neg:
                    do('a number of %d digits with exponent %d' % (n, e), number, m, f, neg, n, e, 62)
        for j in range(52, 63):
            do('a number with bit %d clear' % j, number, m, f, neg, 5, 30, j)
        do('zero', zero, m, f, neg)
    do.all()


def pattern(neg, clear):
    """a finite number: the sign, and one bit of the exponent that is not set"""
    x = sym(('bits', 'of', 'the number'), 0, (1 << 64) - 1)
    return Bits(tuple(neg if b == 63 else 0 if b == clear else (x, b) for b in range(64)))


def number(rep, m, f, neg, n, e, clear):
    R = Run(rep, m, exact=True)
    I = R.I
    I.unroll = 40
    digits = [byte_sym(('digit', 'of', i)) for i in range(n)]
    for i, s in enumerate(digits):
        R.st.mask[s] = sum(1 << c for c in range(0x31 if i == 0 else 0x30, 0x3a))
    k = e - n + 1
    given = []

    def grisu(I, st, a, d, nn):
        p, kp = [x for x in a if isinstance(x, Ptr)][-2:]
        I.resolve_obj(st, p, n, 'writes')
        o = st.wobj(p.obj)
        at = st.const(p.off)
        for i, s in enumerate(digits):
            o.cells[at + i] = (1, s.lin)
        I.store(st, kp, k % 2**32, 4, 'i32')
        given.append(1)
        return ret(I, st, n)
    I.models = [(re.compile(r'^grisu2$'), grisu)] + I.models
    bits = pattern(neg, clear)
    d = fsym(('ofbits', bits, 64), 64, ('ofbits', bits))
    R.st.assume(Cmp('f', d, ('olt' if neg else 'ogt', 0.0), 0))
    dest = R.buf(24, 'the destination', 'undef')
    outs = I.call(R.st, f, [d, dest])
    if not given:
        raise GiveUp('digits are generated elsewhere')
    for o in outs:
        if o.kind == 'ret':
            size = o.st.const(o.val)
            why = spells(o.st, dest, size, neg, digits, k)
            rep.check(why is None, 'text-denotes-the-number', f.where, '%s%d digits, the last one of weight 10^%d: %s' % ('negative, ' if neg else '', n, k, why))
    rep.count('numbers')
    R.report()


def spells(st, dest, size, neg, digits, k):
    """why the text is not a JSON number of these digits and this exponent"""
    if not isinstance(size, int) or not 0 < size <= 24:
        return 'length %s' % size
    t = []
    for i in range(size):
        b = byte_at(st, dest.obj, i)
        if b is None or isinstance(b, tuple):
            return 'character %d is not set' % i
        c = st.const(b)
        if isinstance(c, int):
            t.append(chr(c))
        else:
            hit = [j for j, s in enumerate(digits) if as_lin(b) == s.lin]
            if not hit:
                return 'character %d is no digit of the number' % i
            t.append(hit[0])
    return denotes(t, neg, len(digits), k)


def denotes(t, neg, n, k):
    i = 0
    if (t[:1] == ['-']) != bool(neg):
        return 'the sign'
    i += neg

    def run(i):
        j = i
        while j < len(t) and (isinstance(t[j], int) or t[j].isdigit()):
            j += 1
        return j
    j = run(i)
    whole, frac, exp = t[i:j], [], 0
    if not whole:
        return 'no digits at the start'
    # a leading zero stands alone; the first digit of the number is not 0
    if len(whole) > 1 and whole[0] in ('0',) or any(isinstance(x, int) and x > 0 for x in whole[:1]):
        return 'starts with a digit that may be 0'
    if j < len(t) and t[j] == '.':
        i, j = j + 1, run(j + 1)
        frac = t[i:j]
        if not frac:
            return 'no digits after the point'
    if j < len(t) and t[j] in ('e', 'E'):
        s = 1
        j += 1
        if j < len(t) and t[j] in ('+', '-'):
            s = -1 if t[j] == '-' else 1
            j += 1
        i, j = j, run(j)
        if i == j or not all(isinstance(x, str) for x in t[i:j]):
            return 'no exponent after e'
        exp = s * int(''.join(t[i:j]))
    if j != len(t):
        return 'not a number: %r' % (t,)
    all_ = whole + frac
    weight = exp - len(frac)            # of the last character
    while all_ and all_[0] == '0':
        all_.pop(0)
    while all_ and all_[-1] == '0':
        all_.pop()
        weight += 1
    if all_ != list(range(n)):
        return 'the digits are not those of the number in order: %r' % (t,)
    if weight != k:
        return 'the last digit is given the weight 10^%d: %r' % (weight, t)
    return None


def zero(rep, m, f, neg):
    R = Run(rep, m, exact=True)
    dest = R.buf(24, 'the destination', 'undef')
    for o in R.I.call(R.st, f, [Fp(-0.0 if neg else 0.0, 64), dest]):
        if o.kind == 'ret':
            n = o.st.const(o.val)
            t = [o.st.const(byte_at(o.st, dest.obj, i)) for i in range(n)] if isinstance(n, int) else None
            rep.check(t is not None and bytes(x for x in t if isinstance(x, int)).decode() in ('0', '-0', '0.0', '-0.0'), 'text-denotes-the-number', f.where, 'zero is written as %s' % t)
    R.report()
