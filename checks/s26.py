"""Charset conversion: every byte converted lies in the buffer, behind the previous one; the number returned is the number written."""
from charset import *
from ai import is_srl


def run(rep):
    do = Jobs(rep)
    m = harness()
    rep.level = 'other'
    rep.explanation = (
        'The conversion is followed with text, buffer and index of unknown sizes, for every pair of encodings, iconv being replaced by its '
        'contract: a call may consume and produce any number of bytes within its limits and end in every way it can (all converted, '
        'incomplete, invalid, no room). Each call has to get the rest of the text and a place in the buffer right behind what has been '
        'written, with no more room announced than the buffer has, and more than before when it is called again. A normal return has to '
        'give exactly the number of bytes produced, all of them inside the buffer; failures have to be reported.')
    for frm, to, thr in pairs():
        w = 'from %s to %s%s' % (frm, to, ', failures thrown' if thr else '')
        do(w, convert, m, frm, to, thr, w)
    do.all()


def convert(rep, m, frm, to, thr, w):
    C = Conv(rep, m, frm, to, thr)
    outs = C.go()
    for o in outs:
        why = cases(o.st, lambda s: None if impossible(s) else wrong(C, s, o))
        rep.check(why is None, 'result-is-the-text-converted', C.where, '%s: %s' % (w, why))
    rep.count('paths', len(outs))
    if not any(o.kind == 'ret' for o in outs):
        rep.undecided(w, 'no conversion returns')
    C.R.report()


def wrong(C, st, o):
    g = st.ghost
    if o.kind == 'throw':
        if not is_srl(o):
            return 'ends in another exception than Srl::Exception'
        if not C.thr:
            return 'ends in an exception although failures are not to be thrown'
        if g['ended'] in (None, 'done', E2BIG) and C.frm != 'Unknown' and C.to != 'Unknown':
            return 'fails although the text can be converted'
        return None
    if o.kind != 'ret':
        return 'ends the process'
    got = as_lin(st.to_u(o.val, 64))
    store, size = vec_of(st, C.vec)

    def inside(n):
        return n == 0 or st.is_zero(n) is True or st.entails(lsub(size, ladd(C.idx.lin, n)))
    empty = st.is_zero(C.n.lin)
    if empty is None:
        raise Split([[peq(C.n.lin)], [pne(C.n.lin)]])
    if empty:
        return None if st.is_zero(got) is True else 'an empty text yields bytes'
    if g['ended'] == 'done':
        if equal(st, got, g['total']) is not True:
            return '%s bytes are reported, %s have been written' % (got, g['total'])
        return None if inside(g['total']) else 'the text lies outside of the buffer'
    if g['calls'] == 0 and C.frm == C.to:
        c = g['copied']
        if equal(st, got, C.n.lin) is not True:
            return 'not all bytes are reported'
        if not c or not isinstance(c[0], Ptr) or c[0].obj != store or equal(st, c[0].off, C.idx.lin) is not True or equal(st, c[1], 0) is not True \
                or equal(st, c[2], C.n.lin) is not True:
            return 'the text is not copied to its place'
        return None if inside(C.n.lin) else 'the text lies outside of the buffer'
    if C.thr:
        return 'a failure is not reported'
    return None if st.is_zero(got) is True else 'a failed conversion yields bytes'
