"""Charset converters: opened successfully, used while open, closed exactly once on every way out."""
from charset import *


def run(rep):
    do = Jobs(rep)
    m = harness()
    rep.level = 'other'
    rep.explanation = (
        'Typestate of the conversion descriptors along every path of the conversion, for every pair of encodings, every way a step can '
        'end, and every point where growing the buffer can fail: a descriptor is used and closed only while open, and none is open when '
        'the conversion is left, by return or by exception.')
    for frm, to, thr in pairs():
        w = 'from %s to %s%s' % (frm, to, ', failures thrown' if thr else '')
        do(w, convert, m, frm, to, thr, w)
    do.all()


def convert(rep, m, frm, to, thr, w):
    C = Conv(rep, m, frm, to, thr, alloc=True)
    outs = C.go()
    for o in outs:
        left = [s for s in o.st.ghost['opened'] if s != 'closed']
        how = 'a return' if o.kind == 'ret' else 'an exception' if o.kind == 'throw' else o.kind
        after = {None: 'before the conversion', 'done': 'after success', EINVAL: 'after incomplete text', EILSEQ: 'after invalid text',
                 E2BIG: 'after running out of room', 'open': 'after failing to open'}[o.st.ghost['ended']]
        rep.check(not left, 'converter-is-closed', C.where, '%s: left open by %s %s%s' % (w, how, after, ', memory being short' if o.st.ghost['failed'] else ''))
    rep.count('paths', len(outs))
    if frm != to and 'Unknown' not in (frm, to) and not any(o.st.ghost['opened'] for o in outs):
        rep.undecided(w, 'no converter is opened')
    C.R.report(only={'converter-is-open'})
