"""Reading documents of unknown bytes: nothing but data that has been delivered is read, and what is handed out is there."""
from stream import *
from s04 import impossible, scope_tags, result, data_of
import iconvm

BIG = 1 << 40
CTX_MP = {'top': (), 'in array': (0xdc, None, None), 'in map': (0xde, None, None), 'in small array': (0x92,), 'in small map': (0x82, 0xa3, None, None, None)}
JSON = ['', '[', '{', '[1', '[-', '["', '["\\', '["\\u00', '["\\ud83d', '["\\ud83d\\ude0', '{"a', '{"a"', '{"a":', '{"a":"', '{"a":t', '{"a":1', '/', '/*', '[/*x', '[/', '[//',
        '[]', '[[', '[{', '{"a":[', '{/', '[0.', '[1e', '{"a":/*']


def run(rep):
    m = harness()
    rep.level = 'other'
    rep.explanation = (
        'Documents whose bytes and length are unknown are read with each parser, from memory and from a stream; a record of which bytes of '
        'the data lie where is kept through all refills. No byte may be read that has not been delivered, lengths found in the document '
        'are followed symbolically, the name and the data handed out have to lie in the data or in live storage of the parser and to end '
        'where the next item begins; every failure has to be an Srl::Exception. JSON is read with up to two unknown bytes at the end of '
        'beginnings that lead to every place of the reader.')
    L = layout(m)
    tags = scope_tags(m, L)
    full = rep.tier == 'thorough'
    jobs = []

    def add(w, *a):
        jobs.append((w, lambda r: read(r, m, L, tags, *a, w)))
    for src in ('stream', 'memory'):
        for c, pre in CTX_MP.items():
            add('MessagePack %s from %s' % (c, src), 'msgpack', src, pre, 2 if pre else 1, None)
        for kinds in ((), ('Array',), ('Object',), ('Object', 'Null'), ('Object', 'Array'), ('Object', 'Object', 'Scope_End')):
            some = kinds in ((), ('Array',))
            for mode in ('',) if some else ('short name', 'short data'):
                # (the least bits of the tag of the last item: number or not, with a name or not, a name known or new)
                for low in (None,) if some or src == 'memory' else range(8):
                    if src == 'stream' and not full and len(kinds) == 3:
                        continue
                    add('Srl, item %s %s%s from %s' % (' '.join(kinds + ('any',)), mode, '' if low is None else ' %d' % low, src), 'srl', src, kinds + ((mode, low),), len(kinds) + 1, None)
        for pre in JSON:
            for n in range(0, 4 if full else 3):
                b = tuple(pre.encode())
                add('JSON %s and %d unknown bytes from %s' % (pre, n, src), 'json', src, b, 4, len(b) + n)
    parallel(rep, jobs)


NEW = {'msgpack': ('new_msgpack', 'PMsgPack'), 'srl': ('new_srl', 'PSrl'), 'json': ('new_json', 'PJson')}


def read(rep, m, L, tags, kind, src, pre, times, size, what):
    R = Run(rep, m, exact=True)
    R.I.unroll, R.I.max_cfgs, R.I.max_work, R.I.decided_cap, R.I.max_splits = 60, 6000, 4000, 2000, 3000
    st = R.st
    if kind == 'json':
        iconvm.Iconv(R)
    S = Source(R)
    if kind == 'msgpack' and pre[:1] == (0xde,):
        # what follows a key of unknown length is nothing special
        S.new = lambda st, pos, s: st.mask.__setitem__(s, 1 << 0xc0) if not isinstance(pos, int) else None
    new, P_ = NEW[kind]
    where = fn(m, r'^Srl::%s::read\(' % P_).where
    outp = R.obj(128, 'the result')
    q = Seq(R)
    n = size if size is not None else sym(('size of the data',), 0, BIG).lin
    if src == 'stream':
        s = S.stream(st)
        S.limit = size
        q.call(fn(m, r'^drv::in_of_stream\('), s, to='in')
    else:
        q.call(fn(m, r'^drv::in_of_memory\('), S.memory(st, n), n, to='in')
    q.call(fn(m, r'^drv::' + new + r'\('), *((1,) if kind == 'json' else ()), to='r')
    for st, names in q.live:
        for i, b in enumerate(pre):
            if isinstance(b, int):
                st.mask[S.byte(st, i)] = 1 << b
    for i in range(times):
        if kind == 'srl':
            # numbers are of up to ten bytes; only one of the two of an item is of more than two (from a stream: one) at a time
            def new(st, pos, s, mode=pre[-1][0] if i == times - 1 else 'short name', low=pre[-1][1] if i == times - 1 else None):
                since = lsub(pos, st.ghost['item'])
                if since == 0 and low is not None:
                    st.mask[s] = sum(1 << v for v in range(256) if v & 7 == low)
                if since == 2 - (src == 'stream') and mode == 'short name' or mode == 'short data' and not isinstance(since, int):
                    st.mask[s] = (1 << 128) - 1
                elif src == 'stream' and mode and (not isinstance(since, int) or since > 0 and low in (2, 3, 6)):
                    st.ghost['more'] = st.ghost.get('more', 0) + 1
                    if st.ghost['more'] > 1 + (since in (1, 2)):
                        st.mask[s] = (1 << 128) - 1
            for st, names in q.live:
                at, = R.I.call(st.fork(), m.one(r'^Srl::Lib::In::pointer\(\) const$'), [names['in']])
                st.ghost['item'] = S.inside(R.I, st, at.val.obj, at.val.off, 0, False) if i else 0
                st.ghost['more'] = 0
            S.new = new
        q.call(of(m, 'get', P_), 'r', 'in', outp)
        for o, _ in q.thrown:
            if not is_srl(o):
                rep.check(impossible(o.st), 'failures-are-exceptions-of-the-library', where, '%s: reading ends in another exception' % what)
        rep.count('paths', len(q.live) + len(q.thrown))
        q.thrown = []
        live = []
        for st, names in q.live:
            if impossible(st):
                continue
            why = cases(st, lambda s: None if impossible(s) else wrong(m, R, S, L, tags, kind, s, names, outp))
            rep.check(why is None, 'what-is-handed-out-is-there', where, '%s: %s' % (what, why))
            if kind != "srl" or i == times - 1 or result(st, L, outp)[0] == tags[pre[i]]:
                if kind == 'srl':
                    ty, x, name, ns = result(st, L, outp)
                    if ns is not None and isinstance(name, Ptr) and name.obj in st.mem:
                        pos = S.inside(R.I, st, name.obj, name.off, ns, False)
                        if pos is not None:
                            st.ghost['names'] = st.ghost.get('names', ()) + (pos,)
                live.append((st, names))
        q.live = live
    R.report()


def wrong(m, R, S, L, tags, kind, st, names, outp):
    ty, x, name, ns = result(st, L, outp)
    if ns is None:
        return 'a name of no size'
    why = there(R, S, st, name, ns, kind, 'the name')
    if isinstance(why, str):
        return why
    if kind == 'srl' and why and not S.ge(st, lsub(why[0], st.ghost['item'])) and not any(st.is_zero(lsub(why[0], p)) is True for p in st.ghost.get('names', ())):
        return 'the name is not one that has been read'
    if ty in (tags['String'], tags['Binary']):
        p, n = data_of(st, L, outp, m, R)
        v = there(R, S, st, p, n, kind, 'the data')
        if isinstance(v, str):
            return v
        if v and why and kind != 'json' and not S.ge(st, lsub(v[0], ladd(why[0], ns))):
            return 'the data begins inside of the name'
    return None


def there(R, S, st, p, n, kind, what):
    """(position in the data,), None if it is not known, or why the n bytes at p cannot be used"""
    n = st.const(n)
    if n == 0 or not isinstance(n, int) and st.is_zero(n) is True:
        return None
    if not isinstance(n, int):
        s = st.fork()
        if not s.assume(pge(ladd(n, -1))) or impossible(s):
            return None
        st = s
    if not isinstance(p, Ptr):
        return '%s is nowhere' % what
    if p.obj == 'null' or p.obj not in st.mem or st.mem[p.obj].dead:
        return '%s lies in memory that is gone' % what
    pos = S.inside(R.I, st, p.obj, p.off, n, False)
    if pos is not None:
        return (pos,)
    o = st.mem[p.obj]
    if p.obj in S.windows:
        return '%s goes beyond the data delivered' % what
    if kind != 'json' and o.kind not in ('glob',):
        return '%s is not a part of the data' % what
    if o.size is not None and not S.ge(st, lsub(o.size, ladd(p.off, n))):
        return '%s goes beyond the buffer of the parser' % what
    return None
