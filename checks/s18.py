"""Independent trees, parsers and threads share no mutable state."""
import re
from common import api
from build import Broken
from ir import short
import flow

NOT_REENTRANT = {'strtok', 'setlocale', 'rand', 'srand', 'gmtime', 'localtime', 'asctime', 'ctime', 'strerror',
                 'localeconv', 'uselocale', 'mbtowc', 'wctomb', 'mblen', 'mbrlen', 'setenv', 'putenv', 'getenv', 'tmpnam',
                 'random', 'srandom', 'drand48', 'lrand48'}


def run(rep):
    m = api()
    rep.explanation = (
        'Effect analysis over the linked IR: every object of static storage duration is enumerated, and its address is '
        'followed through casts, locals, parameters and return values of all functions (to a fixpoint).  Writes are '
        'allowed only in constant initialisers, in the thread-safe initialisation of a local static and - for the type '
        'registry - below register_type.')
    initf = re.compile(r'^(__cxx_global_var_init|_GLOBAL__sub_I|__cxx_global_array_dtor|__tls_init|_ZTH|_ZTW)')

    def is_init(f):
        return bool(initf.match(f.name))

    users = {}
    for f in m.defined():
        for x in f.insts:
            s = set()
            for k, v in x.d.items():
                if isinstance(v, list) and k != 'loc':
                    flow.refs(v, s)
            for g in s:
                users.setdefault(g, set()).add(f.name)

    ctx = set()
    seen = set()
    for n, g in sorted(m.globals.items()):
        if g.get('decl') or g['tls']:
            if g['tls'] and g.get('loc'):
                rep.ok('thread-local-objects', n)
            continue
        if n.startswith(('_ZTV', '_ZTI', '_ZTS', '_ZTT', '.str', 'llvm.', '_ZGV', '__const.', 'switch.')):
            continue
        loc = g.get('loc')
        if not loc or not (loc[0].startswith(m.repo) or '/include/Srl/' in loc[0]):
            continue
        where = '%s:%s' % (loc[0].replace(m.repo + '/', ''), loc[1])
        name = re.sub(r' \(\.\d+\)$', '', g['dem'] or n)
        guard = '_ZGV' + n[2:] if n.startswith('_Z') else None
        rep.count('objects of static storage')
        fl = flow.Flow(m, n, users.get(n, ()), is_init)
        rep.count('reads', fl.reads)
        bad = []
        for w in fl.writes:
            if guard in m.globals and fl.chains(w, lambda f, x: guarded(f, x, guard)):
                rep.ok('thread-safe-local-static', '%s initialised at %s' % (short(name, 60), w.where))
            elif fl.chains(w, lambda f, x: (guard in m.globals and guarded(f, x, guard)) or is_registration(f)):
                rep.ok('registry-written-only-by-register_type', '%s in %s' % (w.where, short(w.f.dem, 60)))
            else:
                bad.append(w)
        for w in bad:
            k = (name, w.where)
            if k in seen:
                continue
            seen.add(k)
            rep.bad('no-writes-to-shared-objects', w.where, '%s (%s) is written by %s%s' % (
                name, where, short(w.f.dem), path(m, w.f)))
        if not bad:
            rep.ok('no-writes-to-shared-objects', '%s %s' % (where, short(name, 60)))
        # an address kept in an object that outlives the call could be written through later
        mutable = not (g['const'] or (g.get('tname') or '').startswith('const ') and not (g.get('tname') or '').endswith('*'))
        for e in fl.escapes:
            if mutable and e.f.in_repo:
                k = (name, e.where)
                if k not in seen:
                    seen.add(k)
                    # stored pointers to mutable shared objects: only accepted if the object is never written at all
                    if fl.writes:
                        rep.bad('no-escape-of-mutable-shared-objects', e.where, 'address of %s is kept by %s' % (name, short(e.f.dem)))
                    else:
                        rep.ok('no-escape-of-mutable-shared-objects', e.where)

    for f in m.repo_funcs():
        for x in f.calls():
            if x.callee:
                rep.check(x.callee not in NOT_REENTRANT, 'no-hidden-shared-state-of-libc', x.where,
                          '%s calls %s' % (short(f.dem), x.callee), x.callee)
    rep.need('no-writes-to-shared-objects', 10)
    rep.need('registry-written-only-by-register_type', 1)
    rep.assume = ['types are registered before threads start (static initialisers), as the documentation asks',
                  'the standard library keeps its documented thread guarantees']


def guarded(f, site, guard):
    """the site runs only after __cxa_guard_acquire said that this thread initialises the object"""
    for a in f.calls():
        if a.callee == '__cxa_guard_acquire' and a.d['args'][0] == ['g', guard]:
            t = f.bbs[a.b]['insts'][-1]
            rel = [x.b for x in f.calls() if x.callee in ('__cxa_guard_release', '__cxa_guard_abort')]
            if t['op'] == 'br' and len(t['to']) == 2:
                for s in t['to']:
                    if dominated(f, site.b, s) and any(r in f.reach([s]) for r in rel):
                        return True
    return False


def is_registration(f):
    return bool(re.search(r'(^|[ :])(register_type|TypeRegistration)<', f.dem))


def dominated(f, b, d):
    while b is not None and b >= 0:
        if b == d:
            return True
        nb = f.bbs[b].get('idom')
        if nb is None or nb == b:
            return False
        b = nb
    return False


def path(m, f):
    out = []
    seen = {f.name}
    while len(out) < 3:
        cs = [c.f for c in m.callers().get(f.name, []) if c.f.name not in seen]
        if not cs:
            break
        f = cs[0]
        seen.add(f.name)
        out.append(short(f.dem, 60))
    return ' (called from %s)' % ' <- '.join(out) if out else ''
