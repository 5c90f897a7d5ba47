"""Error discipline: every detected failure reaches the caller as Srl::Exception."""
import re
from common import api
from build import Broken
from ir import short

# std functions that throw something else than Srl::Exception on bad *values* (not on exhausted memory)
THROWERS = ('__throw_out_of_range', '__throw_invalid_argument', '__throw_bad_optional_access',
            '__throw_bad_variant_access', '__throw_bad_cast', '__throw_domain_error', '__throw_range_error')
KILLERS = {'abort', 'exit', '_exit', 'quick_exit', '_ZSt9terminatev', 'raise', '__assert_fail', 'longjmp', 'kill',
           '_ZSt10unexpectedv', '_Exit'}


def run(rep):
    m = api()
    rep.explanation = (
        'Structural analysis of the type-checked program (LLVM IR of the library plus an instantiation of the public '
        'templates): every throw site, every exception handler, every error callback and every call that could end the '
        'process or throw a foreign exception type is enumerated and judged.')
    repo = m.repo_funcs()
    rep.analysed['functions'] = len(repo)
    exc = '_ZTIN3Srl9ExceptionE'
    if exc not in m.globals:
        raise Broken('Srl::Exception has no type info')

    # classes derived from Srl::Exception count as Srl::Exception
    derived = {exc}
    grow = True
    while grow:
        grow = False
        for n, g in m.globals.items():
            if n.startswith('_ZTI') and n not in derived:
                for _, _, c in g.get('init') or []:
                    if c and c[0] == 'g' and c[1] in derived:
                        derived.add(n)
                        grow = True

    # R1: throw sites
    for f in repo:
        for x in f.calls():
            if x.callee == '__cxa_throw':
                t = x.d['args'][1]
                name = t[1] if t[0] == 'g' else str(t)
                rep.check(name in derived, 'throws-only-Srl::Exception', x.where,
                          '%s throws %s' % (short(f.dem), name), '%s in %s' % (x.where, short(f.dem, 60)))
    rep.need('throws-only-Srl::Exception', 20)

    # R2: handlers rethrow, convert or belong to a function that reports failure as an empty optional
    for f in repo:
        for b, bb in enumerate(f.bbs):
            for i, d in enumerate(bb['insts']):
                if d['op'] in ('call', 'invoke') and d['fn'] == ['F', '__cxa_begin_catch']:
                    seen, todo, swallow = set(), [b], None
                    while todo:
                        k = todo.pop()
                        if k in seen:
                            continue
                        seen.add(k)
                        insts = f.bbs[k]['insts']
                        if k == b:
                            insts = insts[i + 1:]
                        if any(q['op'] in ('call', 'invoke') and q['fn'] in (['F', '__cxa_rethrow'], ['F', '__cxa_throw'])
                               for q in insts):
                            continue
                        if insts[-1]['op'] == 'ret':
                            swallow = insts[-1]
                            break
                        todo += f.normal_succs(k)
                    where = f.loc(d)
                    opt = f.d.get('sig') and f.d['sig'][0].replace('const ', '').startswith('std::optional<')
                    rep.check(swallow is None or opt, 'handlers-do-not-swallow', where,
                              '%s catches an exception and returns normally' % short(f.dem), where + ' ' + short(f.dem, 60))
    rep.need('handlers-do-not-swallow', 5)

    # R3: error callbacks never return.  Objects of type In::Error with a fixed target, and their targets
    cbs = 0
    for f in m.defined():
        for x in f.calls():
            c = x.callee
            if not c:
                continue
            t = m.funcs[c]
            g = re.match(r'std::function<void \(\)>::function<(.*?)(, void)?>\(', t.dem)
            if not g or not (x.f.name.startswith('__cxx_global_var_init')):
                continue
            lam = g.group(1).strip()
            ops = [o for o in m.defined() if o.dem == lam + '::operator()() const' or o.dem.startswith(lam + '::operator()() const (')]
            inner = re.search(r'(\$_\d+|\{lambda.*)', lam)
            # anonymous-namespace lambdas of several units share a printed name; the one in the same file is meant
            ops = [o for o in ops if o.file == x.f.file] or ops
            cbs += 1
            if not ops:
                if re.search(r'\(\*\)|&', lam):
                    continue
                raise Broken('no body for callback %s' % lam)
            for o in ops:
                live = o.reach([0])
                ret = [q for q in o.insts if q.op == 'ret' and q.b in live]
                # a body ending in a call of a function that never returns ends in unreachable
                rep.check(not ret, 'error-callback-never-returns', o.where, '%s can return to the parser' % short(o.dem))
    rep.need('error-callback-never-returns', 3)

    # R4: nothing ends the process
    for f in repo:
        for x in f.calls():
            if x.callee in KILLERS:
                rep.bad('no-process-exit', x.where, '%s calls %s' % (short(f.dem), x.callee))
            elif x.callee:
                rep.rules.setdefault('no-process-exit', [0, 0])
                rep.rules['no-process-exit'][0] += 1
                rep.rules['no-process-exit'][1] += 1

    # R5: no std function that reports bad values with its own exception type
    memo = {}

    def throws_std(name, depth):
        """an inline std function that reports a bad value with a std exception of its own"""
        f = m.funcs.get(name)
        if f is None or f.in_repo:
            return None
        if any(t in name for t in THROWERS):
            return f.dem
        if f.decl or depth == 0:
            return None
        if name not in memo:
            memo[name] = None
            for x in f.calls():
                r = x.callee and throws_std(x.callee, depth - 1)
                if r:
                    memo[name] = r
                    break
        return memo[name]

    def foreign(name):
        f = m.funcs[name]
        base = f.dem.split('(')[0]
        if re.match(r'std::(__cxx11::)?(stoi|stol|stoll|stoul|stoull|stof|stod|stold)\b', base):
            return f.dem
        # exported members of std::string that check a position handed in by the caller
        g = re.search(r'basic_string<.*>::(at|substr|erase|insert|replace|compare|copy)\((.*?)\)', f.dem)
        if g and 'unsigned long' in g.group(2) and 'iterator' not in g.group(2):
            return f.dem
        return throws_std(name, 3)

    for f in repo:
        for x in f.calls():
            if x.callee and not m.funcs[x.callee].in_repo:
                r = foreign(x.callee)
                rep.check(not r, 'no-foreign-exception', x.where,
                          '%s calls %s, which reports failure through %s' % (short(f.dem), short(m.funcs[x.callee].dem), r and short(r, 60)))

    # R6: no Srl::Exception may meet a noexcept boundary
    may = {}
    rev = {}
    for f in m.defined():
        for x in f.calls():
            if x.callee:
                rev.setdefault(x.callee, set()).add(f.name)
            if x.callee == '__cxa_throw' and x.d['args'][1][0] == 'g' and x.d['args'][1][1] in derived:
                may[f.name] = x.where
    todo = list(may)
    while todo:
        n = todo.pop()
        for c in rev.get(n, ()):
            if c not in may and not m.funcs[c].d.get('nounwind'):
                may[c] = may[n]
                todo.append(c)
    for f in repo:
        for x in f.insts:
            if x.op != 'invoke':
                continue
            pad = f.bbs[x.d['unwind']]['insts']
            if any(q['op'] in ('call', 'invoke') and q['fn'] == ['F', '__clang_call_terminate'] for q in pad):
                c = x.callee
                rep.check(not (c and c in may), 'no-throw-through-noexcept', x.where,
                          '%s may throw Srl::Exception (%s) inside the noexcept %s' %
                          (c and short(m.funcs[c].dem), may.get(c), short(f.dem)))
        if f.d.get('nounwind'):
            for x in f.calls():
                if x.op == 'call' and x.callee == '__cxa_throw':
                    rep.bad('no-throw-through-noexcept', x.where, '%s is noexcept and throws' % short(f.dem))
    rep.assume = ['std::bad_alloc and exceptions of user code pass through unchanged',
                  'iostream objects do not have exceptions enabled']
