"""Flow-insensitive, interprocedural address flow: which instructions see (a pointer into) a global."""
from ir import short

COPY = {'bitcast', 'phi', 'select', 'freeze', 'addrspacecast'}
WRITERS = ('llvm.memcpy', 'llvm.memmove', 'llvm.memset', 'memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'strcat', 'sprintf', 'snprintf')


def refs(v, out):
    """global names a constant or operand refers to"""
    if isinstance(v, list):
        if len(v) == 2 and v[0] == 'g' and isinstance(v[1], str):
            out.add(v[1])
        else:
            for x in v:
                if isinstance(x, list):
                    refs(x, out)


def labels(v, ids, glob):
    """where a value may come from: 'G' the global itself, i the i-th parameter"""
    if not isinstance(v, list) or not v:
        return frozenset()
    if v[0] == '%':
        return ids.get(v[1], frozenset())
    if v[0] == 'g':
        return frozenset('G') if v[1] == glob else frozenset()
    if v[0] == 'ge':
        return labels(v[1], ids, glob)
    if v[0] == 'ce':
        out = frozenset()
        for o in v[3]:
            out |= labels(o, ids, glob)
        return out
    return frozenset()


class Flow:
    """tracks one global through the module: writes, escapes and reads, with the call sites they came through"""

    def __init__(self, m, glob, users, is_init):
        self.m, self.glob, self.is_init = m, glob, is_init
        self.par = {}          # function -> tainted parameter indices
        self.ret = {}          # function -> labels it returns
        self.via = {}          # function -> call sites that handed the address down
        self.root = set()      # functions that name the global, or get it from a callee's result
        self.users = set(users)
        self.work = set(users)
        self.writes, self.escapes, self.reads = [], [], 0
        self.done = set()
        while self.work:
            self.visit(self.work.pop())

    def once(self, kind, x, to):
        k = (kind, x.f.name, x.b, x.i)
        if k not in self.done:
            self.done.add(k)
            to.append(x)

    def visit(self, name):
        m, glob = self.m, self.glob
        f = m.funcs[name]
        if f.decl:
            return
        ids = {f.d['args'][i]['id']: frozenset([i]) for i in self.par.get(name, ()) if i < len(f.d['args'])}
        slots = {}
        change = True
        L = lambda v: labels(v, ids, glob)
        none = frozenset()
        while change:
            change = False
            for x in f.insts:
                d = x.d
                op = d['op']
                if op == 'store':
                    t = L(d['v'])
                    if t and d['p'][0] == '%' and not t <= slots.get(d['p'][1], none):
                        q = f_def(f, d['p'][1])
                        if q is not None and q['op'] == 'alloca':
                            slots[d['p'][1]] = slots.get(d['p'][1], none) | t
                            change = True
                if 'id' not in d:
                    continue
                t = none
                if op == 'getelementptr':
                    t = L(d['base'])
                elif op == 'phi':
                    for o, _ in d['in']:
                        t |= L(o)
                elif op in COPY:
                    for o in d.get('ops', ()):
                        t |= L(o)
                elif op == 'load':
                    t = slots.get(d['p'][1], none) if d['p'][0] == '%' else none
                elif op in ('call', 'invoke'):
                    for r in self.ret.get(x.callee, ()):
                        t |= frozenset('G') if r == 'G' else L(d['args'][r]) if r < len(d['args']) else none
                    if 'G' in self.ret.get(x.callee, ()):
                        self.root.add(name)
                if not t <= ids.get(d['id'], none):
                    ids[d['id']] = ids.get(d['id'], none) | t
                    change = True
        if self.is_init(f):
            return
        for x in f.insts:
            d = x.d
            op = d['op']
            if op == 'store':
                if L(d['p']):
                    self.once('w', x, self.writes)
                elif L(d['v']) and not (d['p'][0] == '%' and d['p'][1] in slots):
                    self.once('e', x, self.escapes)
            elif op == 'load' and L(d['p']):
                self.reads += 1
            elif op == 'ret':
                t = none
                for o in d.get('ops', ()):
                    t |= L(o)
                if not t <= frozenset(self.ret.get(name, ())):
                    self.ret.setdefault(name, set()).update(t)
                    for c in m.callers().get(name, ()):
                        self.work.add(c.f.name)
            elif op in ('atomicrmw', 'cmpxchg'):
                if L(d.get('p') or (d.get('ops') or [None])[0]):
                    self.once('w', x, self.writes)
            elif op in ('call', 'invoke'):
                hit = [i for i, a in enumerate(d['args']) if L(a)]
                c = x.callee
                if not hit or c is None:
                    continue
                t = m.funcs[c]
                if any(c.startswith(w) for w in WRITERS):
                    if 0 in hit:
                        self.once('w', x, self.writes)
                    continue
                if c.startswith(('llvm.', '__cxa_guard', '__cxa_atexit')):
                    continue
                if t.decl:
                    if not reads_only(t, hit):
                        self.once('w', x, self.writes)
                    continue
                self.via.setdefault(c, {})[(name, x.b, x.i)] = x
                old = self.par.setdefault(c, set())
                if not set(hit) <= old:
                    old |= set(hit)
                    self.work.add(c)

    def chains(self, w, ok):
        """True if every way the address got to this write passes a frame that ok(function, site) accepts"""
        users = self.users
        todo, seen = [w], set()
        while todo:
            x = todo.pop()
            k = (x.f.name, x.b, x.i)
            if k in seen:
                continue
            seen.add(k)
            if ok(x.f, x):
                continue
            if x.f.name in users or x.f.name in self.root:
                return False
            up = self.via.get(x.f.name, {})
            if not up:
                return False
            todo += list(up.values())
        return True


def f_def(f, i):
    c = f.__dict__.get('_defs')
    if c is None:
        c = {x.d['id']: x.d for x in f.insts if 'id' in x.d}
        f.__dict__['_defs'] = c
    return c.get(i)


def params(dem):
    """parameter types of a demangled declaration"""
    p = dem.rfind(')')
    d, i = 0, p
    while i >= 0:
        if dem[i] == ')':
            d += 1
        elif dem[i] == '(':
            d -= 1
            if d == 0:
                break
        i -= 1
    if i < 0:
        return [], False
    out, cur, d = [], '', 0
    for c in dem[i + 1:p]:
        if c in '<(':
            d += 1
        elif c in '>)':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out, dem[p:].endswith(' const')


def reads_only(t, hit):
    """external function that cannot write through the given arguments, judged by its declared types"""
    if t.name in ('memcmp', 'strlen', 'strcmp', 'strncmp', 'iconv_open', 'fwrite', 'bcmp', 'strtod_l'):
        return True
    ps, cm = params(t.dem)
    if '(' not in t.dem:
        return False
    member = '::' in t.dem.split('(')[0]
    sret = 1 if t.d.get('args') and t.d['args'][0].get('sret') else 0
    for i in hit:
        if sret and i == 0:
            return False
        i -= sret
        if member and i == 0:
            if not cm:
                return False
        else:
            k = i - 1 if member else i
            if k >= len(ps):
                return False
            if 'const' not in ps[k] and ps[k].endswith(('&', '*')):
                return False
    return True
