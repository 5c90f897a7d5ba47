"""Queries over the exported IR: functions, call graph, dominators, must-reach analyses."""
import re
from build import Broken


class Inst:
    __slots__ = ('f', 'b', 'i', 'd')

    def __init__(self, f, b, i, d):
        self.f, self.b, self.i, self.d = f, b, i, d

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def get(self, k, dflt=None):
        return self.d.get(k, dflt)

    @property
    def callee(self):
        fn = self.d.get('fn')
        return fn[1] if fn and fn[0] == 'F' else None

    @property
    def where(self):
        return self.f.loc(self.d)


class Func:
    def __init__(self, mod, name, d):
        self.mod, self.name, self.d = mod, name, d
        self.dem = d['dem']
        self.decl = d['decl']
        self.bbs = d.get('bbs', [])
        self._insts = None
        self._preds = None

    def __repr__(self):
        return self.dem

    @property
    def file(self):
        return self.d.get('file') or ''

    @property
    def in_repo(self):
        return self.file.startswith(self.mod.repo)

    def loc(self, d):
        l = d.get('loc')
        f = self.file
        if l:
            f, line = l[0], l[1]
        else:
            line = self.d.get('line', 0)
        if f.startswith(self.mod.repo + '/'):
            f = f[len(self.mod.repo) + 1:]
        return '%s:%s' % (f, line)

    @property
    def where(self):
        f = self.file
        if f.startswith(self.mod.repo + '/'):
            f = f[len(self.mod.repo) + 1:]
        return '%s:%s' % (f, self.d.get('line', 0))

    @property
    def insts(self):
        if self._insts is None:
            self._insts = [Inst(self, b, i, d) for b, bb in enumerate(self.bbs) for i, d in enumerate(bb['insts'])]
        return self._insts

    def calls(self):
        return [x for x in self.insts if x.op in ('call', 'invoke')]

    def succs(self, b):
        t = self.bbs[b]['insts'][-1]
        op = t['op']
        if op == 'br':
            return list(t['to'])
        if op == 'switch':
            return [t['def']] + [c[1] for c in t['cases']]
        if op == 'invoke':
            return [t['normal'], t['unwind']]
        return []

    def normal_succs(self, b):
        t = self.bbs[b]['insts'][-1]
        if t['op'] == 'invoke':
            return [t['normal']]
        return self.succs(b)

    @property
    def preds(self):
        if self._preds is None:
            p = [[] for _ in self.bbs]
            for b in range(len(self.bbs)):
                for s in self.succs(b):
                    p[s].append(b)
            self._preds = p
        return self._preds

    def defs(self):
        return {x.d['id']: x for x in self.insts if 'id' in x.d}

    def reach(self, start, normal_only=False, stop=()):
        """blocks reachable from the given blocks"""
        seen, todo = set(), list(start)
        while todo:
            b = todo.pop()
            if b in seen or b in stop:
                continue
            seen.add(b)
            todo += self.normal_succs(b) if normal_only else self.succs(b)
        return seen


class Module:
    def __init__(self, data, repo):
        self.repo = repo
        self.data = data
        self.funcs = {n: Func(self, n, d) for n, d in data['functions'].items()}
        self.globals = data['globals']
        self.types = data['types']
        self._callers = None
        self._vt = None

    def defined(self):
        return [f for f in self.funcs.values() if not f.decl]

    def repo_funcs(self):
        return [f for f in self.defined() if f.in_repo]

    def find(self, pat):
        r = re.compile(pat)
        return [f for f in self.funcs.values() if r.search(f.dem)]

    def one(self, pat):
        l = [f for f in self.find(pat) if not f.decl]
        if len(l) != 1:
            raise Broken('expected one function matching %s, found %d' % (pat, len(l)))
        return l[0]

    def callers(self):
        if self._callers is None:
            c = {}
            for f in self.defined():
                for x in f.calls():
                    if x.callee:
                        c.setdefault(x.callee, []).append(x)
            self._callers = c
        return self._callers

    def vtables(self):
        """vtable global -> list of function names (slot order), class name"""
        if self._vt is None:
            vt = {}
            for n, g in self.globals.items():
                if n.startswith('_ZTV') and g.get('init') is not None:
                    slots = []
                    for off, size, c in g['init']:
                        slots.append((off, c[1] if c and c[0] == 'F' else None))
                    vt[n] = slots
            self._vt = vt
        return self._vt

    def address_taken(self):
        """functions whose address is used other than as a callee"""
        out = {}
        def walk(v, where):
            if isinstance(v, list):
                if len(v) == 2 and v[0] == 'F' and isinstance(v[1], str):
                    out.setdefault(v[1], []).append(where)
                else:
                    for x in v:
                        walk(x, where)
        for f in self.defined():
            for x in f.insts:
                for k, v in x.d.items():
                    if k in ('loc',):
                        continue
                    if k == 'fn':
                        continue
                    walk(v, x)
        for n, g in self.globals.items():
            for e in g.get('init') or []:
                walk(e[2], n)
        return out

    def virtual_targets(self, slot):
        out = set()
        for n, slots in self.vtables().items():
            for off, fn in slots:
                if off == 16 + 8 * slot and fn:
                    out.add(fn)
        return out


def strip(v):
    """looks through constant casts / offset 0"""
    while isinstance(v, list) and v and v[0] == 'ge' and v[2] == 0:
        v = v[1]
    return v


def short(dem, n=110):
    return dem if len(dem) <= n else dem[:n - 3] + '...'
