"""Loop abstraction: unrolling while decided, otherwise generalisation with inductive linear facts."""
from fractions import Fraction
from math import gcd
from build import Broken
from state import *
import absint

DECIDED_CAP = 300
MAX_NUM_SLOTS = 14


def subst(l, m):
    """replaces symbols by affine expressions"""
    if isinstance(l, int):
        return l
    r = l.c
    for s, k in l.t:
        x = m.get(s)
        r = ladd(r, lscale(x if x is not None else s.lin, k))
    return r


def refs(v, out):
    if isinstance(v, Ptr):
        out.add(v.obj)
        if isinstance(v.off, Lin):
            refs(v.off, out)
    elif isinstance(v, Lin):
        for s, _ in v.t:
            if s.defn and s.defn[0] == 'addr':
                out.add(s.defn[1])
    elif isinstance(v, tuple):
        for x in v:
            refs(x, out)


HEAP = ('vec', 'heap', 'exc')


def gc(I, env, st):
    """drops heap objects nothing refers to any more"""
    heap = [k for k, o in st.mem.items() if o.kind in HEAP]
    if not heap:
        return
    root = set()
    for v in env.values():
        refs(v, root)
    for fr in I.frames[:-1]:
        e = getattr(fr, 'env', None)
        if e:
            for v in e.values():
                refs(v, root)
    todo = list(root) + [k for k, o in st.mem.items() if o.kind not in HEAP]
    seen = set()
    while todo:
        k = todo.pop()
        if k in seen or k not in st.mem:
            continue
        seen.add(k)
        out = set()
        for sz, v in st.mem[k].cells.values():
            refs(v, out)
        if isinstance(st.mem[k].extra, dict):
            for v in st.mem[k].extra.values():
                refs(v, out)
        todo += [x for x in out if x not in seen]
    for k in heap:
        if k not in seen:
            del st.mem[k]
            st.own.discard(k)


def pinned(I):
    out = set()
    for fr in I.frames[:-1]:
        e = getattr(fr, 'env', None)
        if e:
            for v in e.values():
                refs(v, out)
    return out


def rename_val(v, m):
    if isinstance(v, Ptr):
        return Ptr(m[v.obj], v.off) if v.obj in m else v
    if isinstance(v, tuple) and not (v and v[0] in ('sel', 'tid')):
        return tuple(rename_val(x, m) for x in v)
    return v


def rename(env, st, m):
    env = {k: rename_val(v, m) for k, v in env.items()}
    new = {}
    for k, o in st.mem.items():
        if any(isinstance(v, Ptr) and v.obj in m for _, v in o.cells.values()):
            o = o.copy()
            o.cells = {c: (sz, rename_val(v, m)) for c, (sz, v) in o.cells.items()}
        new[m.get(k, k)] = o
    st.mem = new
    st.own = set()
    return env, st


def align(I, a, b):
    """renames heap objects of b after the ones at the same places of a"""
    (ea, sa), (eb, sb) = a, b
    pin = pinned(I)
    m, taken = {}, set()
    todo = []

    def pair(va, vb):
        if isinstance(va, Ptr) and isinstance(vb, Ptr):
            if va.obj == vb.obj:
                return
            oa, ob = sa.mem.get(va.obj), sb.mem.get(vb.obj)
            if oa is None or ob is None or oa.kind not in HEAP or ob.kind not in HEAP or oa.dead != ob.dead:
                return
            if vb.obj in m or vb.obj in pin or va.obj in taken:
                return
            if va.obj in sb.mem and va.obj not in m:
                return
            m[vb.obj] = va.obj
            taken.add(va.obj)
            todo.append((va.obj, vb.obj))
        elif isinstance(va, tuple) and isinstance(vb, tuple):
            for x, y in zip(va, vb):
                pair(x, y)
    for k in ea:
        if k in eb:
            pair(ea[k], eb[k])
    for k, o in list(sa.mem.items()):
        q = sb.mem.get(k)
        if q is not None:
            for c, (sz, v) in o.cells.items():
                x = q.cells.get(c)
                if x is not None:
                    pair(v, x[1])
    while todo:
        ka, kb = todo.pop()
        for c, (sz, v) in sa.mem[ka].cells.items():
            x = sb.mem[kb].cells.get(c)
            if x is not None:
                pair(v, x[1])
    if not m:
        return b
    # several objects may swap names
    tmp = {k: ('tmp', k) for k in m}
    e, s = rename(eb, sb, tmp)
    return rename(e, s, {('tmp', k): v for k, v in m.items()})


class Slots:
    """what may differ between states at a loop header"""


def discrete(v, small):
    if isinstance(v, Ptr):
        return ('p', v.obj)
    if isinstance(v, int):
        return ('d', v) if small else 'num'
    if isinstance(v, (Lin, Bits)):
        return 'num'
    if isinstance(v, (Cmp,)):
        return 'cmp'
    if isinstance(v, (Fp, FSym)):
        return 'fp'
    if isinstance(v, Fn):
        return v
    if isinstance(v, Unk):
        return 'unk'
    if isinstance(v, tuple):
        return tuple(discrete(x, small) for x in v)
    return v


def small_type(ty):
    return ty in ('i1', 'i8')


def key_of(I, f, b, env, st, coarse):
    tys = I.info[f.name][2]
    k = []
    for i, v in env.items():
        k.append((i, discrete(v, not coarse and small_type(tys.get(i)))))
    m = []
    for o, q in st.mem.items():
        if q.ro or (q.kind == 'lazy' and not q.cells):
            continue
        if q.kind == 'glob' and q.dflt != 'lazy':
            pass
        cells = []
        for c, (sz, v) in q.cells.items():
            if isinstance(v, (Ptr, Fn)):
                if isinstance(v, Ptr) and isinstance(v.obj, tuple) and v.obj[0] == 'L':
                    continue
                cells.append((c, discrete(v, False)))
            elif isinstance(v, int) and sz == 1 and not coarse and isinstance(c, int) and len(q.cells) <= 24:
                cells.append((c, v))
        m.append((o, q.dead, frozenset(cells)))
    gh = frozenset((a, repr(x) if not isinstance(x, (int, str, tuple, frozenset)) else x) for a, x in st.ghost.items()
                   if a not in I.ghost_join and a != 'caught')
    return (frozenset(k), frozenset(m), gh)


def is_default(I, k, o, c, sz, v):
    if o.dflt == 'undef':
        return True
    if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1:
        kk = v.t[0][0].key
        return isinstance(kk, tuple) and kk[0] == 'm' and kk[3] == c and kk[1] == (o.src or k)
    if isinstance(v, Ptr) and isinstance(v.obj, tuple) and v.obj[0] == 'L' and v.off == 0:
        return True
    if isinstance(v, FSym):
        return isinstance(v.key, tuple) and v.key[0] == 'm' and v.key[3] == c
    if o.dflt == 'zero':
        return v == 0 or v == NULL
    return False


class Group:
    def __init__(self, inv, n):
        self.samples = []
        self.entries = 0
        self.widened = set()
        self.killed = set()
        self.inv, self.n = inv, n
        self.G = None
        self.topobj = set()
        self.dropped = set()
        self.syms = {}
        self.fwide = {}
        self.builds = 0
        self.birth = {}
        self.known = set()

    def slotsym(self, slot):
        s = self.syms.get(slot)
        if s is None:
            s = self.syms[slot] = sym(('loop', self.inv, self.n, slot), -INF, INF)
        return s

    def build(self, I, f):
        """the join of the samples"""
        self.builds += 1
        S = self.samples
        e0, s0 = S[0]
        G = s0.fork()
        genv = {}
        bind = [dict() for _ in S]          # loop symbol -> value
        fslots, num = [], []

        def gen(slot, vals, bits):
            v0 = vals[0]
            if slot not in self.widened and all(v == v0 for v in vals):
                return v0
            self.widened.add(slot)
            if all(isinstance(v, Ptr) for v in vals) and all(v.obj == v0.obj for v in vals):
                off = gen(slot + ('o',), [v.off for v in vals], None)
                return Ptr(v0.obj, off)
            if all(isinstance(v, (int, Lin, Bits)) for v in vals):
                s = self.slotsym(slot)
                for i, v in enumerate(vals):
                    v = as_lin(v)
                    if bits and isinstance(v, Lin):
                        st = S[i][1]
                        m = 1 << bits
                        if not (st.entails(v) and st.entails(lsub(m - 1, v))):
                            try:
                                v = st.to_u(v, bits)
                            except Split:
                                pass
                    bind[i][s] = v
                num.append((s, bits))
                return s.lin
            if all(isinstance(v, (Fp, FSym)) for v in vals):
                w = v0.w
                fs = fsym(('loop', self.inv, self.n, slot), w)
                fslots.append((fs, slot, vals))
                return fs
            if all(isinstance(v, (int, Cmp, Lin)) for v in vals):
                s = sym(('loopb', self.inv, self.n, slot), 0, 1)
                return Cmp('ne', s.lin, None, 0)
            if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
                return tuple(gen(slot + (i,), [v[i] for v in vals], None) for i in range(len(v0)))
            return Unk(('loop', self.inv, self.n, slot))
        tys = I.info[f.name][2]
        for i in e0:
            if all(i in e for e, _ in S):
                genv[i] = gen(('e', i), [e[i] for e, _ in S], absint.tbits(tys.get(i, 'ptr')) if isinstance(tys.get(i), str) else None)
        for k, o0 in list(s0.mem.items()):
            objs = [s.mem.get(k) for _, s in S]
            if any(o is None for o in objs):
                if o0.kind in ('lazy', 'glob') or o0.kind in HEAP or k[0] == 'errno':
                    if o0.kind not in ('lazy', 'glob'):
                        self.dropped.add(k)
                    if not all(o is None or (o.kind in ('lazy', 'glob') and all(is_default(I, k, o, c, *x) for c, x in o.cells.items())) for o in objs):
                        # someone changed it: unknown from now on
                        self.topobj.add(k)
                        objs = [o for o in objs if o is not None]
                        q = o0.copy()
                        q.cells, q.dflt, q.segs, q.ver = {}, 'lazy', (), ('top', self.inv, self.n)
                        if o0.kind in HEAP:
                            del G.mem[k]
                        else:
                            G.add(k, q)
                    continue
                del G.mem[k]
                continue
            if k not in self.topobj and all(o.same(objs[0]) for o in objs) and not any(sl in self.widened for sl in ()):
                if not any((('m', k, c) in self.widened) for c in objs[0].cells):
                    continue
            q = o0.copy()
            G.add(k, q)
            if any(not isinstance(o.size, type(None)) for o in objs) and all(isinstance(o.size, (int, Lin)) for o in objs):
                q.size = gen(('z', k), [o.size for o in objs], None)
            if any(o.dead != o0.dead for o in objs):
                q.dead = q.dead or 'released'
            if isinstance(o0.extra, dict):
                q.extra = {x: gen(('x', k, x), [o.extra[x] for o in objs], None) for x in o0.extra}
            same_base = all(o.dflt == o0.dflt and o.ver == o0.ver and o.segs == o0.segs for o in objs)
            cells = {}
            drop = False
            allc = []
            for o in objs:
                for c in o.cells:
                    if c not in allc:
                        allc.append(c)
            for c in allc:
                xs = [o.cells.get(c) for o in objs]
                if any(x is None or x[0] != (xs[0] or (0,))[0] for x in xs) or not isinstance(c, int):
                    if any(x is not None and not is_default(I, k, o, c, *x) for x, o in zip(xs, objs)):
                        if isinstance(c, int) and all(x is None or x[0] == 8 or True for x in xs) and o0.dflt in ('lazy',) and same_base:
                            # the missing ones hold the default symbol
                            sizes = {x[0] for x in xs if x is not None}
                            if len(sizes) == 1:
                                sz = sizes.pop()
                                vals = []
                                for x, o in zip(xs, objs):
                                    if x is not None:
                                        vals.append(x[1])
                                    else:
                                        ref = next(y[1] for y in xs if y is not None)
                                        t = 'ptr' if isinstance(ref, (Ptr, Fn)) else 'double' if isinstance(ref, (Fp, FSym)) and sz == 8 else 'i%d' % (8 * sz)
                                        vals.append(I.mkfresh(t, sz, ('m', o.src or k, o.ver, c)))
                                cells[c] = (sz, gen(('m', k, c), vals, 8 * sz if sz <= 8 else None))
                                continue
                        drop = True
                    continue
                cells[c] = (xs[0][0], gen(('m', k, c), [x[1] for x in xs], 8 * xs[0][0] if xs[0][0] <= 8 else None))
            q.cells = cells
            if drop or not same_base or k in self.topobj:
                self.topobj.add(k)
                q.dflt, q.segs, q.ver = 'lazy', (), ('top', self.inv, self.n)
        for k in list(G.mem):
            if k not in s0.mem:
                del G.mem[k]
        for gname in I.ghost_join:
            vals = [s.ghost.get(gname) for _, s in S]
            if vals[0] is None:
                continue
            G.ghost[gname] = I.ghost_join[gname](gen, ('g', gname), vals)
        # knowledge about symbols of the surroundings
        base = s0
        ents = [s for _, s in S[:self.entries]]
        if len(ents) > 1:
            base = I.join_facts(ents)
        own = set(self.syms.values())
        facts, iv, mask = set(), {}, {}
        for fct in base.facts:
            if not any(t in own for t, _ in fct.t) and fct not in self.killed and all(s.entails(fct) for _, s in S[self.entries:]):
                facts.add(fct)
            else:
                self.killed.add(fct)
        for y in base.iv:
            if y in own:
                continue
            rs = [s.srange(y) for _, s in S]
            lo, hi = min(r[0] for r in rs), max(r[1] for r in rs)
            if (lo, hi) != (y.lo, y.hi):
                iv[y] = (lo, hi)
        for y in base.mask:
            m = 0
            for _, s in S:
                m |= s.mask.get(y, (1 << 256) - 1)
            if m != (1 << 256) - 1:
                mask[y] = m
        G.facts, G.iv, G.mask = frozenset(facts), iv, mask
        G.ne = frozenset(x for x in base.ne if all(s.is_zero(x) is False for _, s in S))
        fl = {}
        for y, r in base.fl.items():
            if isinstance(y, tuple):
                if all(s.fl.get(y) == r for _, s in S):
                    fl[y] = r
                continue
            rs = [s.frange(y) for _, s in S]
            fl[y] = (min(r[0] for r in rs), max(r[1] for r in rs), any(r[2] for r in rs))
        for fs, slot, vals in fslots:
            rs = [S[i][1].frange(v) for i, v in enumerate(vals)]
            r = (min(x[0] for x in rs), max(x[1] for x in rs), any(x[2] for x in rs))
            if self.fwide.get(slot, r) != r:
                r = (-INF, INF, True)
            self.fwide[slot] = r
            fl[fs] = r
        G.fl = fl
        G.null = {k: v for k, v in s0.null.items() if all(s.null.get(k) == v for _, s in S)}
        # candidate facts about the loop symbols
        self.envlims = [v.off if isinstance(v, Ptr) else v for v in genv.values()]
        for v in genv.values():
            if isinstance(v, Ptr) and v.obj in G.mem and isinstance(v.off, Lin):
                self.envlims.append(G.mem[v.obj].size)
        sts = [s for _, s in S]
        for s, _ in num:
            self.birth.setdefault(s, self.builds)
        cands = self.candidates(num, bind, sts, G)
        for c in cands:
            if c in self.killed or isinstance(c, int):
                continue
            if c not in self.known:
                # facts about older symbols only: no more candidates, or bounds would creep
                if all(self.builds - self.birth.get(t, self.builds - 9) > 2 for t, _ in c.t):
                    continue
                self.known.add(c)
            ok = True
            for i, s in enumerate(sts):
                x = subst(c, bind[i])
                if not (x >= 0 if isinstance(x, int) else s.entails(x)):
                    ok = False
                    break
            if ok:
                if not G.assume_ge(c):
                    raise Broken('contradictory loop abstraction')
            else:
                self.killed.add(c)
        self.G = (genv, G)
        self.num = [s for s, _ in num]
        return self.G

    def candidates(self, num, bind, sts, G):
        out, seen = [], set()

        def add(l):
            if not isinstance(l, int) and l not in seen:
                seen.add(l)
                out.append(l)
        ns = [s for s, _ in num]
        for s, bits in num:
            if bits:
                m = 1 << bits
                add(s.lin)
                add(lsub(m - 1, s.lin))
                add(ladd(s.lin, m >> 1))
                add(lsub((m >> 1) - 1, s.lin))
            else:
                add(s.lin)
                add(lsub(1 << 63, s.lin))
                add(ladd(s.lin, 1 << 63))
            for i in range(len(sts)):
                v = bind[i][s]
                lo, hi = sts[i].range(v)
                if i < self.entries or (isinstance(v, int) and self.builds <= 2):
                    if lo != -INF:
                        add(ladd(s.lin, -lo))
                    if hi != INF:
                        add(lsub(hi, s.lin))
                if i < self.entries and not isinstance(v, int):
                    add(lsub(s.lin, v))
                    add(lsub(v, s.lin))
        # limits: values the loop does not change, sizes of what is walked through
        own = set(ns)
        lim = []
        for v in self.envlims:
            if isinstance(v, Lin) and not any(t in own for t, _ in v.t) and v not in lim:
                lim.append(v)
        for s, bits in num[:MAX_NUM_SLOTS]:
            for v in lim[:8]:
                add(lsub(v, s.lin))
        small = ns[:MAX_NUM_SLOTS]
        for a in range(len(small)):
            for b in range(a + 1, len(small)):
                x, y = small[a], small[b]
                ex, ey = bind[0][x], bind[0][y]
                d0 = lsub(ex, ey)
                dl = lsub(lsub(x.lin, y.lin), d0)
                add(dl)
                add(lscale(dl, -1))
                sm = lsub(ladd(x.lin, y.lin), ladd(ex, ey))
                add(sm)
                add(lscale(sm, -1))
                rat = []
                for i in range(1, len(sts)):
                    dx, dy = lsub(bind[i][x], ex), lsub(bind[i][y], ey)
                    # steps relative to the previous abstraction count as well
                    for px, py in ((dx, dy), (lsub(bind[i][x], x.lin), lsub(bind[i][y], y.lin))):
                        if isinstance(px, int) and isinstance(py, int) and (px or py):
                            rat.append((px, py))
                for px, py in dict.fromkeys(rat):
                    if px and py:
                        g = gcd(px, py)
                        p, q = px // g, py // g
                        l = lsub(lscale(lsub(x.lin, ex), q), lscale(lsub(y.lin, ey), p))
                        add(l)
                        add(lscale(l, -1))
        # facts of the samples restated for the loop symbols
        for i, s in enumerate(sts):
            inv = {}
            for sl in ns:
                v = bind[i][sl]
                if isinstance(v, Lin):
                    for x, k in v.t:
                        if k in (1, -1):
                            # x = k * (sl - rest)
                            rest = lsub(v, lscale(x.lin, k))
                            if len(v.t) <= 3:
                                inv.setdefault(x, []).append(lscale(lsub(sl.lin, rest), k))
            if not inv:
                continue
            fs = [fct for fct in s.facts if any(t in inv for t, _ in fct.t)]
            for x in inv:
                lo, hi = s.srange(x)
                if lo != -INF:
                    fs.append(Lin(-lo, ((x, 1),)))
                if hi != INF:
                    fs.append(Lin(hi, ((x, -1),)))
            for fct in fs[:80]:
                combos = [{}]
                for t, _ in fct.t:
                    if t in inv:
                        opts = inv[t][:4]
                        combos = [dict(c, **{}) | {t: o} for c in combos for o in opts + ([None] if t not in self.syms.values() else [])]
                        combos = combos[:24]
                for c in combos:
                    add(subst(fct, {k: v for k, v in c.items() if v is not None}))
        for c in self.known:
            add(c)
        return out

    def included(self, I, f, cfg):
        """is a state described by the abstraction?"""
        genv, G = self.G
        env, st = cfg
        bind = {}
        fb = []

        def match(g, v):
            if g is v or g == v:
                if isinstance(g, Lin) and any(t in own for t, _ in g.t):
                    pass
                else:
                    return True
            if isinstance(g, Lin) and g.c == 0 and len(g.t) == 1 and g.t[0][0] in own and g.t[0][1] == 1:
                if not isinstance(v, (int, Lin, Bits)):
                    return False
                s = g.t[0][0]
                v = as_lin(v)
                b = bits.get(s)
                if b and isinstance(v, Lin) and not (st.entails(v) and st.entails(lsub((1 << b) - 1, v))):
                    try:
                        v = st.to_u(v, b)
                    except Split:
                        pass
                elif b and isinstance(v, int):
                    v %= 1 << b
                if s in bind:
                    return bind[s] == v
                bind[s] = v
                return True
            if isinstance(g, Ptr) and isinstance(v, Ptr):
                return g.obj == v.obj and match(g.off, v.off)
            if isinstance(g, FSym) and g.key[0] == 'loop' and isinstance(v, (Fp, FSym)):
                a, b = G.frange(g), st.frange(v)
                return a[0] <= b[0] and b[1] <= a[1] and (a[2] or not b[2])
            if isinstance(g, Cmp) and g.pred == 'ne' and isinstance(g.a, Lin) and g.a.t[0][0].key[0] == 'loopb':
                return True
            if isinstance(g, Unk):
                return True
            if isinstance(g, tuple) and isinstance(v, tuple) and len(g) == len(v):
                return all(match(x, y) for x, y in zip(g, v))
            return False
        own = set(self.syms.values())
        bits = {}
        tys = I.info[f.name][2]
        for slot, s in self.syms.items():
            if slot[0] == 'e' and len(slot) == 2:
                bits[s] = absint.tbits(tys.get(slot[1], 'ptr')) if isinstance(tys.get(slot[1]), str) else None
            elif slot[0] == 'm' and len(slot) == 3:
                c = G.mem[slot[1]].cells.get(slot[2]) if slot[1] in G.mem else None
                bits[s] = 8 * c[0] if c and c[0] <= 8 else None
        for i, g in genv.items():
            if i not in env or not match(g, env[i]):
                return 'value %s' % i
        for k, o in G.mem.items():
            q = st.mem.get(k)
            if q is None:
                if o.kind in ('lazy', 'glob'):
                    continue
                return 'object %r' % (k,)
            if o is q:
                continue
            if o.size is not None and (q.size is None or not match(o.size, q.size)):
                return 'size of %r' % (k,)
            if q.dead and not o.dead:
                return 'lifetime of %r' % (k,)
            if isinstance(o.extra, dict):
                for x in o.extra:
                    if not match(o.extra[x], q.extra[x]):
                        return 'extra'
            top = isinstance(o.ver, tuple) and o.ver[0] == 'top'
            if not top and (o.dflt != q.dflt or o.ver != q.ver or o.segs != q.segs):
                return 'contents of %r' % (k,)
            for c, (sz, g) in o.cells.items():
                x = q.cells.get(c)
                if x is None:
                    if is_default(I, k, o, c, sz, g):
                        continue
                    if o.dflt == 'lazy' and not top:
                        x = (sz, I.mkfresh('ptr' if isinstance(g, (Ptr, Fn)) else 'i%d' % (8 * sz), sz, ('m', q.src or k, q.ver, c)))
                    else:
                        return 'cell %r of %r' % (c, k)
                if x[0] != sz or not match(g, x[1]):
                    return 'cell %r of %r' % (c, k)
            if not top:
                for c, (sz, v) in q.cells.items():
                    if c not in o.cells and not is_default(I, k, q, c, sz, v):
                        return 'new cell %r of %r' % (c, k)
        for k, q in st.mem.items():
            if k not in G.mem and q.kind not in ('lazy', 'glob') and k[0] != 'errno':
                return 'new object %r' % (k,)
            if k not in G.mem and q.kind in ('lazy', 'glob') and not q.ro:
                for c, (sz, v) in q.cells.items():
                    if not is_default(I, k, q, c, sz, v) and q.kind == 'lazy':
                        return 'changed object %r' % (k,)
        for g in I.ghost_join:
            if g in G.ghost and not match(G.ghost[g], st.ghost.get(g)):
                return 'ghost ' + g
        for fct in G.facts:
            x = subst(fct, bind)
            if not (x >= 0 if isinstance(x, int) else st.entails(x)):
                return 'fact %r' % fct
        for s, (lo, hi) in G.iv.items():
            v = bind.get(s, s.lin if s not in own else None)
            if v is None:
                continue
            if lo != -INF:
                x = ladd(v, -lo)
                if not (x >= 0 if isinstance(x, int) else st.entails(x)):
                    return 'lower bound %r' % s
            if hi != INF:
                x = lsub(hi, v)
                if not (x >= 0 if isinstance(x, int) else st.entails(x)):
                    return 'upper bound %r' % s
        for s, m in G.mask.items():
            if st.mask.get(s, (1 << 256) - 1) & ~m:
                return 'byte set'
        for x in G.ne:
            y = subst(x, bind)
            if st.is_zero(y) is not False:
                return 'inequality'
        for k, v in G.null.items():
            if st.null.get(k) != v:
                return 'null state'
        return None


def run_loop(I, f, b, cfgs):
    info = I.info[f.name]
    limit = I.unroll_limit(f)
    for e, s in cfgs:
        gc(I, e, s)
    start = I.merge_cfgs(f, b, cfgs)
    saved = [(dict(e), s.fork()) for e, s in start]
    exits, outs = {}, []
    work, n, undecided = start, 0, 0
    history = []
    while work:
        back, ex, ou = I.region(f, True, b, [(dict(e), s.fork()) for e, s in work])
        for t, cs in ex.items():
            exits.setdefault(t, []).extend(cs)
        outs += ou
        n += 1
        if ex or len(back) > len(work):
            undecided += 1
        for e, s in back:
            gc(I, e, s)
        work = I.merge_cfgs(f, b, back)
        history.append(work)
        if not work:
            return exits, outs
        if undecided >= limit or n >= max(DECIDED_CAP, I.decided_cap) or len(work) > I.max_work:
            break
    if I.debug:
        print("   generalise", f.dem[:60], n, undecided, len(work))
    # generalise
    I.uid += 1
    inv = I.uid
    groups, order = {}, []
    coarse = False
    nth = 0
    for attempt in range(2):
        groups, order = {}, []
        fail = False
        for rnd, cs in enumerate([saved] + history[:2]):
            for c in cs:
                k = key_of(I, f, b, c[0], c[1], coarse)
                place(I, f, b, groups, order, k, (dict(c[0]), c[1].fork()), inv, rnd == 0, coarse)
        if len(order) > 10 and not coarse:
            coarse = True
            continue
        break
    I.mute += 1
    try:
        for it in range(I.loopcap + 1):
            if it == I.loopcap:
                raise Broken('no invariant found for the loop at %s of %s (%s)' % (f.loc(f.bbs[b]['insts'][-1]), f.dem, why))
            gs = [g for g in order]
            for g in gs:
                g.build(I, f)
            changed = False
            why = None
            for g in gs:
                e, s = g.G
                back, ex, ou = I.region(f, True, b, [(dict(e), s.fork())])
                for e2, s2 in back:
                    gc(I, e2, s2)
                for c in I.merge_cfgs(f, b, back):
                    k, c = locate(I, f, b, groups, order, c, coarse)
                    if k is None:
                        k = key_of(I, f, b, c[0], c[1], coarse)
                        place(I, f, b, groups, order, k, c, inv, True, coarse)
                        if len(order) > 24:
                            raise Broken('too many shapes at the loop of %s' % f.dem)
                        changed, why = True, 'a new shape'
                        continue
                    h = groups[k]
                    if h.G is None:
                        changed = True
                        continue
                    w = h.included(I, f, c)
                    if w is not None:
                        changed, why = True, w
                        if I.debug:
                            print('   loop', f.dem[:50], b, 'round', it, w)
                        h.samples.append(c)
                        if len(h.samples) > h.entries + 6:
                            del h.samples[h.entries]
            if not changed:
                break
    finally:
        I.mute -= 1
    exits, outs = {}, []
    for g in order:
        e, s = g.G
        back, ex, ou = I.region(f, True, b, [(dict(e), s.fork())])
        for t, cs in ex.items():
            exits.setdefault(t, []).extend(cs)
        outs += ou
    return exits, outs


def place(I, f, b, groups, order, k, c, inv, entry, coarse):
    k2, c = locate(I, f, b, groups, order, c, coarse)
    if k2 is None:
        g = groups[key_of(I, f, b, c[0], c[1], coarse)] = Group(inv, len(order))
        order.append(g)
        g.samples.append(c)
        g.entries = 1
        return g
    g = groups[k2]
    if entry:
        g.samples.insert(g.entries, c)
        g.entries += 1
    else:
        g.samples.append(c)
    return g


def locate(I, f, b, groups, order, c, coarse):
    k = key_of(I, f, b, c[0], c[1], coarse)
    if k in groups:
        return k, c
    for kk, g in groups.items():
        a = align(I, g.samples[0], (dict(c[0]), c[1].fork()))
        if key_of(I, f, b, a[0], a[1], coarse) == kk:
            return kk, a
    return None, c
