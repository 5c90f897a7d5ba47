"""Abstract interpreter over the exported IR (disjunctive domain of affine values and linear facts).

Functions are interpreted context-sensitively; loops are unrolled while their exits are decided and
otherwise abstracted: changing values become fresh symbols, kept apart by facts that are checked to be
inductive.  Every memory access, table lookup and modelled library call raises obligations.
"""
import math
import re, struct, sys
from fractions import Fraction
from build import Broken
from state import *
import models

sys.setrecursionlimit(40000)


_kb = {}


class Outcome:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


def names_in(x, out=None):
    out = set() if out is None else out
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and x[0] == 'g' and isinstance(x[1], str):
            out.add(x[1])
        for y in x:
            names_in(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            names_in(y, out)
    return out


class GiveUp(Broken):
    pass


def tbits(ty):
    if isinstance(ty, str) and ty[0] == 'i':
        return int(ty[1:])
    return None


def tsize(ty):
    if isinstance(ty, str):
        if ty[0] == 'i':
            return (int(ty[1:]) + 7) // 8
        return {'ptr': 8, 'double': 8, 'float': 4, 'fp80': 10, 'void': 0}.get(ty, 8)
    return ty.get('size', 0)


def analyse(f):
    """liveness and loops of a function, once"""
    n = len(f.bbs)
    use, deff = [set() for _ in range(n)], [set() for _ in range(n)]
    phiuse = [dict() for _ in range(n)]       # pred -> set used by phis along that edge
    ops = []

    def ids(v, out):
        if isinstance(v, list):
            if len(v) == 2 and v[0] == '%':
                out.add(v[1])
            else:
                for x in v:
                    ids(x, out)
    for b, bb in enumerate(f.bbs):
        for d in bb['insts']:
            if d['op'] == 'phi':
                deff[b].add(d['id'])
                for v, p in d['in']:
                    s = set()
                    ids(v, s)
                    phiuse[p].setdefault(b, set()).update(s)
                continue
            u = set()
            for k in ('ops', 'args', 'base', 'var', 'p', 'v', 'c', 'fn', 'count'):
                if k in d:
                    ids(d[k], u)
            use[b] |= u - deff[b]
            if 'id' in d:
                deff[b].add(d['id'])
    livein = [set() for _ in range(n)]        # at block entry, phis included
    phidef = [{d['id'] for d in bb['insts'] if d['op'] == 'phi'} for bb in f.bbs]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            out = set()
            for s in f.succs(b):
                out |= livein[s] - phidef[s]
                out |= phiuse[b].get(s, set())
            i = use[b] | (out - deff[b]) | (phidef[b] & (use[b] | out | phidef[b]))
            if i != livein[b]:
                livein[b] = i
                ch = True
    loops = {b: set(bb['loop']) for b, bb in enumerate(f.bbs) if 'loop' in bb}
    tys = {a['id']: a['ty'] for a in f.d['args']}
    for bb in f.bbs:
        for d in bb['insts']:
            if 'id' in d:
                tys[d['id']] = d['ty']
    return livein, loops, tys


class Frame:
    __slots__ = ('f', 'path', 'site', 'env')


def f32(v):
    try:
        return struct.unpack('<f', struct.pack('<f', v))[0]
    except OverflowError:
        return INF if v > 0 else -INF


class Interp:
    def __init__(self, mod, rep=None):
        self.m = mod
        self.rep = rep
        self.info = {}
        self.mute = 0
        self.viol = {}             # (rule, where) -> text
        self.obl = {}              # (rule, where) -> True/False
        self.uid = 0
        self.frames = []
        self.models = list(models.MODELS)
        self.mcache = {}
        self.steps = 0
        self.max_steps = 4000000
        self.max_cfgs = 400
        self.unroll = 3
        self.decided_cap = 0
        self.unroll_by = []        # (regex, n)
        self.hooks = {}            # name -> callable
        self.assumed = set()
        self.paths = {}
        self.lazy_nullable = False
        self.ghost_join = {}
        self.loopcap = 14
        self.max_work = 48
        self.max_splits = 200
        self.max_rec = 2
        self.debug = False
        self.freed_ok = False
        self.undef_reads = True
        self.keep_masks = False
        self.no_joins = False          # states that differ in what they say about numbers are kept apart

    # ------------------------------------------------------------ reporting
    def where(self):
        for fr in reversed(self.frames):
            if fr.f.in_repo and fr.site is not None:
                return fr.f.loc(fr.site)
        for fr in reversed(self.frames):
            if fr.site is not None:
                return fr.f.loc(fr.site)
        return '?'

    def stack(self):
        out = []
        for fr in self.frames:
            if fr.f.in_repo:
                out.append(re.sub(r'\(.*', '', re.sub(r'<.*', '', fr.f.dem)).split('::')[-1])
        return ' > '.join(out[-4:])

    def oblige(self, ok, rule, text, where=None):
        if self.mute:
            return ok
        k = (rule, where or self.where())
        if ok:
            self.obl.setdefault(k, True)
        else:
            self.obl[k] = False
            if k not in self.viol:
                self.viol[k] = '%s  [%s]' % (text, self.stack())
                if self.debug:
                    print('VIOL', k, text)
        return ok

    def fresh(self, w, tag='v', lo=None, hi=None):
        self.uid += 1
        return sym((tag, self.uid), 0 if lo is None else lo, (1 << w) - 1 if hi is None else hi).lin

    def ffresh(self, w, tag='f'):
        self.uid += 1
        return fsym((tag, self.uid), w)

    def fresh_bool(self, tag='b'):
        return self.fresh(1, tag)

    def newobj(self, st, kind, size, dflt, name=None, **kw):
        """object with the smallest free number of its site: keeps loop iterations comparable"""
        site = (kind, self.frames[-1].path if self.frames else 0, id(self.frames[-1].site) if self.frames else 0, name)
        n = 0
        while (site, n) in st.mem:
            n += 1
        st.add((site, n), Obj(kind, size, dflt, name or kind, **kw))
        return (site, n)

    # ------------------------------------------------------------ constants
    def const(self, v, st):
        t = v[0]
        if t == 'i':
            return int(v[2])
        if t == 'n':
            return NULL
        if t == 'F':
            return Fn(v[1])
        if t == 'g':
            return self.gptr(v[1], st)
        if t == 'ge':
            p = self.const(v[1], st)
            if isinstance(p, Ptr):
                return Ptr(p.obj, ladd(p.off, v[2]))
            return p
        if t == 'f':
            return self.fconst(v)
        if t == 'u':
            if v[1] == 'ptr':
                return Unk('undefptr')
            w = tbits(v[1])
            if w:
                return 0 if False else Unk('undef')
            if isinstance(v[1], dict) and 's' in v[1]:
                return tuple(Unk('undef') for _ in v[1]['s'])
            return Unk('undef')
        if t == 'z':
            return tuple(self.zero(x[1]) for x in v[1]['s']) if isinstance(v[1], dict) and 's' in v[1] else 0
        if t == 'A':
            return tuple(self.const(x, st) for x in v[2])
        if t == 'ce':
            if v[1] in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                return self.const(v[3][0], st)
        return Unk('const')

    def zero(self, ty):
        if ty == 'ptr':
            return NULL
        if ty == 'double':
            return Fp(0.0, 64)
        if ty == 'float':
            return Fp(0.0, 32)
        if isinstance(ty, dict) and 's' in ty:
            return tuple(self.zero(x[1]) for x in ty['s'])
        return 0

    def fconst(self, v):
        ty, h = v[1], v[2]
        n = int(h, 16) if isinstance(h, str) else int(h)
        if ty == 'double':
            return Fp(struct.unpack('<d', struct.pack('<Q', n & U64))[0], 64)
        if ty == 'float':
            return Fp(struct.unpack('<f', struct.pack('<I', n & 0xffffffff))[0], 32)
        return fsym(('fp80', h), 80)

    def gptr(self, name, st):
        k = ('g', name)
        if k not in st.mem:
            g = self.m.globals.get(name)
            if g is None or g.get('decl') or g.get('init') is None:
                st.add(k, Obj('glob', g.get('size') or None if g else None, 'lazy', name, ro=bool(g and g.get('const'))))
            else:
                o = Obj('glob', g['size'], 'zero', name, ro=g.get('const', False))
                for off, size, c in g['init']:
                    if c and c[0] == 'f':
                        val = self.fconst(c)
                    else:
                        val = self.const(c, st)
                    o.cells[off] = (size, val)
                st.add(k, o)
                if not g.get('const'):
                    self.initialised(st, k, name)
        return Ptr(k, 0)

    def initialised(self, st, k, name):
        """the value a dynamic initialiser gives an object (that nothing writes it later is property S18)"""
        m = self.m
        if not hasattr(m, 'ginit'):
            m.ginit = {}
            m.ginit_by = {}
            for n, f in m.funcs.items():
                if n.startswith('__cxx_global_var_init') and not f.decl and f.in_repo:
                    for x in names_in([d for b in f.bbs for d in b['insts']]):
                        m.ginit_by.setdefault(x, []).append(f)
        if name not in m.ginit:
            m.ginit[name] = None
            for f in m.ginit_by.get(name, []):
                J = Interp(m)
                J.mute, J.max_steps = 1, 400000
                try:
                    outs = [o for o in J.call(State(), f, []) if o.kind == 'ret']
                    m.ginit[name] = outs[0].st if len(outs) == 1 and k in outs[0].st.mem else 'unknown'
                except (Broken, RecursionError):
                    m.ginit[name] = 'unknown'
        g = m.ginit[name]
        if g == 'unknown':
            st.mem[k].dflt, st.mem[k].cells = 'lazy', {}
        elif g is not None:
            st.add(k, g.mem[k].copy())
            for kk, oo in g.mem.items():
                if kk not in st.mem and kk[0] != 'g' and oo.kind in ('vec', 'heap'):
                    st.add(kk, oo.copy())

    # ------------------------------------------------------------ operands
    def val(self, v, env, st):
        if v[0] == '%':
            try:
                return env[v[1]]
            except KeyError:
                raise GiveUp('value %%%d of %s is not available' % (v[1], self.frames[-1].f.dem))
        return self.const(v, st)

    # ------------------------------------------------------------ memory
    def resolve_obj(self, st, p, size, rw):
        """checks that p may be dereferenced; returns the object key or None"""
        if isinstance(p, (Unk,)):
            self.oblige(False, 'pointer-is-known', 'dereferences an unknown or uninitialised pointer')
            return None
        if isinstance(p, int):
            self.oblige(False, 'no-null-dereference', 'dereferences the constant address %d' % p)
            return None
        if isinstance(p, Lin):
            p2 = self.int2ptr(p, st)
            if not isinstance(p2, Ptr):
                self.assumed.add('dereference of a computed address at %s' % self.where())
                return None
            p = p2
        if isinstance(p, Fn):
            return None
        if not isinstance(p, Ptr):
            raise GiveUp('dereference of %r at %s' % (p, self.where()))
        k = p.obj
        if k == 'null':
            self.oblige(False, 'no-null-dereference', 'dereferences a null pointer')
            return None
        o = st.mem.get(k)
        if o is None:
            if isinstance(k, tuple) and k and k[0] == 'L':
                o = st.add(k, self.make_lazy(st, k))
            else:
                self.oblige(False, 'no-dangling-dereference', '%s an object that has gone out of scope' % rw)
                return None
        if o.dead:
            if not self.freed_ok:
                self.oblige(False, 'no-dangling-dereference', '%s %s after it was %s' % (rw, o.name, o.dead if isinstance(o.dead, str) else 'freed'))
            return None
        if o.nullable and st.null.get(k) is not False:
            if st.null.get(k) is True:
                self.oblige(False, 'no-null-dereference', '%s through a null pointer (%s)' % (rw, o.name))
                return None
            if not self.oblige(False, 'no-null-dereference', '%s through a pointer that may be null (%s)' % (rw, o.name)):
                st.null[k] = False
        elif o.nullable:
            self.oblige(True, 'no-null-dereference', '')
        if o.size is not None and size != 0:
            self.bounds(st, o, p.off, size, rw)
        return k

    def bounds(self, st, o, off, size, rw):
        if isinstance(off, int) and isinstance(o.size, int) and isinstance(size, int):
            ok = 0 <= off and off + size <= o.size
            if o.kind not in ('alloca', 'glob') or not ok:
                self.oblige(ok, 'access-in-bounds', '%s %s bytes at offset %s of %s (%s bytes)' % (rw, size, off, o.name, o.size))
            return ok
        lo = o.extra.get('lo', 0) if isinstance(o.extra, dict) else 0
        room = lsub(lsub(o.size, off), size)
        low = lsub(off, lo)
        if isinstance(size, Lin) and not st.entails(ladd(size, -1)) :
            # empty copies touch nothing
            if st.entails(lscale(size, -1)):
                return True
        ok1 = st.entails(low)
        ok2 = st.entails(room)
        ok = ok1 and ok2
        if not ok and isinstance(size, Lin):
            s2 = st.fork()
            if s2.assume_ge(ladd(size, -1)):
                ok1, ok2 = s2.entails(low), s2.entails(room)
                ok = ok1 and ok2
            else:
                ok = ok1 = ok2 = True
        if not ok and self.debug and not self.mute:
            st.dump()
        self.oblige(ok, 'access-in-bounds', '%s %s not shown to stay %s %s' % (
            rw, o.name, 'behind the start of' if not ok1 else 'before the end of', o.name) +
            (' (offset %r, %r bytes, object %r)' % (off, size, o.size) if self.debug else ''))
        if not ok:
            if not ok1:
                st.assume_ge(low)
            if not ok2:
                st.assume_ge(room)
        return ok

    def make_lazy(self, st, k):
        o = Obj('lazy', None, 'lazy', 'an object')
        h = self.hooks.get('lazy')
        if h:
            h(self, st, k, o)
        elif self.lazy_nullable:
            o.nullable = True
        return o

    def covers(self, o, off, size):
        """cells overlapping a constant range"""
        out = []
        for c, (sz, v) in o.cells.items():
            if isinstance(c, int) and c < off + size and off < c + sz:
                out.append((c, sz, v))
        return sorted(out, key=lambda x: x[0])

    def dflt_value(self, st, k, o, off, size, ty):
        src = None
        for lo, hi, kind, sk, ver, soff in o.segs:
            if lo <= off and off + size <= hi:
                src = (kind, sk, ver, off - lo + soff)
                break
            if lo < off + size and off < hi:
                src = ('mixed',)
                break
        kind = src[0] if src else o.dflt
        if kind == 'mixed':
            return self.mkfresh(ty, size, ('mixed', k, o.ver, off, size))
        if kind == 'zero':
            return self.zero(ty)
        if kind == 'undef':
            h = self.hooks.get('undef')
            if h:
                h(self, st, k, o, off, size)
            return self.mkfresh(ty, size, ('undef', k, o.ver, off), undef=True)
        kk, vv, oo = (src[1], src[2], src[3]) if src else (o.src or k, o.ver, off)
        return self.mkfresh(ty, size, ('m', kk, vv, oo))

    def mkfresh(self, ty, size, key, undef=False):
        if ty == 'ptr':
            if undef:
                return Unk(key)
            return Ptr(('L',) + key[1:], 0)
        if ty == 'double':
            return fsym(key + ('d',), 64)
        if ty == 'float':
            return fsym(key + ('f',), 32)
        if ty == 'fp80':
            return fsym(key + ('x',), 80)
        w = tbits(ty)
        if w is None:
            w = size * 8
        if w == 8:
            return byte_sym(key + (8,)).lin
        return sym(key + (w,), 0, (1 << w) - 1).lin

    def bytes_at(self, st, o, off, n):
        """n bytes of a read-only byte sequence, little endian value"""
        bs = [byte_sym(('doc', o.src, ladd(off, i))) for i in range(n)]
        return mk(0, {b: 1 << (8 * i) for i, b in enumerate(bs)})

    def load(self, st, p, ty):
        size = tsize(ty)
        if isinstance(ty, dict) and 's' in ty:
            return tuple(self.load(st, Ptr(p.obj, ladd(p.off, o)) if isinstance(p, Ptr) else p, t) for o, t in ty['s'])
        if isinstance(p, Lin):
            p = self.int2ptr(p, st)
        k = self.resolve_obj(st, p, size, 'reads')
        if k is None:
            self.uid += 1
            return self.mkfresh(ty, size, ('bad', 'bad', self.uid))
        o = st.mem[k]
        off = st.const(p.off)
        h = self.hooks.get('load')
        if h:
            r = h(self, st, k, o, off, size, ty)
            if r is not None:
                return r
        if o.dflt == 'bytes':
            v = self.bytes_at(st, o, p.off if not isinstance(p.off, Lin) else p.off, size)
            return self.typed(v, ty, st)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            if isinstance(off, int) and any(not isinstance(x, int) for x in o.cells):
                pass
            return self.typed(c[1], ty, st)
        if isinstance(off, int):
            for x in o.cells:
                if not isinstance(x, int) and not self.disjoint(st, x, o.cells[x][0], off, size):
                    self.uid += 1
                    return self.mkfresh(ty, size, ('alias', 'alias', self.uid))
            cov = self.covers(o, off, size)
            if not cov:
                v = self.dflt_value(st, k, o, off, size, ty)
                if size > 1 and not (o.dflt == 'undef' and not o.segs):
                    w = st.wobj(k) if not o.ro else o
                    w.cells[off] = (size, v)
                return v
            return self.typed(self.assemble(st, k, o, off, size, cov), ty, st)
        # symbolic offset
        r = self.table_lookup(st, o, off, size)
        if r is not None:
            return self.typed(r, ty, st)
        for x, (sz, v) in o.cells.items():
            if sz == size and st.is_zero(lsub(x, off)) is True:
                return self.typed(v, ty, st)
        if not o.cells and not o.segs and o.dflt in ('lazy', 'zero'):
            if o.dflt == 'zero':
                return self.zero(ty)
            v = self.mkfresh(ty, size, ('m', o.src or k, o.ver, off))
            if size > 1:
                w = st.wobj(k)
                w.cells[off] = (size, v)
            return v
        if o.dflt == 'lazy' and not o.segs and all(self.disjoint(st, x, c[0], off, size) for x, c in o.cells.items()):
            v = self.mkfresh(ty, size, ('m', o.src or k, o.ver, off))
            if size > 1:
                w = st.wobj(k)
                w.cells[off] = (size, v)
            return v
        self.uid += 1
        return self.mkfresh(ty, size, ('sel', 'sel', self.uid))

    def table_lookup(self, st, o, off, size):
        """constant table indexed by a value that depends on one byte"""
        src = byte_source(off)
        if src is None:
            if isinstance(off, int):
                return None
            lo, hi = st.range(off)
            if isinstance(o.size, int) and o.size <= 4096 and len(o.cells) >= 2:
                if lo < 0 and st.entails(off):
                    lo = 0
                if hi > o.size - size and st.entails(lsub(o.size - size, off)):
                    # down to the smallest bound that is shown
                    a, hi = lo, o.size - size
                    while a < hi:
                        y = (a + hi) // 2
                        if st.entails(lsub(y, off)):
                            hi = y
                        else:
                            a = y + 1
            if lo < 0 or hi - lo > 256 * size or len(o.cells) < 2:
                return None
            tab = []
            for e in range(lo, hi + 1):
                c = o.cells.get(e)
                if c is None and o.dflt == 'zero' and not o.segs and not any(not isinstance(x, int) for x in o.cells):
                    tab.append(0)
                    continue
                if c is None or c[0] != size:
                    if size > 1 and c is None:
                        tab.append(None)
                        continue
                    return None
                x = st.const(c[1]) if isinstance(c[1], (Lin, Bits)) else c[1]
                if not isinstance(x, int):
                    return None
                tab.append(x)
            known = [x for x in tab if x is not None]
            if not known:
                return None
            at = [i for i, x in enumerate(tab) if x is not None]
            if len(at) > 1:
                k, r = divmod(tab[at[1]] - tab[at[0]], at[1] - at[0])
                if not r and all(tab[i] == tab[at[0]] + k * (i - at[0]) for i in at):
                    # an arithmetic progression
                    return ladd(lscale(ladd(off, -lo - at[0]), k), tab[at[0]])
            return sym(('lutv', ladd(off, -lo), tuple(tab)), min(known), max(known)).lin
        m = st.mask.get(src, (1 << 256) - 1)
        tab = [None] * 256
        for v in range(256):
            if m >> v & 1:
                e = eval_byte(off, v)
                c = o.cells.get(e)
                if c is None or c[0] != size:
                    if c is None and o.dflt == 'zero' and not o.segs and not any(not isinstance(x, int) for x in o.cells):
                        tab[v] = 0
                        continue
                    return None
                x = st.const(c[1]) if isinstance(c[1], (Lin, Bits)) else c[1]
                if not isinstance(x, int):
                    return None
                tab[v] = x
        fill = next(x for x in tab if x is not None)
        return tab_sym(src, tuple(fill if x is None else x for x in tab), 'lut')

    def disjoint(self, st, a, an, b, bn):
        if isinstance(a, int) and isinstance(b, int) and isinstance(an, int) and isinstance(bn, int):
            return a + an <= b or b + bn <= a
        d = lsub(b, a)
        return st.entails(lsub(d, an)) or st.entails(lsub(lscale(d, -1), bn))

    def assemble(self, st, k, o, off, size, cov):
        bits, pos = [], off
        for c, sz, v in cov:
            if c > pos:
                x = self.dflt_value(st, k, o, pos, c - pos, 'i%d' % (8 * (c - pos)))
                b = bits_of(x, 8 * (c - pos))
                if b is None:
                    break
                bits += b
                pos = c
            if isinstance(v, Cmp):
                d = st.decide(v)
                if d is None:
                    raise Split([[v], [neg(v)]])
                v = int(d)
            v = self.as_int(v, sz)
            b = bits_of(v, 8 * sz) if isinstance(v, (int, Lin, Bits)) else None
            if b is None:
                if isinstance(v, (Lin, Bits)):
                    b = self.word(v, 8 * sz)
                else:
                    break
            s = (pos - c) * 8
            e = min(c + sz, off + size)
            bits += b[s:(e - c) * 8]
            pos = e
        if pos < off + size and len(bits) == (pos - off) * 8:
            x = self.dflt_value(st, k, o, pos, off + size - pos, 'i%d' % (8 * (off + size - pos)))
            b = bits_of(x, 8 * (off + size - pos)) if isinstance(x, (int, Lin, Bits)) else None
            if b is not None:
                bits += b
        if len(bits) != size * 8:
            self.uid += 1
            return self.fresh(size * 8, 'asm')
        return from_bits(tuple(bits))

    def word(self, v, w):
        """bits of a number modulo 2^w"""
        v = as_lin(v)
        b = byte_source(v) if isinstance(v, Lin) and len(v.t) == 1 else None
        if b is not None:
            # a function of one byte
            t = tab_sym(b, tuple(eval_byte(v, x) % (1 << w) for x in range(256)), 'word')
            return bits_of(t, w) if isinstance(t, int) else tuple((t.t[0][0], i) for i in range(w))
        x = sym(('word', v, w), 0, (1 << w) - 1)
        if not x.axioms:
            lo = hi = v.c
            for s, k in v.t:
                lo, hi = lo + min(k * s.lo, k * s.hi), hi + max(k * s.lo, k * s.hi)
            q = sym(('wordq', v, w), -INF if lo == -INF else lo >> w, INF if hi == INF else hi >> w)
            e = lsub(lsub(v, x.lin), lscale(q.lin, 1 << w))
            x.axioms = (e, lscale(e, -1))
        return tuple((x, i) for i in range(w))

    def as_int(self, v, sz):
        if isinstance(v, Fp):
            if v.w == 64:
                return struct.unpack('<Q', struct.pack('<d', v.v))[0]
            if v.w == 32:
                return struct.unpack('<I', struct.pack('<f', v.v))[0]
        if isinstance(v, FSym):
            if v.defn and v.defn[0] == 'ofbits' and v.w == 8 * sz:
                return v.defn[1]
            return sym(('fbits', v.key), 0, (1 << 8 * sz) - 1, None, ('fbits', v)).lin
        if isinstance(v, Ptr):
            return self.ptr2int(v)
        return v

    def ptr2int(self, p):
        if p.obj == 'null':
            return p.off
        return ladd(lscale(sym(('addr', p.obj), 1, 1 << 47, None, ('addr', p.obj)).lin, self.alignment(p.obj)), p.off)

    @staticmethod
    def alignment(k):
        """what the allocation functions guarantee for the address of a block"""
        return 16 if isinstance(k, tuple) and k and isinstance(k[0], tuple) and k[0] and k[0][0] == 'heap' else 1

    def int2ptr(self, v, st=None):
        if isinstance(v, Bits):
            v = as_lin(v)
        if isinstance(v, int):
            return NULL if v == 0 else Ptr('null', v)
        if isinstance(v, Lin):
            a = [(s, k) for s, k in v.t if s.defn and s.defn[0] == 'addr']
            if len(a) == 1 and a[0][1] == self.alignment(a[0][0].defn[1]):
                return Ptr(a[0][0].defn[1], lsub(v, lscale(a[0][0].lin, a[0][1])))
            return v
        return v

    def typed(self, v, ty, st):
        """reinterprets a stored value as a type"""
        if ty == 'ptr':
            if isinstance(v, (Ptr, Fn, Unk)):
                return v
            if isinstance(v, (int, Lin, Bits)):
                return self.int2ptr(v, st)
            return v
        if ty in ('double', 'float'):
            w = 64 if ty == 'double' else 32
            if isinstance(v, (Fp, FSym)):
                return v
            if isinstance(v, Bits):
                v = as_lin(v)
            v = st.const(v) if isinstance(v, Lin) else v
            if isinstance(v, int):
                if w == 64:
                    return Fp(struct.unpack('<d', struct.pack('<Q', v & U64))[0], 64)
                return Fp(struct.unpack('<f', struct.pack('<I', v & 0xffffffff))[0], 32)
            if isinstance(v, Lin):
                if v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0].defn and v.t[0][0].defn[0] == 'fbits':
                    f = v.t[0][0].defn[1]
                    if f.w == w:
                        return f
                return fsym(('ofbits', v, w), w, ('ofbits', v))
            return fsym(('x', repr(v), w), w)
        if isinstance(ty, str) and ty[0] == 'i':
            if isinstance(v, (Fp, FSym, Ptr)):
                return self.as_int(v, tsize(ty))
            if isinstance(v, Unk):
                return sym(('unk', v.key, tbits(ty)), 0, (1 << tbits(ty)) - 1).lin
        return v

    def clobber(self, st, k, off, size):
        """the range may have been overwritten: forget what overlaps"""
        o = st.wobj(k)
        hit = False
        for c in list(o.cells):
            if not self.disjoint(st, c, o.cells[c][0], off, size):
                cs = o.cells[c][0]
                if isinstance(c, int) and isinstance(off, int) and isinstance(size, int):
                    # keep the parts outside
                    v = o.cells[c][1]
                    v = self.as_int(v, cs) if not isinstance(v, (int, Lin, Bits)) else v
                    b = bits_of(v, 8 * cs) if isinstance(v, (int, Lin, Bits)) else None
                    del o.cells[c]
                    if b is not None:
                        if c < off:
                            o.cells[c] = (off - c, from_bits(b[:(off - c) * 8]))
                        if c + cs > off + size:
                            o.cells[off + size] = (c + cs - off - size, from_bits(b[(off + size - c) * 8:]))
                    elif c < off or c + cs > off + size:
                        hit = True
                    continue
                del o.cells[c]
                hit = True
        return o, hit

    def store(self, st, p, v, size, ty=None):
        if isinstance(v, tuple) and isinstance(ty, dict):
            for (o, t), x in zip(ty['s'], v):
                self.store(st, Ptr(p.obj, ladd(p.off, o)), x, tsize(t), t)
            return
        if isinstance(p, Lin):
            p = self.int2ptr(p, st)
        k = self.resolve_obj(st, p, size, 'writes')
        if k is None:
            return
        off = st.const(p.off)
        o = st.mem[k]
        if o.ro:
            self.oblige(False, 'no-write-to-constant', 'writes to %s, which is read-only' % o.name)
            return
        h = self.hooks.get('store')
        if h and h(self, st, k, o, off, size, v):
            return
        if isinstance(off, int):
            o, hit = self.clobber(st, k, off, size)
            o.cells[off] = (size, v)
        else:
            o, hit = self.clobber(st, k, off, size)
            if o.dflt != 'lazy' or o.segs:
                # bytes elsewhere keep their contents, those here do not
                o.dflt, o.segs = 'lazy', ()
                self.uid += 1
                o.ver = self.uid
            else:
                self.uid += 1
                o.ver = self.uid
            o.cells[off] = (size, v)

    def havoc(self, st, k, off=None, size=None):
        o = st.wobj(k)
        if off is None:
            o.cells = {}
        else:
            self.clobber(st, k, off, size)
            o = st.wobj(k)
        o.dflt, o.segs = 'lazy', ()
        self.uid += 1
        o.ver = self.uid

    def copy(self, st, d, s, n):
        """memcpy / memmove"""
        n = st.const(n)
        if n == 0:
            return
        if isinstance(n, (Lin,)):
            z = st.is_zero(n)
            if z is None and not (isinstance(s, Ptr) and isinstance(d, Ptr) and s.obj != 'null' and d.obj != 'null'
                                  and not st.mem.get(s.obj, Obj('x')).nullable and not st.mem.get(d.obj, Obj('x')).nullable):
                raise Split([[peq(n)], [pne(n)]])
            if z is True:
                return
        h = self.hooks.get('copy')
        if h and h(self, st, d, s, n):
            return
        ks = self.resolve_obj(st, s, n, 'reads')
        kd = self.resolve_obj(st, d, n, 'writes')
        if kd is None:
            return
        if st.mem[kd].ro:
            self.oblige(False, 'no-write-to-constant', 'copies to %s, which is read-only' % st.mem[kd].name)
            return
        doff = st.const(d.off)
        if isinstance(n, int) and (isinstance(doff, int) or n <= 64) and ks is not None and n <= 512:
            src = st.mem[ks]
            soff = st.const(s.off)
            if isinstance(soff, Lin) and not (soff in src.cells and src.cells[soff][0] == n) and n not in (1, 2, 4, 8) and src.dflt != 'bytes' \
                    and isinstance(doff, int):
                few = self.few(st, soff)
                if few and len(few) == 1:
                    soff = few[0]
                elif few and any(not isinstance(c, int) or few[0] <= c < few[-1] + n for c in src.cells):
                    raise Split([[peq(lsub(soff, e))] for e in few])
            new, segs = {}, ()
            if src.dflt == 'bytes':
                if n in (1, 2, 4, 8):
                    new[doff] = (n, self.bytes_at(st, src, s.off, n))
                elif n <= 64:
                    for i in range(n):
                        new[ladd(doff, i)] = (1, self.bytes_at(st, src, ladd(s.off, i), 1))
                else:
                    segs = ((doff, doff + n, 'lazy', ('cpy', src.src, s.off), 0, 0),)
            elif isinstance(soff, int) and not any(not isinstance(c, int) for c in src.cells):
                for c, (sz, v) in src.cells.items():
                    if soff <= c and c + sz <= soff + n:
                        new[ladd(doff, c - soff)] = (sz, v)
                    elif c < soff + n and soff < c + sz:
                        a, b = max(c, soff), min(c + sz, soff + n)
                        new[ladd(doff, a - soff)] = (b - a, self.assemble(st, ks, src, a, b - a, [(c, sz, v)]))
                if isinstance(doff, int) and (src.dflt != 'undef' or src.segs):
                    rest = tuple((max(lo, soff) - soff + doff, min(hi, soff + n) - soff + doff, kind, sk, ver, so + max(lo, soff) - lo)
                                 for lo, hi, kind, sk, ver, so in src.segs if lo < soff + n and soff < hi)
                    segs = rest + ((doff, doff + n, src.dflt, src.src or ks, src.ver, soff),)
            elif soff in src.cells and src.cells[soff][0] == n:
                new[doff] = src.cells[soff]
            elif n in (1, 2, 4, 8):
                new[doff] = (n, self.load(st, s, 'i%d' % (8 * n)))
            elif isinstance(doff, int):
                self.uid += 1
                segs = ((doff, doff + n, 'lazy', ('cp', self.uid), 0, 0),)
            o, hit = self.clobber(st, kd, doff, n)
            if not isinstance(doff, int):
                o.dflt, o.segs = 'lazy', self.below(st, o, doff)
                self.uid += 1
                o.ver = self.uid
                o.cells.update(new)
                return
            o.cells.update(new)
            o.segs = segs + tuple(x for x in o.segs if not (doff <= x[0] and x[1] <= doff + n))
            return
        o = st.mem[kd]
        if doff == 0 and o.size is not None and st.entails(lsub(n, o.size)):
            o = st.wobj(kd)
            o.cells = {}
        else:
            o, hit = self.clobber(st, kd, doff, n)
        o.dflt, o.segs = 'lazy', self.below(st, o, doff)
        self.uid += 1
        o.ver = self.uid

    def few(self, st, off, most=8):
        """the values an offset may have, when they are few"""
        if not isinstance(off, Lin):
            return None
        step = 0
        for _, c in off.t:
            step = math.gcd(step, abs(c))
        lo, hi = st.range(off)
        if lo < 0 and st.entails(off):
            lo = 0
        if step and hi - lo > step * most and st.entails(lsub(lo + step * most, off)):
            hi = next(h for h in range(lo, lo + step * most + 1, step) if st.entails(lsub(h + step - 1, off))) + step - 1
        if not step or lo < 0 or hi - lo > step * most:
            return None
        c = [e for e in range(lo, hi + 1) if (e - off.c) % step == 0]
        while len(c) > 1 and st.entails(lsub(off, c[1])):
            c.pop(0)
        return c

    def fill(self, st, d, byte, n):
        n = st.const(n)
        if n == 0:
            return
        h = self.hooks.get('fill')
        if h and h(self, st, d, byte, n):
            return
        kd = self.resolve_obj(st, d, n, 'writes')
        if kd is None:
            return
        doff = st.const(d.off)
        o = st.mem[kd]
        if isinstance(n, int) and isinstance(doff, int):
            o, _ = self.clobber(st, kd, doff, n)
            if byte == 0:
                o.segs = ((doff, doff + n, 'zero', None, 0, 0),) + o.segs
            elif n <= 512 and isinstance(byte, int):
                for i in range(n):
                    o.cells[doff + i] = (1, byte & 255)
            else:
                self.uid += 1
                o.segs = ((doff, doff + n, 'lazy', ('fill', self.uid), 0, 0),) + o.segs
            return
        o, _ = self.clobber(st, kd, doff, n)
        whole = doff == 0 and o.size is not None and st.entails(lsub(n, o.size))
        if whole and byte == 0:
            o.cells, o.dflt, o.segs = {}, 'zero', ()
        else:
            o.dflt, o.segs = 'lazy', self.below(st, o, doff)
            self.uid += 1
            o.ver = self.uid

    @staticmethod
    def below(st, o, off):
        """what is known of the bytes before an offset"""
        lo = st.range(off)[0]
        if lo == -INF:
            return ()
        return tuple((a, min(b, lo), kind, sk, ver, so) for a, b, kind, sk, ver, so in o.segs if a < lo)

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, a, b, w, st, d):
        if op == 'and' and w > 1 and isinstance(a, Unk) and a.key == 'undef' and isinstance(b, int):
            # undefined bits that are masked away
            self.uid += 1
            a = sym(('undefined bits', self.uid, w), 0, (1 << w) - 1).lin
        if isinstance(a, Unk) or isinstance(b, Unk):
            return Unk(('op', op, a, b))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a = self.ptr2int(a) if isinstance(a, Ptr) else a
            b = self.ptr2int(b) if isinstance(b, Ptr) else b
        m = 1 << w
        if w == 1 or isinstance(a, Cmp) or isinstance(b, Cmp):
            if op == 'xor' and b == 1 and isinstance(a, Cmp):
                return neg(a)
            if op in ('and', 'or', 'xor') and (w == 1 or (isinstance(a, (Cmp, int)) and isinstance(b, (Cmp, int)) and
                                               (not isinstance(a, int) or a in (0, 1)) and (not isinstance(b, int) or b in (0, 1)))):
                x = st.decide(a) if not isinstance(a, int) else bool(a)
                y = st.decide(b) if not isinstance(b, int) else bool(b)
                if op == 'and':
                    if x is False or y is False:
                        return 0
                    if x is True:
                        return b if y is None else int(y)
                    if y is True:
                        return a
                elif op == 'or':
                    if x is True or y is True:
                        return 1
                    if x is False:
                        return b if y is None else int(y)
                    if y is False:
                        return a
                else:
                    if x is not None and y is not None:
                        return int(x != y)
                    if y is not None:
                        return a if not y else (neg(a) if isinstance(a, Cmp) else ladd(1, a, -1))
                    if x is not None:
                        return b if not x else (neg(b) if isinstance(b, Cmp) else ladd(1, b, -1))
                c = a if isinstance(a, Cmp) else pne(as_lin(a))
                raise Split([[c], [neg(c)]])
            a = st.to_u(a, w) if isinstance(a, Cmp) else a
            b = st.to_u(b, w) if isinstance(b, Cmp) else b
        if isinstance(a, int) and isinstance(b, int):
            return self.fold(op, a % m, b % m, w)
        if op in ('add', 'sub'):
            la, lb = as_lin(a), as_lin(b)
            return norm(ladd(la, lb) if op == 'add' else lsub(la, lb), w)
        if op == 'mul':
            a, b = st.const(a), st.const(b)
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                b %= m
                if b >= m >> 1:
                    b -= m
                return norm(lscale(as_lin(a), b), w)
            a, b = st.to_u(a, w), st.to_u(b, w)
            la, ha = st.range(a)
            lb, hb = st.range(b)
            if ha * hb < m:
                k = ('mul',) + ((a, b) if hash(a) < hash(b) else (b, a))
                return sym(k, 0, (1 << w) - 1).lin
            return sym(('mulw', a, b, w), 0, m - 1).lin
        if op == 'shl':
            b = st.const(b)
            if isinstance(b, int) and b < w:
                bv = bits_of(a, w)
                if bv is not None and (isinstance(a, Bits) or any(x != 0 for x in bv[w - b:])):
                    return from_bits((0,) * b + bv[:w - b])
                return norm(lscale(as_lin(a), 1 << b), w)
            x = self.enum_shift(op, a, b, w, st)
            return x if x is not None else self.fresh(w, 'shl')
        if op == 'lshr':
            b = st.const(b)
            if isinstance(b, int) and b < w:
                a = st.to_u(a, w) if not isinstance(a, Bits) else a
                bv = bits_of(a, w)
                if bv is not None:
                    return from_bits(bv[b:] + (0,) * b)
                return self.quot(st, a, 1 << b)
            x = self.enum_shift(op, a, b, w, st)
            return x if x is not None else self.fresh(w, 'lshr')
        if op == 'ashr':
            b = st.const(b)
            if isinstance(b, int):
                s = st.to_s(a, w)
                if st.range(s)[0] >= 0:
                    return self.binop('lshr', a, b, w, st, d)
                src = byte_source(s)
                if src is not None:
                    return tab_sym(src, tuple(eval_byte(s, v) >> b for v in range(256)), 'ashr')
                return sym(('ashr', s, b), -(1 << (w - 1 - b)), (1 << (w - 1 - b)) - 1).lin
            return self.fresh(w, 'ashr')
        if op in ('and', 'or', 'xor'):
            a, b = st.const(a), st.const(b)
            if isinstance(a, int):
                a, b = b, a
            ua = a if isinstance(a, Bits) else st.to_u(a, w)
            ub = b if isinstance(b, (Bits, int)) else st.to_u(b, w)
            x, y = self.kbits(st, bits_of(ua, w)), self.kbits(st, bits_of(ub, w))
            if x is None and isinstance(ub, int) and op == 'and':
                n = ub.bit_length()
                if ub == (1 << n) - 1:
                    return self.rem(st, ua, ub + 1)
                low = m - 1 - ub
                if low and low & (low + 1) == 0 and isinstance(ua, Lin):
                    return lsub(ua, self.rem(st, ua, low + 1))
            if isinstance(ub, int) and isinstance(ua, Lin) and x is None:
                # bits that are the same in the whole range of the value
                lo, hi = st.range(ua)
                if 0 <= lo < hi < m:
                    top = 1 << (hi.bit_length() - 1)
                    if lo < top and st.entails(lsub(ua, top)):
                        lo = top
                    while lo < top and st.entails(lsub(top - 1, ua)):
                        hi, top = top - 1, top >> 1
                if lo >= 0 and hi < m:
                    k = (lo ^ hi).bit_length()
                    c, low = (lo & ub) >> k << k, ub & ((1 << k) - 1)
                    r = c if not low else ladd(lsub(ua, lo >> k << k), c) if low == (1 << k) - 1 else None
                    if r is not None:
                        return r if op == 'and' else lsub(ladd(ua, ub), r if op == 'or' else lscale(as_lin(r), 2))
            src = byte_source(as_lin(ua), as_lin(ub))
            if src is not None and (x is None or y is None):
                f = {'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q}[op]
                la, lb = as_lin(ua), as_lin(ub)
                return tab_sym(src, tuple(f(eval_byte(la, v) % m, eval_byte(lb, v) % m) for v in range(256)), op)
            if x is None and isinstance(ua, Lin):
                x = self.kbits(st, self.word(ua, w)) if op != 'and' or not isinstance(ub, int) else x
            if y is None and isinstance(ub, Lin) and len(ub.t) == 1 and byte_source(ub) is not None:
                y = self.kbits(st, self.word(ub, w))
            if x is None or y is None:
                if op == 'and' and isinstance(ub, int):
                    return sym(('and', ua, ub), 0, ub).lin
                return sym((op, ua, ub, w), 0, m - 1).lin
            out = []
            for p, q in zip(x, y):
                if isinstance(p, int) and isinstance(q, int):
                    out.append({'and': p & q, 'or': p | q, 'xor': p ^ q}[op])
                    continue
                if isinstance(p, int):
                    p, q = q, p
                if op == 'and':
                    out.append(0 if q == 0 and isinstance(q, int) else p if isinstance(q, int) else p if p == q else None)
                elif op == 'or':
                    out.append(1 if q == 1 and isinstance(q, int) else p if isinstance(q, int) else p if p == q else None)
                else:
                    out.append(p if isinstance(q, int) and q == 0 else 0 if p == q and not isinstance(q, int) else None)
            if None in out:
                la, lb = as_lin(ua), as_lin(ub)
                src = byte_source(la, lb)
                if src is not None:
                    f = {'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q}[op]
                    return tab_sym(src, tuple(f(eval_byte(la, v), eval_byte(lb, v)) for v in range(256)), op)
                if op == 'xor' and isinstance(ub, int) and ub == m - 1:
                    return norm(lsub(m - 1, la), w)
                hi = min(st.range(la)[1], st.range(lb)[1]) if op == 'and' else None
                if hi is None:
                    n = max(st.range(la)[1], st.range(lb)[1])
                    hi = (1 << int(n).bit_length()) - 1 if n < m else m - 1
                return sym((op, la, lb, w), 0, min(hi, m - 1)).lin
            return from_bits(tuple(out))
        if op in ('udiv', 'urem'):
            b = st.const(st.to_u(b, w))
            a = st.to_u(a, w)
            if isinstance(b, int):
                if b == 0:
                    self.oblige(False, 'no-division-by-zero', 'divides by zero')
                    return self.fresh(w)
                return self.quot(st, a, b) if op == 'udiv' else self.rem(st, a, b)
            z = st.is_zero(b)
            self.oblige(z is False, 'no-division-by-zero', 'the divisor may be zero')
            st.assume(pne(b))
            q = sym(('udivv', a, b, w), 0, m - 1).lin
            if op == 'udiv':
                x = lsyms(q)[0]
                if not x.axioms:
                    x.axioms = (lsub(a, q),)
                return q
            r = sym(('uremv', a, b, w), 0, m - 1).lin
            x = lsyms(r)[0]
            if not x.axioms:
                x.axioms = (lsub(lsub(b, r), 1), lsub(a, r))
            return r
        if op in ('sdiv', 'srem'):
            b = st.const(st.to_s(b, w))
            a = st.to_s(a, w)
            if isinstance(b, int) and b > 0:
                lo, hi = st.range(a)
                if lo >= 0 or st.entails(a):
                    return self.quot(st, a, b) if op == 'sdiv' else self.rem(st, a, b)
                if hi <= 0 or st.entails(lscale(a, -1)):
                    n = lscale(a, -1)
                    r = self.quot(st, n, b) if op == 'sdiv' else self.rem(st, n, b)
                    return norm(lscale(as_lin(r), -1), w)
                raise Split([[pge(a)], [pge(lsub(-1, a))]])
            if b == 0 and isinstance(b, int):
                self.oblige(False, 'no-division-by-zero', 'divides by zero')
            return self.fresh(w, op)
        raise GiveUp('operation ' + op)

    def kbits(self, st, b):
        """bits known to be constant in this state"""
        if b is None:
            return None
        out = []
        for x in b:
            if isinstance(x, tuple):
                s, i = x
                if s.byte is not None:
                    m = st.mask.get(s.byte[0])
                    k = (s.uid, m, i)
                    c = _kb.get(k)
                    if c is None:
                        t = s.byte[1]
                        vs = {t[v] >> i & 1 for v in range(256) if m is None or m >> v & 1}
                        c = _kb[k] = vs.pop() if len(vs) == 1 else 2
                    if c != 2:
                        x = c
                else:
                    lo, hi = st.srange(s)
                    if lo >= 0 and hi != INF and hi < 1 << i:
                        x = 0
            out.append(x)
        return tuple(out)

    def enum_shift(self, op, a, b, w, st):
        """shift by a variable amount: table if both depend on one byte, a constant if enumerable"""
        lb = as_lin(b)
        la = as_lin(a)
        src = byte_source(la, lb)
        if src is not None:
            m = 1 << w
            mask = st.mask.get(src, (1 << 256) - 1)
            tab = []
            for v in range(256):
                x, y = eval_byte(la, v) % m, eval_byte(lb, v) % m
                tab.append(0 if y >= w else ((x << y) % m if op == 'shl' else x >> y))
            return tab_sym(src, tuple(tab), op)
        lo, hi = st.range(lb)
        if hi - lo <= 64:
            self.oblige(lo >= 0 and hi < w, 'shift-amount-in-range', 'shifts a %d bit value by %s to %s bits' % (w, lo, hi))
            vals = [v for v in range(max(lo, 0), min(hi, w - 1) + 1)]
            if len(vals) > 1:
                raise Split([[peq(ladd(lb, -v))] for v in vals])
        return None

    def fold(self, op, a, b, w):
        m = 1 << w
        h = m >> 1
        sa, sb = (a - m if a >= h else a), (b - m if b >= h else b)
        if op == 'add':
            return (a + b) % m
        if op == 'sub':
            return (a - b) % m
        if op == 'mul':
            return (a * b) % m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) % m if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sa >> min(b, w - 1)) % m
        if b == 0:
            self.oblige(False, 'no-division-by-zero', 'divides by zero')
            return 0
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        return q % m if op == 'sdiv' else (sa - q * sb) % m

    def quot(self, st, a, c):
        if isinstance(a, int):
            return a // c
        if c == 1:
            return a
        # exact division
        if a.c % c == 0 and all(k % c == 0 for _, k in a.t):
            return mk(a.c // c, {s: k // c for s, k in a.t})
        lo, hi = st.range(a)
        if lo >= 0 and lo // c == hi // c:
            return lo // c
        src = byte_source(a)
        if src is not None:
            return tab_sym(src, tuple(eval_byte(a, v) // c for v in range(256)), 'div')
        s = sym(('quot', a, c), 0, max(hi // c, 0) if hi != INF else INF)
        if not s.axioms:
            r = lsub(a, lscale(s.lin, c))
            s.axioms = (r, lsub(c - 1, r))
        if hi != INF and hi // c < st.srange(s)[1]:
            st.iv[s] = (st.srange(s)[0], hi // c)
        if lo >= 0 and lo // c > st.srange(s)[0]:
            st.iv[s] = (lo // c, st.srange(s)[1])
        return s.lin

    def small(self, st, x):
        """a 64 bit number shown to lie in the lower half of its range"""
        return x if st.entails(x) and st.entails(lsub((1 << 63) - 1, x)) else None

    def rem(self, st, a, c):
        if isinstance(a, int):
            return a % c
        src = byte_source(a)
        if src is not None:
            return tab_sym(src, tuple(eval_byte(a, v) % c for v in range(256)), 'rem')
        lo, hi = st.range(a)
        if lo >= 0 and hi < c:
            return a
        # drop multiples
        r = lsub(a, lscale(as_lin(self.quot(st, a, c)), c))
        return r

    # ------------------------------------------------------------ comparisons
    def icmp(self, pred, a, b, ty, st):
        if ty == 'ptr' or isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            return self.pcmp(pred, a, b, st)
        w = tbits(ty)
        if isinstance(a, Unk) or isinstance(b, Unk):
            if isinstance(a, tuple) or isinstance(b, tuple):
                return self.fresh_bool()
            a = a if not isinstance(a, Unk) else sym(('unk', a.key, w), 0, (1 << w) - 1).lin
            b = b if not isinstance(b, Unk) else sym(('unk', b.key, w), 0, (1 << w) - 1).lin
        if isinstance(a, tuple) or isinstance(b, tuple):      # exception selectors
            return self.selcmp(pred, a, b)
        if isinstance(b, int) and isinstance(a, Cmp) and pred in ('eq', 'ne'):
            if b == 0:
                return a if pred == 'ne' else neg(a)
            if b == 1:
                return a if pred == 'eq' else neg(a)
            return int(pred == 'ne')
        if pred in ('eq', 'ne'):
            a, b = st.to_u(a, w), st.to_u(b, w)
            c = Cmp(pred, lsub(as_lin(a), as_lin(b)), None, 0)
        else:
            f = st.to_u if pred[0] == 'u' else st.to_s
            a, b = as_lin(f(a, w)), as_lin(f(b, w))
            p = pred[1:]
            c = pge({'ge': lambda: lsub(a, b), 'le': lambda: lsub(b, a),
                     'gt': lambda: ladd(lsub(a, b), -1), 'lt': lambda: ladd(lsub(b, a), -1)}[p]())
        if isinstance(c.a, int):
            return int(c.a >= 0 if c.pred == 'ge' else (c.a == 0) == (c.pred == 'eq'))
        d = st.decide(c)
        return c if d is None else int(d)

    def selcmp(self, pred, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            sel, tid = (a, b) if a[0] == 'sel' else (b, a)
            r = sel[1] == tid[1]
            return int(r == (pred == 'eq'))
        return self.fresh_bool()

    def pcmp(self, pred, a, b, st):
        if isinstance(a, (int, Lin)):
            a = self.int2ptr(a, st)
        if isinstance(b, (int, Lin)):
            b = self.int2ptr(b, st)
        if isinstance(a, Fn) or isinstance(b, Fn):
            if pred in ('eq', 'ne') and not isinstance(a, Unk) and not isinstance(b, Unk):
                return int((a == b) == (pred == 'eq'))
            return self.fresh_bool('pc')
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                d = lsub(a.off, b.off)
                if pred in ('eq', 'ne'):
                    c = Cmp(pred, d, None, 0)
                else:
                    p = pred[1:]
                    c = pge({'ge': d, 'le': lscale(d, -1), 'gt': ladd(d, -1), 'lt': ladd(lscale(d, -1), -1)}[p])
                if isinstance(c.a, int):
                    return int(c.a >= 0 if c.pred == 'ge' else (c.a == 0) == (c.pred == 'eq'))
                r = st.decide(c)
                return c if r is None else int(r)
            if pred in ('eq', 'ne'):
                if a.obj == 'null':
                    a, b = b, a
                if b.obj == 'null' and b.off == 0:
                    o = st.mem.get(a.obj)
                    if o is None and isinstance(a.obj, tuple) and a.obj[0] == 'L':
                        o = st.add(a.obj, self.make_lazy(st, a.obj))
                    if o is not None and o.nullable and a.off == 0:
                        c = Cmp('null' if pred == 'eq' else 'nonnull', a.obj, None, 0)
                        r = st.decide(c)
                        return c if r is None else int(r)
                    return int(pred == 'ne')
                oa, ob = st.mem.get(a.obj), st.mem.get(b.obj)
                if b.obj == 'null' and b.off in (-1, 2**64 - 1) and oa is not None and oa.kind != 'lazy' and a.off == 0:
                    return int(pred == 'ne')        # no object lies at the last address
                lazy = [o for o in (oa, ob) if o is None or o.kind == 'lazy']
                if not lazy or (len(lazy) == 1 and any(o is not None and o.kind in ('alloca', 'heap') for o in (oa, ob))):
                    return int(pred == 'ne')
        k = ('pcmp', pred, a, b)
        return sym(k, 0, 1).lin

    def fcmp(self, pred, a, b, st):
        base = {'uge': 'uge_f', 'ule': 'ule_f', 'ugt': 'ugt_f', 'ult': 'ult_f'}
        pred = base.get(pred, pred)
        if isinstance(a, Fp) and isinstance(b, Fp):
            return int(st.fdecide(a, pred, b.v)) if not (a.v != a.v) else int(pred in ('une', 'uno', 'ueq') or pred.endswith('_f'))
        if isinstance(a, Fp) and isinstance(b, FSym):
            sw = {'olt': 'ogt', 'ogt': 'olt', 'ole': 'oge', 'oge': 'ole', 'ult_f': 'ugt_f', 'ugt_f': 'ult_f', 'ule_f': 'uge_f', 'uge_f': 'ule_f'}
            a, b, pred = b, a, sw.get(pred, pred)
        if isinstance(a, FSym) and isinstance(b, Fp):
            c = Cmp('f', a, (pred, b.v), 0)
            d = st.decide(c)
            return c if d is None else int(d)
        if isinstance(a, FSym) and a is b:
            if pred in ('une', 'uno'):
                lo, hi, nan = st.frange(a)
                c = Cmp('f', a, ('uno', 0.0), 0)
                d = st.decide(c)
                return c if d is None else int(d)
            if pred in ('oeq', 'ord', 'ole', 'oge'):
                c = Cmp('f', a, ('ord', 0.0), 0)
                d = st.decide(c)
                return c if d is None else int(d)
            if pred in ('olt', 'ogt', 'one'):
                return 0
        h = self.hooks.get('fcmp')
        if h:
            r = h(self, st, pred, a, b)
            if r is not None:
                return r
        return sym(('fcmp', pred, a, b), 0, 1).lin if isinstance(a, FSym) or isinstance(b, FSym) else self.fresh_bool('fc')

    # ------------------------------------------------------------ instructions
    def step(self, d, env, st):
        """plain instructions; returns the value"""
        op = d['op']
        V = self.val
        if op == 'getelementptr':
            p = V(d['base'], env, st)
            if isinstance(p, (Lin, int)):
                p = self.int2ptr(p, st)
            if not isinstance(p, Ptr):
                if isinstance(p, Lin):
                    off = d['off']
                    for v, stride, ty in d['var']:
                        off = ladd(off, lscale(as_lin(st.to_s(V(v, env, st), tbits(ty))), stride))
                    return ladd(p, off)
                return p if isinstance(p, Unk) else Unk('gep')
            off, wraps = ladd(p.off, d['off']), False
            for v, stride, ty in d['var']:
                x = V(v, env, st)
                w = tbits(ty)
                if isinstance(x, Unk):
                    x = sym(('unk', x.key, w), 0, (1 << w) - 1).lin
                if w < 64 or stride != 1:
                    x = st.to_s(x, w)
                elif isinstance(x, (Cmp, Bits)):
                    x = st.to_u(x, w)
                elif isinstance(x, int) and x >= 1 << 63:
                    x -= 1 << 64
                elif isinstance(x, Lin) and abs(x.c) >= 1 << 62:
                    y = self.small(st, x)
                    wraps, x = y is not None, y if y is not None else x
                off = ladd(off, lscale(as_lin(x), stride))
            off = norm(off, 64) if not isinstance(off, int) and not wraps else off
            if isinstance(off, int) and off >= 1 << 63:
                off -= 1 << 64
            return Ptr(p.obj, off)
        if op == 'load':
            ty = d['ty']
            v = self.load(st, V(d['p'], env, st), ty)
            if ty == 'i1' and isinstance(v, Lin):
                v = Cmp('ne', v, None, 0)
            return v
        if op == 'store':
            v = V(d['v'], env, st)
            self.store(st, V(d['p'], env, st), v, d['size'], d['vty'])
            return None
        if op == 'alloca':
            fr = self.frames[-1]
            c = V(d['count'], env, st)
            k = ('a', fr.path, d['id'])
            size = d['asize'] * c if isinstance(c, int) else None
            st.add(k, Obj('alloca', size, 'undef', 'a local variable'))
            return Ptr(k, 0)
        if op == 'icmp':
            return self.icmp(d['pred'], V(d['ops'][0], env, st), V(d['ops'][1], env, st), d['oty'][0], st)
        if op == 'fcmp':
            return self.fcmp(d['pred'], V(d['ops'][0], env, st), V(d['ops'][1], env, st), st)
        if op in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            w = tbits(d['ty'])
            if w is None:
                return Unk('vec')
            h = self.hooks.get('binop')
            if h:
                h(self, st, d, V(d['ops'][0], env, st), V(d['ops'][1], env, st))
            return self.binop(op, V(d['ops'][0], env, st), V(d['ops'][1], env, st), w, st, d)
        if op in ('zext', 'sext', 'trunc'):
            v = V(d['ops'][0], env, st)
            w0, w1 = tbits(d['oty'][0]), tbits(d['ty'])
            if isinstance(v, Unk):
                return v
            if isinstance(v, (Ptr, Fn)):
                v = self.ptr2int(v) if isinstance(v, Ptr) else Unk('fnint')
            if op == 'zext':
                if isinstance(v, Cmp):
                    return v
                return v if isinstance(v, Bits) else st.to_u(v, w0)
            if op == 'sext':
                if isinstance(v, int):
                    return st.to_s(v, w0) % (1 << w1)
                return norm(st.to_s(v, w0), w1)
            if isinstance(v, int):
                return v % (1 << w1)
            if isinstance(v, Cmp):
                return v
            if w1 >= 8:
                lo, hi = st.range(v)
                if lo >= 0 and hi < 1 << w1:
                    return v
            b = bits_of(v, w0)
            if b is not None and len(b) >= w1:
                r = from_bits(b[:w1])
                if w1 >= 32 and isinstance(r, Bits):
                    self.lower_part(v, r, b[w1:], w1)
                return Cmp('ne', as_lin(r), None, 0) if w1 == 1 and not isinstance(r, int) else r
            return norm(as_lin(v), w1) if w1 > 1 else Cmp('ne', as_lin(self.rem(st, st.to_u(v, w0), 2)), None, 0)
        if op == 'ptrtoint':
            v = V(d['ops'][0], env, st)
            return self.ptr2int(v) if isinstance(v, Ptr) else v
        if op == 'inttoptr':
            return self.int2ptr(V(d['ops'][0], env, st), st)
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            v = V(d['ops'][0], env, st)
            t = d['ty']
            return self.typed(v, t, st) if t in ('double', 'float', 'ptr') or tbits(t) else v
        if op == 'select':
            c = V(d['ops'][0], env, st)
            t = st.decide(c) if not isinstance(c, Unk) else None
            if t is None:
                c = c if isinstance(c, Cmp) else pne(as_lin(c)) if not isinstance(c, Unk) else pne(self.fresh_bool())
                raise Split([[c], [neg(c)]])
            return V(d['ops'][1 if t else 2], env, st)
        if op == 'extractvalue':
            v = V(d['ops'][0], env, st)
            for i in d['idx']:
                v = v[i] if isinstance(v, tuple) else Unk('ev')
            return v
        if op == 'insertvalue':
            v = V(d['ops'][0], env, st)
            x = V(d['ops'][1], env, st)
            if not isinstance(v, tuple):
                n = len(d['ty']['s'])
                v = tuple(Unk('iv') for _ in range(n))
            i = d['idx'][0]
            return v[:i] + (x,) + v[i + 1:]
        if op in ('sitofp', 'uitofp'):
            return self.int2fp(op, V(d['ops'][0], env, st), tbits(d['oty'][0]), d['ty'], st)
        if op in ('fptosi', 'fptoui'):
            return self.fp2int(op, V(d['ops'][0], env, st), tbits(d['ty']), st)
        if op in ('fpext', 'fptrunc'):
            return self.fpcast(op, V(d['ops'][0], env, st), d['oty'][0], d['ty'], st)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'frem'):
            ops = [V(o, env, st) for o in d['ops']]
            return self.fpop(op, ops, d['ty'], st)
        if op == 'va_arg':
            return self.mkfresh(d['ty'], tsize(d['ty']), ('va', self.uid))
        raise GiveUp('instruction %s in %s' % (op, self.frames[-1].f.dem))

    def int2fp(self, op, v, w, ty, st):
        tw = {'double': 64, 'float': 32}.get(ty, 80)
        f = st.to_s if op == 'sitofp' else st.to_u
        v = st.const(f(v, w)) if not isinstance(v, Unk) else v
        if isinstance(v, int):
            if tw == 32:
                return Fp(struct.unpack('<f', struct.pack('<f', v))[0], 32)
            if tw == 64:
                return Fp(float(v), 64)
        if isinstance(v, Unk):
            return fsym(('i2f', v, tw), tw)
        x = fsym(('i2f', v, tw), tw, ('int', v, w, op))
        lo, hi = st.range(as_lin(v))
        # rounding is monotone
        rnd = (lambda q: struct.unpack('<f', struct.pack('<f', float(q)))[0]) if tw == 32 else float
        if tw == 80:
            rnd = lambda q: Fraction(q)
        if lo != -INF and hi != INF:
            st.fl[x] = (rnd(lo), rnd(hi), False)
        return x

    def fp2int(self, op, v, w, st):
        lo_t, hi_t = (-(1 << w - 1), (1 << w - 1) - 1) if op == 'fptosi' else (0, (1 << w) - 1)
        h = self.hooks.get('fp2int')
        lo, hi, nan = st.frange(v) if isinstance(v, (Fp, FSym)) else (-INF, INF, True)
        lo_o, hi_o = st.fopen(v, 'lo_open'), st.fopen(v, 'hi_open')
        ok = not nan and (lo > lo_t - 1 or (lo == lo_t - 1 and lo_o) or lo >= lo_t) and (hi < hi_t + 1 or (hi == hi_t + 1 and hi_o))
        # a bound of 2^63 - 1 rounds to 2^63 as a double: only < 2^63 is safe
        self.oblige(ok, 'float-to-integer-in-range', 'converts a floating point value in [%s, %s]%s to a %d bit %s integer' %
                    (lo, hi, ' or NaN' if nan else '', w, 'signed' if op == 'fptosi' else 'unsigned'))
        if isinstance(v, Fp) and ok:
            return int(v.v) % (1 << w)
        l = max(lo_t, int(lo)) if lo not in (INF, -INF) else lo_t
        u = min(hi_t, int(hi)) if hi not in (INF, -INF) else hi_t
        s = sym(('f2i', v, op, w), lo_t, hi_t, None, ('f2i', v))
        if l <= u:
            st.iv[s] = (l, u)
        return s.lin

    def fpcast(self, op, v, t0, t1, st):
        tw = {'double': 64, 'float': 32}.get(t1, 80)
        if isinstance(v, Fp):
            if tw == 32:
                try:
                    return Fp(struct.unpack('<f', struct.pack('<f', v.v))[0], 32)
                except OverflowError:
                    return Fp(INF if v.v > 0 else -INF, 32)
            return Fp(v.v, tw)
        if isinstance(v, FSym):
            if op == 'fptrunc' and v.defn and v.defn[0] == 'cast' and v.defn[1].w <= tw:
                n = v.defn[1]          # narrowing what was widened
                return n if n.w == tw else self.fpcast('fpext', n, t0, t1, st)
            x = fsym(('fcast', v, tw), tw, ('cast', v))
            if op == 'fptrunc':
                lo, hi, nan = st.frange(v)
                if tw != 32 or lo > hi:
                    st.fl[x] = (-INF, INF, nan)
                else:
                    st.fl[x] = (f32(lo), f32(hi), nan)        # rounding is monotone
            return x
        return fsym(('fcast', v, tw), tw)

    def fpop(self, op, ops, ty, st):
        tw = {'double': 64, 'float': 32}.get(ty, 80)
        if all(isinstance(o, Fp) for o in ops) and tw == 64:
            a = ops[0].v
            if op == 'fneg':
                return Fp(-a, 64)
            b = ops[1].v
            try:
                r = {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[op]()
                return Fp(r, 64)
            except (ZeroDivisionError, KeyError):
                pass
        if op == 'fneg' and isinstance(ops[0], FSym):
            x = fsym(('fneg', ops[0]), tw, ('neg', ops[0]))
            lo, hi, nan = st.frange(ops[0])
            st.fl[x] = (-hi, -lo, nan)
            st.fl[(x, 'lo_open')] = st.fopen(ops[0], 'hi_open')
            st.fl[(x, 'hi_open')] = st.fopen(ops[0], 'lo_open')
            return x
        return fsym((op,) + tuple(ops), tw, (op,) + tuple(ops))

    # ------------------------------------------------------------ calls
    def model_for(self, name):
        r = self.mcache.get(name, 0)
        if r == 0:
            r = None
            f = self.m.funcs.get(name)
            dem = models.plain(f.dem) if f else name
            for pat, fn in self.models:
                if pat.search(name) or pat.search(dem):
                    r = fn
                    break
            self.mcache[name] = r
        return r

    def callee(self, d, env, st):
        fn = d['fn']
        if fn[0] == 'F':
            return fn[1]
        v = self.val(fn, env, st)
        if isinstance(v, Fn):
            return v.name
        return None

    def call_inst(self, d, env, st):
        """list of outcomes of a call instruction"""
        name = self.callee(d, env, st)
        args = [self.val(a, env, st) for a in d['args']]
        if name is None:
            h = self.hooks.get('indirect')
            if h:
                r = h(self, st, d, args, self.val(d['fn'], env, st))
                if r is not None:
                    return r
            self.assumed.add('indirect call at %s returns anything' % self.where())
            return self.opaque(st, d, args, throws=True)
        return self.call_name(name, st, args, d)

    def call_name(self, name, st, args, d):
        if name.startswith('llvm.'):
            return models.intrinsic(self, name, st, args, d)
        mo = self.model_for(name)
        if mo is not None:
            r = mo(self, st, args, d, name)
            if r is not NotImplemented:
                return r
        f = self.m.funcs.get(name)
        if f is None or f.decl:
            self.assumed.add('external %s returns anything and changes only what its arguments point to' % (f.dem if f else name))
            return self.opaque(st, d, args, f=f)
        # arguments passed by value in memory are copied
        for i, sz in d.get('byval', []):
            self.uid += 1
            k = ('byval', self.frames[-1].path if self.frames else 0, id(d), i)
            st.add(k, Obj('alloca', sz, 'undef', 'an argument'))
            self.copy(st, Ptr(k, 0), args[i], sz)
            args = list(args)
            args[i] = Ptr(k, 0)
        return self.call(st, f, args, d)

    def opaque(self, st, d, args, throws=False, havoc=True, f=None):
        outs = []
        if havoc:
            for a in args:
                if isinstance(a, Ptr) and a.obj in st.mem:
                    o = st.mem[a.obj]
                    if not o.ro and not o.dead and o.dflt != 'bytes' and o.kind != 'glob':
                        self.havoc(st, a.obj)
        ty = d['ty'] if d else 'void'
        self.uid += 1
        v = None if ty == 'void' else self.mkfresh_any(ty, ('ext', 'ext', self.uid))
        outs.append(Outcome('ret', st, v))
        return outs

    def mkfresh_any(self, ty, key):
        if isinstance(ty, dict) and 's' in ty:
            return tuple(self.mkfresh_any(t, key + (i,)) for i, (o, t) in enumerate(ty['s']))
        return self.mkfresh(ty, tsize(ty), key)

    def call(self, st, f, args, d=None):
        if f.decl:
            raise GiveUp('no body for ' + f.dem)
        if len(self.frames) > 200 * self.max_rec:
            raise GiveUp('call depth at ' + f.dem)
        rec = sum(1 for fr in self.frames if fr.f is f)
        if rec > self.max_rec:
            h = self.hooks.get('recursion')
            if h:
                return h(self, st, f, args, d)
            raise GiveUp('recursion of ' + f.dem)
        fr = Frame()
        fr.f, fr.site, fr.env = f, None, None
        parent = self.frames[-1] if self.frames else None
        key = (parent.path if parent else 0, id(parent.site) if parent and parent.site else 0, f.name)
        fr.path = self.paths.setdefault(key, len(self.paths) + 1)
        self.frames.append(fr)
        h = self.hooks.get('enter')
        if h:
            h(self, st, f, args)
        try:
            env = {}
            for a, v in zip(f.d['args'], args):
                env[a['id']] = v
            outs = self.run(f, env, st)
        finally:
            self.frames.pop()
        # locals die
        res = []
        for o in outs:
            dead = [k for k in o.st.mem if k[0] == 'a' and k[1] == fr.path]
            dead += [k for k in o.st.mem if k[0] == 'byval' and k[1] == fr.path]
            for k in dead:
                del o.st.mem[k]
            res.append(o)
        if len(res) > 1:
            res = self.merge_outcomes(res)
        h = self.hooks.get('leave')
        if h:
            h(self, f, args, res)
        return res

    def merge_outcomes(self, outs):
        groups = {}
        for o in outs:
            groups.setdefault((o.kind, self.hashable(o.val)), []).append(o)
        res = []
        for g in groups.values():
            kept = []
            for o in g:
                for q in kept:
                    if self.same_state(q.st, o.st):
                        q.st = self.join_facts([q.st, o.st])
                        break
                else:
                    kept.append(o)
            res += kept
        if len(res) > self.max_cfgs:
            raise GiveUp('too many outcomes of %s' % (self.frames[-1].f.dem if self.frames else '?'))
        return res

    def hashable(self, v):
        try:
            hash(v)
            return v
        except TypeError:
            return repr(v)

    def same_state(self, a, b):
        if a.ghost != b.ghost or a.null != b.null:
            return False
        if self.keep_masks and a.mask != b.mask:
            return False
        if self.no_joins and (a.ne != b.ne or a.facts != b.facts or a.iv != b.iv or a.fl != b.fl):
            return False
        if len(a.mem) != len(b.mem):
            return False
        for k, o in a.mem.items():
            q = b.mem.get(k)
            if q is None or not o.same(q):
                return False
        return True

    def join_facts(self, sts):
        """states equal but for what is known about symbols"""
        a = sts[0].fork()
        rest = sts[1:]
        facts = set()
        for f in a.facts:
            if all(f in s.facts or s.entails(f) for s in rest):
                facts.add(f)
        for s in rest:
            for f in s.facts:
                if f not in facts and a.entails(f) and all(x.entails(f) for x in rest if x is not s):
                    facts.add(f)
        iv = {}
        allsyms = set(a.iv)
        for s in rest:
            allsyms |= set(s.iv)
        for y in allsyms:
            lo, hi = a.srange(y)
            for s in rest:
                l, h = s.srange(y)
                lo, hi = min(lo, l), max(hi, h)
            if (lo, hi) != (y.lo, y.hi):
                iv[y] = (lo, hi)
        mask = {}
        for b in a.mask:
            m = a.mask[b]
            for s in rest:
                m |= s.mask.get(b, (1 << 256) - 1)
            if m != (1 << 256) - 1:
                mask[b] = m
        ne = frozenset(x for x in a.ne if all(x in s.ne or s.is_zero(x) is False for s in rest))
        fl = {}
        for f, r in a.fl.items():
            if isinstance(f, tuple):
                continue
            lo, hi, nan = r
            lo_o, hi_o = a.fl.get((f, 'lo_open'), False), a.fl.get((f, 'hi_open'), False)
            ok = True
            for s in rest:
                l, h, n = s.frange(f)
                lo_o = (lo_o or l > lo) and (s.fl.get((f, 'lo_open'), False) or lo > l) if True else False
                hi_o = (hi_o or h < hi) and (s.fl.get((f, 'hi_open'), False) or hi < h)
                lo, hi, nan = min(lo, l), max(hi, h), nan or n
            fl[f] = (lo, hi, nan)
            # openness only survives when every state at the bound is open there
            fl[(f, 'lo_open')] = all((s.frange(f)[0] > lo) or s.fl.get((f, 'lo_open'), False) for s in sts)
            fl[(f, 'hi_open')] = all((s.frange(f)[1] < hi) or s.fl.get((f, 'hi_open'), False) for s in sts)
        a.facts, a.iv, a.mask, a.ne, a.fl = frozenset(facts), iv, mask, ne, fl
        return a

    # ------------------------------------------------------------ control flow
    def run(self, f, env, st):
        if f.name not in self.info:
            self.info[f.name] = analyse(f)
        back, exits, outs = self.region(f, None, 0, [(env, st)])
        return outs

    def region(self, f, loop, start, cfgs):
        """runs the blocks of a loop body (or the function) once; returns back edges, exits and outcomes"""
        livein, loops, _ = self.info[f.name]
        blocks = loops[start] if loop is not None else None
        pending = {start: cfgs}
        back, exits, outs = [], {}, []
        nb = len(f.bbs)
        order = sorted(blocks) if blocks is not None else range(nb)
        for b in order:
            cur = pending.pop(b, None)
            if not cur:
                continue
            if b in loops and not (loop is not None and b == start):
                ex, ou = self.loop(f, b, cur)
                outs += ou
                for tgt, cs in ex.items():
                    if loop is not None and tgt == start:
                        back += cs
                    elif blocks is not None and tgt not in blocks:
                        exits.setdefault(tgt, []).extend(cs)
                    else:
                        pending.setdefault(tgt, []).extend(cs)
                continue
            cur = self.merge_cfgs(f, b, cur)
            for env, st in cur:
                for s, e2, s2, oc in self.block(f, b, env, st):
                    if oc is not None:
                        outs.append(oc)
                    elif loop is not None and s == start:
                        back.append((e2, s2))
                    elif blocks is not None and s not in blocks:
                        exits.setdefault(s, []).append((e2, s2))
                    else:
                        pending.setdefault(s, []).append((e2, s2))
        return back, exits, outs

    def merge_cfgs(self, f, b, cfgs):
        if len(cfgs) < 2:
            return cfgs
        groups = {}
        for env, st in cfgs:
            k = tuple(sorted((i, self.hashable(v)) for i, v in env.items())) if False else None
            try:
                k = frozenset((i, self.hashable(v)) for i, v in env.items())
            except TypeError:
                k = id(env)
            groups.setdefault(k, []).append((env, st))
        out = []
        for g in groups.values():
            kept = []
            for env, st in g:
                for q in range(len(kept)):
                    if self.same_state(kept[q][1], st):
                        kept[q] = (env, self.join_facts([kept[q][1], st]))
                        break
                else:
                    kept.append((env, st))
            out += kept
        if len(out) > self.max_cfgs:
            raise GiveUp('too many abstract states (%d) at %s' % (len(out), f.dem))
        return out

    def edge(self, f, b, s, env, st):
        """environment at the entry of s coming from b"""
        livein = self.info[f.name][0][s]
        new = {}
        for d in f.bbs[s]['insts']:
            if d['op'] != 'phi':
                break
            for v, p in d['in']:
                if p == b:
                    new[d['id']] = self.val(v, env, st)
                    break
        e = {k: v for k, v in env.items() if k in livein}
        e.update(new)
        return e

    def block(self, f, b, env, st):
        """yields (successor, env, state, None) or (None, None, None, outcome)"""
        res = []
        insts = f.bbs[b]['insts']
        i0 = 0
        while i0 < len(insts) and insts[i0]['op'] == 'phi':
            i0 += 1
        work = [(i0, env, st)]
        fr = self.frames[-1]
        splits = {}
        while work:
            i, env, st = work.pop()
            while True:
                d = insts[i]
                op = d['op']
                fr.site = d
                self.steps += 1
                if self.steps > self.max_steps:
                    raise GiveUp('step limit in %s' % f.dem)
                try:
                    if op == 'br':
                        if 'c' not in d:
                            s = d['to'][0]
                            res.append((s, self.edge(f, b, s, env, st), st, None))
                            break
                        c = self.val(d['c'], env, st)
                        if isinstance(c, Unk):
                            c = pne(sym(('unkb', c.key), 0, 1).lin)
                        t = st.decide(c)
                        if t is not None:
                            s = d['to'][0 if t else 1]
                            res.append((s, self.edge(f, b, s, env, st), st, None))
                            break
                        if not isinstance(c, Cmp):
                            c = pne(as_lin(c))
                        st2 = st.fork()
                        if st.assume(c):
                            s = d['to'][0]
                            res.append((s, self.edge(f, b, s, env, st), st, None))
                        if st2.assume(neg(c)):
                            s = d['to'][1]
                            res.append((s, self.edge(f, b, s, dict(env), st2), st2, None))
                        break
                    if op == 'switch':
                        self.switch(f, b, d, env, st, res)
                        break
                    if op == 'ret':
                        v = self.val(d['ops'][0], env, st) if d.get('ops') else None
                        res.append((None, None, None, Outcome('ret', st, v)))
                        break
                    if op == 'unreachable':
                        break
                    if op == 'resume':
                        v = self.val(d['ops'][0], env, st)
                        e = v[0] if isinstance(v, tuple) else v
                        res.append((None, None, None, Outcome('throw', st, e)))
                        break
                    if op in ('call', 'invoke'):
                        fr.env = env
                        outs = self.call_inst(d, env, st)
                        conts = []
                        for o in outs:
                            if o.kind == 'ret':
                                e2 = dict(env) if len(outs) > 1 else env
                                if 'id' in d:
                                    e2[d['id']] = o.val
                                conts.append((e2, o.st))
                            elif o.kind == 'throw':
                                if op == 'invoke':
                                    s = d['unwind']
                                    e2 = self.edge(f, b, s, env, o.st)
                                    e2['exc'] = o.val
                                    res.append((s, e2, o.st, None))
                                else:
                                    res.append((None, None, None, o))
                            else:
                                res.append((None, None, None, o))
                        if op == 'invoke':
                            for e2, s2 in conts:
                                s = d['normal']
                                res.append((s, self.edge(f, b, s, e2, s2), s2, None))
                            break
                        if not conts:
                            break
                        for e2, s2 in conts[1:]:
                            work.append((i + 1, e2, s2))
                        env, st = conts[0]
                        i += 1
                        continue
                    if op == 'landingpad':
                        env = dict(env)
                        e = env.pop('exc', None)
                        env[d['id']] = (e, ('sel', self.selector(d, e)))
                        i += 1
                        continue
                    v = self.step(d, env, st)
                    if 'id' in d:
                        env[d['id']] = v
                    i += 1
                except Split as sp:
                    alts = []
                    splits[i] = splits.get(i, 0) + 1
                    if self.debug and splits[i] < 12:
                        print("   split", f.loc(d), sp.alts)
                    if splits[i] > self.max_splits:
                        raise GiveUp('case distinction does not end at %s of %s: %r' % (f.loc(d), f.dem, sp.alts))
                    for cond in sp.alts:
                        s2 = st.fork()
                        if all(s2.assume(c) for c in cond):
                            alts.append(s2)
                    if not alts:
                        break
                    for s2 in alts[1:]:
                        work.append((i, dict(env), s2))
                    st = alts[0]
                    env = dict(env)
        return res

    def lower_part(self, v, r, up, w):
        """the value is its lower part and the upper one"""
        v, r = as_lin(v), as_lin(r)
        if isinstance(v, int) or isinstance(r, int) or len(v.t) != 1 or v.c or len(r.t) != 1 or r.c or v.t == r.t:
            return
        s = r.t[0][0]
        q = as_lin(from_bits(up))
        x = lsub(lsub(v, r), lscale(q, 1 << w))
        if not isinstance(x, int) and x not in s.axioms:
            s.axioms += (x, lscale(x, -1))

    def switch(self, f, b, d, env, st, res):
        v = self.val(d['c'], env, st)
        w = tbits(d['cty'])
        if isinstance(v, Unk):
            v = sym(('unk', v.key, w), 0, (1 << w) - 1).lin
        v = as_lin(st.to_u(v, w))
        v = st.const(v)
        if isinstance(v, int):
            t = d['def']
            for c, to in d['cases']:
                if int(c[2]) == v:
                    t = to
            res.append((t, self.edge(f, b, t, env, st), st, None))
            return
        bytgt = {}
        for c, to in d['cases']:
            bytgt.setdefault(to, []).append(int(c[2]))
        src = byte_source(v)
        rest = st.fork()
        alive = True
        for to, vals in bytgt.items():
            if to == d['def']:
                continue
            if src is not None:
                vs = set(vals)
                s2 = st.fork()
                if s2.maskfilter(src, lambda x: eval_byte(v, x) in vs):
                    res.append((to, self.edge(f, b, to, dict(env), s2), s2, None))
                if alive and not rest.maskfilter(src, lambda x: eval_byte(v, x) not in vs):
                    alive = False
                continue
            for x in vals:
                s2 = st.fork()
                if s2.assume(peq(ladd(v, -x))):
                    res.append((to, self.edge(f, b, to, dict(env), s2), s2, None))
                if alive and not rest.assume(pne(ladd(v, -x))):
                    alive = False
        if alive:
            res.append((d['def'], self.edge(f, b, d['def'], dict(env), rest), rest, None))

    def selector(self, d, e):
        """which clause of a landing pad catches the exception"""
        for kind, c in d['clauses']:
            if kind == 'catch':
                if c[0] in ('n', 'z', 'u'):
                    return 'all'
                if e is not None and self.derives(e[1] if isinstance(e, tuple) else None, c[1]):
                    return c[1]
        return 0

    def derives(self, t, base):
        if t == base:
            return True
        if t is None:
            return False
        g = self.m.globals.get(t)
        if not g:
            return False
        for _, _, c in g.get('init') or []:
            if c and c[0] == 'g' and c[1].startswith('_ZTI') and c[1] != t and self.derives(c[1], base):
                return True
        return False

    # ------------------------------------------------------------ loops
    def unroll_limit(self, f):
        for pat, n in self.unroll_by:
            if pat.search(f.dem):
                return n
        return self.unroll

    def loop(self, f, b, cfgs):
        from loops import run_loop
        return run_loop(self, f, b, cfgs)
