"""Contracts of the C++ runtime and standard library used by the abstract interpreter."""
import re
from dom import *
from state import *

MODELS = []


def plain(dem):
    """qualified name without template arguments, parameters and return type"""
    d = re.sub(r'operator(<=>|<<=?|>>=?|<=?|>=?|->\*?|\(\))', lambda g: 'operator' + {'<': 'lt', '>': 'gt', '-': 'ar', '(': 'call'}[g.group(1)[0]] + str(len(g.group(1))), dem)
    d = d.replace('(anonymous namespace)', '_anon_').replace("decltype(nullptr)", 'nullptr_t')
    out, depth = [], 0
    for i, c in enumerate(d):
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            if c == '(':
                break
            out.append(c)
    t = ''.join(out)
    t = re.sub(r'\[abi:\w+\]', '', t)
    return t.split(' ')[-1]


def model(pat):
    def deco(fn):
        MODELS.append((re.compile(pat), fn))
        return fn
    return deco


def ret(I, st, v=None):
    from absint import Outcome
    return [Outcome('ret', st, v)]


def thrown(I, st, ti, obj=None):
    from absint import Outcome
    return [Outcome('throw', st, (obj, ti))]


def intrinsic(I, name, st, args, d):
    from absint import Outcome, tbits
    if name.startswith(('llvm.memcpy', 'llvm.memmove')):
        I.copy(st, args[0], args[1], args[2] if isinstance(args[2], int) else st.to_u(args[2], 64))
        return ret(I, st)
    if name.startswith('llvm.memset'):
        I.fill(st, args[0], args[1], args[2] if isinstance(args[2], int) else st.to_u(args[2], 64))
        return ret(I, st)
    if name.startswith('llvm.eh.typeid.for'):
        t = d['args'][0]
        return ret(I, st, ('tid', t[1] if t[0] == 'g' else '?'))
    if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.va_')):
        return ret(I, st)
    if name.startswith('llvm.trap'):
        return []
    if name.startswith('llvm.floor') or name.startswith('llvm.trunc'):
        v = args[0]
        if isinstance(v, Fp):
            import math
            return ret(I, st, Fp(float(math.floor(v.v)) if abs(v.v) < 1e300 else v.v, v.w))
        x = fsym((name, v), 64, (name, v))
        if isinstance(v, FSym):
            lo, hi, nan = st.frange(v)
            st.fl[x] = (lo - 1 if lo != -INF else lo, hi, nan)
        return ret(I, st, x)
    if name.startswith(('llvm.maxnum', 'llvm.minnum', 'llvm.fabs')):
        if all(isinstance(a, Fp) for a in args):
            f = {'llvm.maxnum': max, 'llvm.minnum': min}.get(name[:11])
            v = f(a.v for a in args) if f else abs(args[0].v)
            return ret(I, st, Fp(v, args[0].w))
        return ret(I, st, fsym((name,) + tuple(args), 64))
    w = tbits(d['ty']) if isinstance(d['ty'], str) else None
    if name.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
        f = st.to_u if name[5] == 'u' else st.to_s
        a, b = as_lin(f(args[0], w)), as_lin(f(args[1], w))
        c = pge(lsub(a, b))
        t = st.decide(c)
        if t is None:
            raise Split([[c], [neg(c)]])
        big = 'max' in name
        return ret(I, st, a if t == big else b)
    m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)', name)
    if m:
        w = int(m.group(3))
        cv = st.to_u if m.group(1) == 'u' else st.to_s
        lo, hi = (0, (1 << w) - 1) if m.group(1) == 'u' else (-(1 << w - 1), (1 << w - 1) - 1)
        a, b = st.const(cv(args[0], w)), st.const(cv(args[1], w))
        op = m.group(2)
        if op == 'mul' and isinstance(a, int):
            a, b = b, a
        if op != 'mul' or isinstance(b, int):
            p = ladd(as_lin(a), as_lin(b)) if op == 'add' else lsub(as_lin(a), as_lin(b)) if op == 'sub' else lscale(as_lin(a), b)
            for c in (pge(ladd(p, -lo)), pge(lsub(hi, p))):
                t = st.decide(c)
                if t is None:
                    raise Split([[c], [neg(c)]])
                if not t:
                    return ret(I, st, (norm(p, w), 1))
            return ret(I, st, (p, 0))
        return ret(I, st, (I.fresh(w), I.fresh_bool()))
    I.assumed.add('intrinsic %s returns anything' % name)
    return I.opaque(st, d, args)


# ------------------------------------------------------------------ exceptions
@model(r'^__cxa_allocate_exception$')
def _(I, st, a, d, n):
    k = I.newobj(st, 'exc', None, 'undef', 'an exception object')
    return ret(I, st, Ptr(k, 0))


@model(r'^__cxa_free_exception$|^__cxa_end_catch$')
def _(I, st, a, d, n):
    return ret(I, st)


@model(r'^__cxa_begin_catch$')
def _(I, st, a, d, n):
    e = a[0]
    st.ghost = dict(st.ghost)
    st.ghost['caught'] = e
    return ret(I, st, e[0] if isinstance(e, tuple) and isinstance(e[0], Ptr) else Unk('exc'))


@model(r'^__cxa_rethrow$')
def _(I, st, a, d, n):
    from absint import Outcome
    return [Outcome('throw', st, st.ghost.get('caught'))]


@model(r'^__cxa_throw$')
def _(I, st, a, d, n):
    t = d['args'][1]
    ti = t[1] if t[0] == 'g' else None
    h = I.hooks.get('throw')
    if h:
        h(I, st, ti)
    if isinstance(a[0], Ptr) and a[0].obj in st.mem:
        del st.mem[a[0].obj]
    return thrown(I, st, ti)


@model(r'^__clang_call_terminate$|^_ZSt9terminatev$|^abort$|^exit$')
def _(I, st, a, d, n):
    return []


@model(r'^__cxa_guard_acquire$')
def _(I, st, a, d, n):
    return ret(I, st, 1)


@model(r'^__cxa_guard_release$|^__cxa_guard_abort$|^__cxa_atexit$')
def _(I, st, a, d, n):
    return ret(I, st, 0)


# ------------------------------------------------------------------ memory
@model(r'^_Znwm$|^_Znam$|^malloc$')
def _(I, st, a, d, n):
    size = st.const(st.to_u(a[0], 64))
    k = I.newobj(st, 'heap', size, 'undef', 'heap block')
    return ret(I, st, Ptr(k, 0))


@model(r'^_ZdlPv|^_ZdaPv|^free$')
def _(I, st, a, d, n):
    p = a[0]
    if isinstance(p, Ptr) and p.obj != 'null' and p.obj in st.mem:
        o = st.mem[p.obj]
        if o.dead:
            I.oblige(False, 'no-double-free', 'frees %s twice' % o.name)
        elif o.kind == 'heap':
            I.oblige(True, 'no-double-free', '')
        w = st.wobj(p.obj)
        if o.kind in ('heap', 'vec', 'lazy'):
            w.dead = True
            w.cells = {}
    return ret(I, st)


@model(r'^memcpy$|^memmove$')
def _(I, st, a, d, n):
    I.copy(st, a[0], a[1], st.to_u(a[2], 64))
    return ret(I, st, a[0])


@model(r'^memset$')
def _(I, st, a, d, n):
    I.fill(st, a[0], a[1], st.to_u(a[2], 64))
    return ret(I, st, a[0])


@model(r'^memcmp$|^bcmp$')
def _(I, st, a, d, n):
    sz = st.const(st.to_u(a[2], 64))
    if sz == 0:
        return ret(I, st, 0)
    if isinstance(sz, Lin) and st.is_zero(sz) is None:
        raise Split([[peq(sz)], [pne(sz)]])
    I.resolve_obj(st, a[0], sz, 'reads')
    I.resolve_obj(st, a[1], sz, 'reads')
    if isinstance(sz, int) and sz <= 8 and isinstance(a[0], Ptr) and isinstance(a[1], Ptr):
        x = I.load(st, a[0], 'i%d' % (8 * sz))
        y = I.load(st, a[1], 'i%d' % (8 * sz))
        if isinstance(x, (int, Lin, Bits)) and isinstance(y, (int, Lin, Bits)):
            z = st.is_zero(lsub(as_lin(x), as_lin(y)))
            if z is not None:
                return ret(I, st, 0 if z else 1)
            c = peq(lsub(as_lin(x), as_lin(y)))
            raise Split([[c], [neg(c)]])
    if isinstance(a[0], Ptr) and isinstance(a[1], Ptr):
        if a[0].obj == a[1].obj and st.is_zero(lsub(a[0].off, a[1].off)) is True:
            return ret(I, st, 0)
        if isinstance(sz, int) and sz <= 512:
            same = True
            for i in range(sz):
                x, y = (st.const(as_lin(v)) if isinstance(v, (int, Lin, Bits)) else None
                        for v in (I.load(st, Ptr(q.obj, ladd(q.off, i)), 'i8') for q in a[:2]))
                z = None if x is None or y is None else st.is_zero(lsub(x, y))
                if z is False and same is True and isinstance(x, int) and isinstance(y, int):
                    return ret(I, st, 1 if x > y else (1 << 32) - 1)
                if z is False:
                    # they differ, the first difference is not known
                    return ret(I, st, I.fresh(32, 'cmp', 1))
                if z is None:
                    same = False
            if same:
                return ret(I, st, 0)
    return ret(I, st, I.fresh(32, 'cmp'))


@model(r'^strlen$')
def _(I, st, a, d, n):
    p = a[0]
    if isinstance(p, Ptr) and p.obj in st.mem and isinstance(p.off, int):
        o = st.mem[p.obj]
        i = p.off
        while isinstance(i, int) and i < (o.size if isinstance(o.size, int) else 0):
            c = o.cells.get(i)
            if c is None:
                if o.dflt == 'zero':
                    return ret(I, st, i - p.off)
                break
            if c[1] == 0:
                return ret(I, st, i - p.off)
            if not isinstance(c[1], int):
                break
            i += 1
    return ret(I, st, I.fresh(64, 'strlen', 0, 1 << 32))


@model(r'^__errno_location$')
def _(I, st, a, d, n):
    k = ('errno',)
    if k not in st.mem:
        st.add(k, Obj('glob', 4, 'lazy', 'errno'))
    return ret(I, st, Ptr(k, 0))


# ------------------------------------------------------------------ strings are opaque
def opaque_string(I, st, a, d, n):
    """no effect on anything the analyses observe"""
    if '__new_allocator' in n and ('8allocateE' in n or '10deallocateE' in n) and n in I.m.funcs and not I.m.funcs[n].decl:
        return NotImplemented
    ty = d['ty'] if d else 'void'
    for x in a[:1]:
        if isinstance(x, Ptr) and x.obj in st.mem and not st.mem[x.obj].ro and not n.startswith('_ZNK') and '~' not in (I.m.funcs[n].dem if n in I.m.funcs else ''):
            if st.mem[x.obj].kind == 'alloca':
                o = st.wobj(x.obj)
                o.dflt = 'lazy'
    if ty == 'void':
        return ret(I, st)
    I.uid += 1
    if ty == 'ptr':
        return ret(I, st, a[0] if a and isinstance(a[0], Ptr) else Ptr(('L', 'str', I.uid), 0))
    return ret(I, st, I.mkfresh_any(ty, ('str', 'str', I.uid)))


MODELS.append((re.compile(r'^std::(__cxx11::)?(basic_string|to_string|allocator|__new_allocator|char_traits|exception|runtime_error)\b|'
                          r'^std::operator\+$|^Srl::Exception::'), opaque_string))


# ------------------------------------------------------------------ std::vector of trivial elements
# layout of libstdc++: begin, end, end of storage
def velem(I, name):
    dem = I.m.funcs[name].dem
    g = re.search(r'vector<((?:[^<>]|<[^<>]*>)*?), std::allocator', dem)
    t = g.group(1) if g else ''
    return {'unsigned char': 1, 'char': 1, 'signed char': 1, 'bool': 0, 'unsigned short': 2, 'short': 2, 'unsigned int': 4, 'int': 4,
            'unsigned long': 8, 'long': 8, 'double': 8, 'float': 4}.get(t, 8 if t.endswith('*') else {'Srl::Lib::MemBlock': 16}.get(t, 0))


def vparts(I, st, v):
    b = I.load(st, v, 'ptr')
    e = I.load(st, Ptr(v.obj, ladd(v.off, 8)), 'ptr')
    return b, e


def vsize(I, st, v):
    b, e = vparts(I, st, v)
    if isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj == e.obj:
        return lsub(e.off, b.off)
    if isinstance(b, Ptr) and isinstance(e, Ptr):
        if b.obj == 'null':
            return 0
    return None


def vset(I, st, v, b, e, c=None):
    I.store(st, v, b, 8)
    I.store(st, Ptr(v.obj, ladd(v.off, 8)), e, 8)
    I.store(st, Ptr(v.obj, ladd(v.off, 16)), c or e, 8)


def vnew(I, st, v, n, dflt):
    k = I.newobj(st, 'vec', n, dflt, "a vector's storage")
    vset(I, st, v, Ptr(k, 0), Ptr(k, n))
    return k


def vector_op(I, st, a, d, n):
    dem = I.m.funcs[n].dem
    es = velem(I, n)
    g = re.search(r'std::vector<.*>>::(~?[a-zA-Z_]+|operator=|operator\[\])\(', dem) or re.search(r'::(~?[a-zA-Z_]+|operator=)\(', dem)
    g = re.match(r'(?:void |[\w:<>, *&]*? )?std::vector<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>::(~?\w+|operator=|operator\[\])(?:<[^()]*>)?\(', dem)
    if not g or es == 0:
        return NotImplemented
    op = g.group(1)
    v = a[0]
    if not isinstance(v, Ptr):
        return NotImplemented
    h = I.hooks.get('vector')
    if h:
        r = h(I, st, v, op, a, d, n, es)
        if r is not None:
            return r
    if op == 'vector':
        if len(a) == 1 or (len(a) == 2 and 'allocator<' in dem.split('(', 1)[1] and 'unsigned long' not in dem.split('(', 1)[1] and 'initializer_list' not in dem.split('(', 1)[1] and 'vector' not in dem.split('(', 1)[1]):
            vset(I, st, v, NULL, NULL)
            return ret(I, st)
        sig = dem.rsplit('::vector', 1)[-1]
        if sig.startswith('(unsigned long'):
            cnt = st.to_u(a[1], 64)
            sz = lscale(as_lin(cnt), es)
            if st.decide(pge(lsub((1 << 62), sz))) is None:
                # longer requests end in std::length_error or bad_alloc
                if not st.assume(pge(lsub(1 << 62, sz))):
                    return []
            vnew(I, st, v, st.const(sz), 'zero' if 'const&, ' not in sig.replace('std::allocator', '') or len(a) == 3 else 'lazy')
            return ret(I, st)
        if 'std::vector<' in sig and '&&' in sig:
            b, e = vparts(I, st, a[1])
            c = I.load(st, Ptr(a[1].obj, ladd(a[1].off, 16)), 'ptr')
            vset(I, st, v, b, e, c)
            vset(I, st, a[1], NULL, NULL)
            return ret(I, st)
        if 'std::vector<' in sig or 'initializer_list' in sig:
            src = vsize(I, st, a[1]) if 'initializer_list' not in sig else None
            vnew(I, st, v, src if src is not None else I.fresh(64, 'vn', 0, 1 << 62), 'lazy')
            return ret(I, st)
        return NotImplemented
    if op == '~vector':
        b, e = vparts(I, st, v)
        if isinstance(b, Ptr) and b.obj in st.mem and st.mem[b.obj].kind == 'vec':
            o = st.wobj(b.obj)
            o.dead = 'destroyed'
            o.cells = {}
        return ret(I, st)
    if op == 'clear':
        b, e = vparts(I, st, v)
        c = I.load(st, Ptr(v.obj, ladd(v.off, 16)), 'ptr')
        vset(I, st, v, b, b, c)
        return ret(I, st)
    if op == 'resize':
        cur = vsize(I, st, v)
        new = lscale(as_lin(st.to_u(a[1], 64)), es)
        if cur is None:
            cur = I.fresh(64, 'vs', 0, 1 << 62)
        c = pge(lsub(cur, new))
        t = st.decide(c)
        if t is None:
            raise Split([[c], [neg(c)]])
        b, e = vparts(I, st, v)
        cp = I.load(st, Ptr(v.obj, ladd(v.off, 16)), 'ptr')
        if t:
            if isinstance(b, Ptr) and b.obj != 'null':
                vset(I, st, v, b, Ptr(b.obj, ladd(b.off, new)), cp)
                if b.obj in st.mem and st.mem[b.obj].kind == 'vec':
                    st.wobj(b.obj).size = ladd(b.off, new) if b.off != 0 else new
            return ret(I, st)
        if not st.assume(pge(lsub(1 << 62, new))):
            return []
        old = st.mem.get(b.obj) if isinstance(b, Ptr) and b.obj != 'null' else None
        k = I.newobj(st, 'vec', st.const(new), 'zero', "a vector's storage")
        o = st.wobj(k)
        if old is not None:
            o.cells = {c: x for c, x in old.cells.items() if isinstance(c, int) and isinstance(cur, int) and c + x[0] <= cur or not isinstance(c, int) or not isinstance(cur, int)}
            if not (isinstance(cur, int) and cur == 0):
                o.dflt = 'lazy'
                I.uid += 1
                o.ver = I.uid
            if old.kind == 'vec':
                w = st.wobj(b.obj)
                w.dead = 'reallocated'
                w.cells = {}
        vset(I, st, v, Ptr(k, 0), Ptr(k, st.const(new)))
        return ret(I, st)
    at_end = False
    if op == 'insert' and len(a) == 3 and isinstance(a[1], Ptr) and isinstance(a[2], Ptr):
        e = vparts(I, st, v)[1]
        at_end = isinstance(e, Ptr) and e.obj == a[1].obj and st.is_zero(lsub(e.off, a[1].off)) is True
        a = [v, a[2]] if at_end else a
    if op in ('push_back', 'emplace_back') or at_end:
        cur = vsize(I, st, v)
        b, e = vparts(I, st, v)
        if cur is None:
            cur = I.fresh(64, 'vs', 0, 1 << 62)
        old = st.mem.get(b.obj) if isinstance(b, Ptr) and b.obj != 'null' else None
        k = I.newobj(st, 'vec', ladd(cur, es), 'lazy', "a vector's storage")
        o = st.wobj(k)
        if old is not None:
            o.cells = dict(old.cells)
            if old.kind == 'vec':
                w = st.wobj(b.obj)
                w.dead = 'reallocated'
                w.cells = {}
        vset(I, st, v, Ptr(k, 0), Ptr(k, ladd(cur, es)))
        if len(a) > 1 and isinstance(a[1], Ptr):
            I.copy(st, Ptr(k, cur), a[1], es)
        return ret(I, st, Ptr(k, cur))
    if op == 'reserve':
        return ret(I, st)
    if op in ('operator=', 'assign', 'swap', 'shrink_to_fit', 'insert', 'erase', 'pop_back'):
        if op == 'operator=' and '&&' in dem.rsplit('operator=', 1)[1]:
            b, e = vparts(I, st, a[1])
            c = I.load(st, Ptr(a[1].obj, ladd(a[1].off, 16)), 'ptr')
            vset(I, st, v, b, e, c)
            vset(I, st, a[1], NULL, NULL)
            return ret(I, st, v)
        if op == 'swap':
            x = [I.load(st, Ptr(q.obj, ladd(q.off, o)), 'ptr') for q in a[:2] for o in (0, 8, 16)]
            vset(I, st, a[0], x[3], x[4], x[5])
            vset(I, st, a[1], x[0], x[1], x[2])
            return ret(I, st)
        if op == 'pop_back':
            b, e = vparts(I, st, v)
            cur = vsize(I, st, v)
            if cur is not None:
                I.oblige(st.entails(ladd(cur, -es)), 'no-access-to-empty-container', 'pop_back on a vector that may be empty')
            I.store(st, Ptr(v.obj, ladd(v.off, 8)), Ptr(e.obj, ladd(e.off, -es)), 8)
            return ret(I, st)
        b, e = vparts(I, st, v)
        if isinstance(b, Ptr) and b.obj in st.mem and st.mem[b.obj].kind == 'vec':
            w = st.wobj(b.obj)
            w.dead = 'reallocated'
            w.cells = {}
        size = None
        if op == 'operator=':
            size = vsize(I, st, a[1])
        k = vnew(I, st, v, size if size is not None else I.fresh(64, 'vs', 0, 1 << 62), 'lazy')
        return ret(I, st, v if op == 'operator=' else Ptr(k, I.fresh(64, 'it', 0, 1 << 62)) if d['ty'] == 'ptr' else None)
    return NotImplemented


MODELS.append((re.compile(r'^std::vector::'), vector_op))


@model(r'^fpconv_dtoa$')
def _(I, st, a, d, n):
    """at most 24 characters are written"""
    I.uid += 1
    I.fill(st, a[1], Unk(('dtoa', I.uid)), 24)
    return ret(I, st, sym(('dtoa', I.uid), 1, 24).lin)


# ---------------------------------------------------------------- the nodes of std::list: next, previous
@model(r'^std::__detail::_List_node_base::_M_(un)?hook$')
def list_hook(I, st, a, d, n):
    this = a[0]
    at = lambda p, i: Ptr(p.obj, ladd(p.off, i))
    if not isinstance(this, Ptr):
        return NotImplemented
    if 'unhook' in n:
        nxt, prv = I.load(st, this, 'ptr'), I.load(st, at(this, 8), 'ptr')
        if not isinstance(nxt, Ptr) or not isinstance(prv, Ptr):
            return NotImplemented
        I.store(st, prv, nxt, 8, 'ptr')
        I.store(st, at(nxt, 8), prv, 8, 'ptr')
        return ret(I, st)
    pos = a[1]
    prv = I.load(st, at(pos, 8), 'ptr') if isinstance(pos, Ptr) else None
    if not isinstance(prv, Ptr):
        return NotImplemented
    I.store(st, this, pos, 8, 'ptr')
    I.store(st, at(this, 8), prv, 8, 'ptr')
    I.store(st, prv, this, 8, 'ptr')
    I.store(st, at(pos, 8), this, 8, 'ptr')
    return ret(I, st)
