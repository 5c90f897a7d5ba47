"""Values of the library as abstract objects: where a Value keeps type and payload is read off its own constructors."""
from ai import *
from build import Broken

CTYPES = {'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32,
          'long': 64, 'unsigned long': 64}
_lay = {}


class Layout:
    def __init__(self, m):
        self.m = m
        self.tag = {}
        self.pay = self.type = None
        for c, w in list(CTYPES.items()) + [('bool', 1), ('float', 32), ('double', 64)]:
            fs = [f for f in m.find(r'Srl::Value::Value<%s>\(' % c) if not f.decl]
            if not fs:
                raise Broken('no constructor of Value for ' + c)
            R = Run(None, m)
            R.I.mute = 1
            signed = c in ('signed char', 'short', 'int', 'long')
            if c in ('float', 'double'):
                v = fsym(('arg', c), w)
                a = R.obj(w // 8, 'arg', cells={0: (w // 8, v)})
            else:
                v = sym(('arg', c), -(1 << w - 1) if signed else 0, (1 << w - 1) - 1 if signed else (1 << w) - 1).lin
                n = max(1, w // 8)
                a = R.obj(n, 'arg', cells={0: (n, v)})
            o = R.obj(96, 'value', 'undef')
            outs = R.call(fs[0], o, a)
            if self.type is None:
                self.type = self.read_off(m)
            tags = set()
            for x in outs:
                if x.kind == 'ret':
                    cs = x.st.mem[o.obj].cells
                    t = cs.get(self.type)
                    if t and isinstance(x.st.const(t[1]), int):
                        tags.add(x.st.const(t[1]))
                    for off, (sz, val) in cs.items():
                        if sz == 8 and c == 'unsigned long' and val == v:
                            self.pay = off
            if c not in ('float', 'double') and len(tags) != 1:
                raise Broken('type of a Value of %s is not one constant' % c)
            self.tag[c] = sorted(tags)
        if self.pay is None:
            raise Broken('payload of a Value not found')

    def read_off(self, m):
        """offset Value::type() reads"""
        R = Run(None, m)
        R.I.mute = 1
        o = R.obj(96, 'value')
        out = [x for x in R.call(m.one(r'^Srl::Value::type\(\) const$'), o) if x.kind == 'ret']
        s = as_lin(out[0].val)
        for y, _ in s.t:
            if isinstance(y.key, tuple) and y.key[0] == 'm':
                return y.key[3]
        raise Broken('type of a Value not found')

    def obj(self, R, name, tag, payload, size=8, more=None):
        cells = {self.type: (1, tag), self.pay: (size, payload)}
        cells.update(more or {})
        return R.obj(96, name, 'lazy', cells)

    def of(self, st, p, at=0):
        """(type, payload) of a Value object"""
        o = st.mem[p.obj]
        t, v = o.cells.get(at + self.type), o.cells.get(at + self.pay)
        return (st.const(t[1]) if t else None), (v[1] if v else None)


def layout(m):
    if id(m) not in _lay:
        _lay[id(m)] = Layout(m)
    return _lay[id(m)]
