"""Values of the symbolic interpreter."""
from .terms import *

F = FALSE


class Unsupported(Exception):
    """the construct is outside the verifier's reach"""


class PyRaise(Exception):
    """an exception raised by the interpreted program"""
    def __init__(self, etype, msg='', val=None):
        self.etype, self.msg, self.val = etype, msg, val
        super().__init__(f'{etype}: {msg}')


class DeadPath(Exception):
    """contradictory path condition"""


class NeedCarry(Exception):
    """a loop reads a location changed by an earlier iteration"""
    def __init__(self, loc):
        self.loc = loc
        super().__init__(str(loc))


SER = [0]


def serial():
    SER[0] += 1
    return SER[0]


RANK = {'bool': 0, 'npbool': 0, 'int': 1, 'npint': 1, 'float': 2, 'npfloat': 2, 'complex': 3, 'npcomplex': 3}
KIND = ['bool', 'int', 'float', 'complex']
DTK = {'b': 'npbool', 'i': 'npint', 'f': 'npfloat', 'c': 'npcomplex'}
KDT = {0: 'b', 1: 'i', 2: 'f', 3: 'c'}


class Sc:
    """symbolic scalar"""
    __slots__ = ('t', 'nan', 'kind')

    def __init__(self, t, kind=None, nan=F):
        t = lift(t)
        if kind is None:
            kind = {'I': 'int', 'R': 'float', 'B': 'bool'}[t.sort]
        self.t, self.kind, self.nan = t, kind, nan

    def __repr__(self):
        return f'Sc({show(self.t)[:80]}, {self.kind}' + (f', nan={show(self.nan)[:40]})' if self.nan is not F else ')')


def sc(v):
    """native number or Sc -> Sc"""
    if isinstance(v, Sc):
        return v
    if isinstance(v, bool):
        return Sc(const(v), 'bool')
    if isinstance(v, int):
        return Sc(const(v), 'int')
    if isinstance(v, float):
        if v != v:
            return Sc(ZERO, 'float', TRUE)
        if v in (float('inf'), float('-inf')):
            raise Unsupported('arithmetic with infinity')
        return Sc(const(v), 'float')
    raise Unsupported(f'number expected, got {v!r}')


def isnum(v):
    return isinstance(v, (Sc, bool, int, float))


def native(v):
    """Sc with a constant term of a python kind -> native value"""
    if isinstance(v, Sc) and v.nan is F and v.t.op == 'const':
        c = v.t.args[0]
        if v.kind == 'bool':
            return bool(c)
        if v.kind == 'int':
            return int(c)
    return v


def cint(v):
    """concrete int of a native/Sc/T, or None"""
    if isinstance(v, Sc):
        v = v.t
    if isinstance(v, T):
        if v.op == 'const' and v.sort == 'I':
            return int(v.args[0])
        return None
    if isinstance(v, int):
        return int(v)
    return None


# ------------------------------------------------------------------ array contents
class FnC:
    """content given by a function of the index tuple -> (nan, val)"""

    def __init__(self, fn):
        self.fn, self.memo = fn, {}

    def at(self, idx):
        r = self.memo.get(idx)
        if r is None:
            r = self.memo[idx] = self.fn(idx)
        return r

    def over(self, base, idx):
        if self is base:
            return (FALSE, FALSE, ZERO)
        return (TRUE,) + self.at(idx)


class WrC:
    """prev overwritten where guard holds"""

    def __init__(self, prev, guard, val):
        self.prev, self.guard, self.val, self.memo = prev, guard, val, {}

    def at(self, idx):
        r = self.memo.get(idx)
        if r is None:
            g = self.guard(idx)
            if g is TRUE:
                r = self.val(idx)
            elif g is FALSE:
                r = self.prev.at(idx)
            else:
                n, v = self.val(idx)
                n0, v0 = self.prev.at(idx)
                r = (ite(g, n, n0), ite(g, v, v0))
            self.memo[idx] = r
        return r

    def over(self, base, idx):
        g = self.guard(idx)
        if g is FALSE:
            return self.prev.over(base, idx) if self is not base else (FALSE, FALSE, ZERO)
        n, v = self.val(idx)
        if g is TRUE:
            return TRUE, n, v
        g0, n0, v0 = self.prev.over(base, idx)
        return or_(g, g0), ite(g, n, n0), ite(g, v, v0)


class IteC:
    def __init__(self, cond, a, b):
        self.cond, self.a, self.b, self.memo = cond, a, b, {}

    def at(self, idx):
        r = self.memo.get(idx)
        if r is None:
            n1, v1 = self.a.at(idx)
            n2, v2 = self.b.at(idx)
            r = self.memo[idx] = (ite(self.cond, n1, n2), ite(self.cond, v1, v2))
        return r

    def over(self, base, idx):
        g1, n1, v1 = self.a.over(base, idx)
        g2, n2, v2 = self.b.over(base, idx)
        c = self.cond
        return ite(c, g1, g2), ite(c, n1, n2), ite(c, v1, v2)


class Cell:
    __slots__ = ('content', 'shape', 'dtype', 'ser', 'label')

    def __init__(self, shape, content, dtype, label=None):
        self.shape, self.content, self.dtype, self.label = shape, content, dtype, label
        self.ser = serial()


class Arr:
    """ndarray: view on a cell. maps: per cell dimension ('fix', t) | ('sl', start, step, viewdim)."""
    __slots__ = ('cell', 'maps', 'shape', 'dtype', 'sel', 'ro', 'tag')

    def __init__(self, cell, maps, shape, sel=None, ro=False):
        self.cell, self.maps, self.shape = cell, maps, tuple(shape)
        self.dtype = cell.dtype
        self.sel = sel          # None or tuple per dim of None | guard fn(k)
        self.ro = ro            # numpy would give a view whose writes are not modelled
        self.tag = None

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, idx):
        idx = tuple(lift(i) for i in idx)
        if self.maps is None:
            return self.cell.content.at(idx)
        b = []
        for m in self.maps:
            if m[0] == 'fix':
                b.append(m[1])
            else:
                _, st, step, d = m
                b.append(add(st, mul(step, idx[d])))
        return self.cell.content.at(tuple(b))

    def guard(self, d, k):
        if self.sel is None or self.sel[d] is None:
            return TRUE
        return self.sel[d](k)

    def masked(self):
        return self.sel is not None and any(s is not None for s in self.sel)

    def __repr__(self):
        return f'Arr({self.dtype}, {tuple(show(s) for s in self.shape)}{", masked" if self.masked() else ""})'


def mk(shape, fn, dtype, sel=None, label=None):
    shape = tuple(lift(s) for s in shape)
    return Arr(Cell(shape, FnC(fn), dtype, label), None, shape, sel)


def view_id(A):
    return [('sl', ZERO, ONE, d) for d in range(A.ndim)] if A.maps is None else A.maps


# ------------------------------------------------------------------ other values
class VIte:
    """value chosen by an undecided condition"""
    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


class OVal:
    """opaque value"""
    def __init__(self, t, attrs=None):
        self.t, self.attrs = t, attrs or {}

    def __repr__(self):
        return f'OVal({show(self.t)[:100]})'


class Seg:
    """n values fn(0..n-1) inside a list"""
    def __init__(self, n, fn):
        self.n, self.fn = lift(n), fn


class PyList:
    def __init__(self, items=(), kind='list'):
        self.items = list(items)
        self.ser = serial()
        self.kind = kind

    def symbolic(self):
        return any(isinstance(x, Seg) for x in self.items)


class SRange:
    """symbolic range(start, start + n*step, step)"""
    def __init__(self, start, n, step=1):
        self.start, self.n, self.step = lift(start), lift(n), lift(step)

    def get(self, k):
        return native(Sc(add(self.start, mul(self.step, k)), 'int'))


class Gen:
    """lazy symbolic sequence (generator, map, zip, enumerate...): n terms, get(k)"""
    def __init__(self, n, get):
        self.n, self.get = lift(n), get


class SDict:
    """dict: concrete entries plus contiguous symbolic key ranges (lo, n, fn(offset)->value)"""
    def __init__(self, items=None, segs=()):
        self.items = dict(items or {})
        self.segs = list(segs)      # (lo term, n term, fn)
        self.over = []              # symbolic-key writes of a loop body: (key term, value)
        self.hav = None             # inside a summarised loop: location whose reads are refused
        self.ser = serial()
        self.label = None

    def copy(self):
        d = SDict(self.items, self.segs)
        d.over, d.hav, d.label = list(self.over), self.hav, self.label
        return d


class Inst:
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}
        self.ser = serial()
        self.label = None

    def __repr__(self):
        return f'<{self.cls.name}>'


class ClassVal:
    def __init__(self, name, bases, attrs, module, qual):
        self.name, self.bases, self.attrs, self.module, self.qual = name, bases, attrs, module, qual
        self.fields = None       # dataclass fields: list of Field
        self.ann = []

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def __repr__(self):
        return f'<class {self.name}>'


class Field:
    def __init__(self, name, init=True, default=None, factory=None, initvar=False, has_default=False):
        self.name, self.init, self.default, self.factory, self.initvar, self.has_default = name, init, default, factory, initvar, has_default


class FieldSpec:
    """the value of dataclasses.field(...)"""
    def __init__(self, init=True, default=None, has_default=False, factory=None):
        self.init, self.default, self.has_default, self.factory = init, default, has_default, factory


class NTClass:
    def __init__(self, name, fields, defaults=()):
        self.name, self.fields = name, list(fields)
        self.defaults = dict(zip(self.fields[len(self.fields) - len(defaults):], defaults))


class NTInst:
    def __init__(self, cls, vals):
        self.cls, self.vals = cls, tuple(vals)

    def get(self, f):
        return self.vals[self.cls.fields.index(f)]

    def __repr__(self):
        return f'{self.cls.name}(...)'


class Func:
    def __init__(self, node, frame, module, qual, defaults=(), kwdefaults=None, kind='func'):
        self.node, self.frame, self.module, self.qual = node, frame, module, qual
        self.defaults, self.kwdefaults, self.kind = defaults, kwdefaults or {}, kind

    def __repr__(self):
        return f'<function {self.qual}>'


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Ext:
    """external (library) name"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<ext {self.name}>'


class Prim:
    """python-implemented callable fn(I, args, kwargs)"""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Module:
    def __init__(self, name, frame):
        self.name, self.frame = name, frame


class Havoc:
    """unreadable value of a loop-carried location"""
    def __init__(self, loc):
        self.loc = loc


class Last:
    """value a temporary has after a summarised loop"""
    def __init__(self, n, fn, before):
        self.n, self.fn, self.before = n, fn, before


class Frame:
    def __init__(self, parent=None, module=None):
        self.vars, self.parent, self.module = {}, parent, module
        self.ser = serial()
        self.globals_ = set()
        self.written = {}       # loop statement -> cells it writes


class Exc:
    """exception class or instance"""
    def __init__(self, name, args=None):
        self.name, self.args = name, args
