"""Assumed contracts of the Python built-ins, numpy, scipy, pywt and scikit-learn functions the code uses."""
import math
from .terms import *
from .values import *
from . import prove as P

USED = set()          # library contracts used (trusted base)
ASSUME = set()        # assumptions made while interpreting


def sv(t, kind):
    return native(Sc(t, kind))


# ------------------------------------------------------------------ scalars and elementwise operations
def kmax(*ks):
    r = max(ks, key=lambda k: RANK[k])
    npk = any('np' in k for k in ks)
    b = KIND[RANK[r]]
    return ('np' + b) if npk else b


def tonum(t):
    return ind(t) if t.sort == 'B' else t


def promote(t, sort):
    return tonum(t)


def el_binop(op, x, y, kx, ky):
    """(nan, val) x (nan, val) -> (nan, val, rank)"""
    (nx, a), (ny, b) = x, y
    rx, ry = RANK[kx], RANK[ky]
    n = or_(nx, ny)
    r = max(rx, ry)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        if r != 0:
            if op == 'BitXor' or True:
                raise Unsupported('bitwise operation on numbers')
        return n, (and_(a, b) if op == 'BitAnd' else or_(a, b) if op == 'BitOr' else not_(iff(a, b))), 0
    if r == 0 and op in ('Add', 'Mult') and 'np' in kx and 'np' in ky:
        return n, (or_(a, b) if op == 'Add' else and_(a, b)), 0
    if r == 0 and op == 'Sub' and 'np' in kx and 'np' in ky:
        raise PyRaise('TypeError', 'numpy boolean subtract')
    a, b = tonum(a), tonum(b)
    r = max(r, 1)
    if op == 'Add':
        return n, add(a, b), r
    if op == 'Sub':
        return n, sub(a, b), r
    if op == 'Mult':
        return n, mul(a, b), r
    if op == 'Div':
        return n, div(a, b), max(r, 2)
    if op == 'FloorDiv':
        return n, floordiv(a, b), r
    if op == 'Mod':
        return n, mod(a, b), r
    if op == 'Pow':
        return el_pow(nx, a, rx, ny, b, ry)
    raise Unsupported(f'operator {op}')


def el_pow(nx, a, rx, ny, b, ry):
    n = or_(nx, ny)
    if b.op == 'const' and b.args[0].denominator == 1:
        e = int(b.args[0])
        if e == 0:
            return FALSE if ny is FALSE else ny, ONE, max(rx, ry)
        return n, power(a, b), max(rx, ry, 2 if e < 0 else 0)
    # NaN ** 0 = 1
    n = or_(and_(nx, not_(eq(b, ZERO))), ny) if nx is not FALSE else ny
    if not is_nonneg(a) and not (b.sort == 'I'):
        n = or_(n, and_(lt(a, ZERO), not_(eq(floor(b), b))))
    r = max(rx, ry)
    if rx <= 1 and ry <= 1 and not is_nonneg(b):
        r = 2
    return n, power(a, b), r


def cmpterm(op, a, b):
    if op == 'Lt':
        return lt(a, b)
    if op == 'LtE':
        return le(a, b)
    if op == 'Gt':
        return lt(b, a)
    if op == 'GtE':
        return le(b, a)
    if op == 'Eq':
        return eq(a, b)
    return not_(eq(a, b))


def el_cmp(op, x, y):
    (nx, a), (ny, b) = x, y
    n = or_(nx, ny)
    if a.sort == 'B' and b.sort == 'B' and op in ('Eq', 'NotEq'):
        c = iff(a, b)
        c = c if op == 'Eq' else not_(c)
    else:
        c = cmpterm(op, tonum(a), tonum(b))
    if op == 'NotEq':
        return or_(n, c)
    return and_(not_(n), c)


def binop(I, op, a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        if op == 'MatMult':
            return matmul(I, a, b)
        return ew2(I, op, a, b)
    if isinstance(a, OVal) or isinstance(b, OVal):
        if isinstance(a, (OVal, Sc, int, float, str)) and isinstance(b, (OVal, Sc, int, float, str)):
            return OVal(obj('op' + op, I.oterm(a), I.oterm(b)))
        raise Unsupported('operator on an opaque value')
    if isinstance(a, str) or isinstance(b, str):
        if op == 'Add' and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == 'Mod':
            return OVal(obj('str%', I.oterm(a), I.oterm(b)))
        if op == 'Mult' and isinstance(a, str) and isinstance(b, int):
            return a * b
        raise PyRaise('TypeError', 'operand')
    if isinstance(a, PyList) or isinstance(b, PyList):
        if op == 'Add' and isinstance(a, PyList) and isinstance(b, PyList):
            return PyList(a.items + b.items, a.kind)
        if op == 'Mult':
            l, k = (a, b) if isinstance(a, PyList) else (b, a)
            c = cint(native(k))
            if c is not None:
                return PyList(l.items * c, l.kind)
            if isnum(k) and len(l.items) == 1 and not l.symbolic():
                return PyList([Seg(sc(k).t, lambda j, v=l.items[0]: v)], l.kind)
        if isinstance(a, PyList) and isinstance(b, (Sc,)) or isinstance(b, PyList) and isinstance(a, Sc):
            raise Unsupported('list with number')
        raise PyRaise('TypeError', 'operand')
    if isinstance(a, SDict) and isinstance(b, SDict) and op == 'BitOr':
        d = a.copy()
        I.dupdate(d, b)
        return d
    if not isnum(a) or not isnum(b):
        if a is None or b is None or isinstance(a, (Func, Inst, NTInst)) or isinstance(b, (Func, Inst, NTInst)):
            raise PyRaise('TypeError', f'unsupported operand for {op}')
        raise Unsupported(f'operator {op} on {a!r}, {b!r}')
    if isinstance(a, int) and isinstance(b, int) and op in ('Add', 'Sub', 'Mult'):
        a, b = int(a), int(b)
        return a + b if op == 'Add' else a - b if op == 'Sub' else a * b
    x, y = sc(a), sc(b)
    if x.kind in ('int', 'bool', 'float') and y.kind in ('int', 'bool', 'float') and op in ('Div', 'FloorDiv', 'Mod'):
        z = eq(tonum(y.t), ZERO)
        if z is not FALSE and y.nan is FALSE:
            if y.t is ZERO or I.entails(z):
                raise PyRaise('ZeroDivisionError')
            if not I.entails(not_(z)):
                if y.kind == 'int' and I.loopdepth == 0:
                    if I.decide(z):
                        raise PyRaise('ZeroDivisionError')
                else:
                    ASSUME.add('divisors of Python floats are non-zero (ZeroDivisionError not modelled)')
    if op == 'Pow' and x.kind in ('npint', 'npbool') and y.kind in ('int', 'npint') and signs(y.t) & NEG:
        if 'np' in x.kind and y.kind == 'npint' or 'np' in x.kind:
            if y.t.op == 'const' and y.t.args[0] < 0:
                raise PyRaise('ValueError', 'Integers to negative integer powers are not allowed')
            if I.decide(lt(y.t, ZERO)):
                raise PyRaise('ValueError', 'Integers to negative integer powers are not allowed')
    n, v, r = el_binop(op, (x.nan, x.t), (y.nan, y.t), x.kind, y.kind)
    k = KIND[r]
    if 'np' in x.kind or 'np' in y.kind:
        k = 'np' + k
    if k in ('int', 'npint') and v.sort != 'I' and op == 'Pow':
        # integer base, non-negative symbolic exponent
        pass
    return native(Sc(v, k, n))


def unop(I, op, v):
    v = I.force(v)
    if isinstance(v, Arr):
        if op == 'USub':
            return ew1(v, lambda n, t: (n, neg(tonum(t))), v.dtype if v.dtype != 'b' else 'i')
        if op == 'UAdd':
            return ew1(v, lambda n, t: (n, t), v.dtype)
        if op == 'Invert':
            if v.dtype != 'b':
                raise Unsupported('~ on numbers')
            return ew1(v, lambda n, t: (n, not_(t)), 'b')
    if isnum(v):
        if isinstance(v, float) and op == 'USub' and (v in (float('inf'), float('-inf'))):
            return -v
        x = sc(v)
        if op == 'USub':
            k = x.kind if RANK[x.kind] else x.kind.replace('bool', 'int')
            if isinstance(v, int) and not isinstance(v, bool):
                return -v
            return native(Sc(neg(tonum(x.t)), k, x.nan))
        if op == 'UAdd':
            return v
        if op == 'Invert':
            if x.kind == 'npbool':
                return Sc(not_(x.t), 'npbool', x.nan)
            raise Unsupported('~ on numbers')
    if isinstance(v, OVal):
        return OVal(obj('op' + op, v.t))
    raise PyRaise('TypeError', f'bad operand for unary {op}')


# ------------------------------------------------------------------ shapes
def dimlen(A, d):
    """length of dimension d (number of selected positions for a compressed dimension)"""
    if A.sel is not None and A.sel[d] is not None:
        g = A.sel[d]
        return bsum(A.shape[d], lambda k: ind(g(k)))
    return A.shape[d]


def size(A):
    return mul(*[dimlen(A, d) for d in range(A.ndim)]) if A.ndim else ONE


def asarr(I, v, dtype=None):
    v = I.force(v)
    if isinstance(v, Arr):
        return v
    if isnum(v):
        x = sc(v)
        return mk((), lambda idx: (x.nan, x.t), KDT[RANK[x.kind]])
    if isinstance(v, (PyList, SRange, Gen, NTInst, range)):
        return fromseq(I, v)
    raise Unsupported(f'array of {v!r}')


def fromseq(I, v):
    n, get = I.seq(v)
    c = cint(I.simp(n))
    if c is not None:
        xs = [I.force(get(const(k))) for k in range(c)]
        xs = [x if isnum(x) else asarr(I, x) for x in xs]
        if any(isinstance(x, float) and (x in (float('inf'), float('-inf'))) for x in xs):
            raise Unsupported('array holding an infinity')
        if all(isnum(x) for x in xs):
            if not xs:
                return mk((ZERO,), lambda idx: (FALSE, ZERO), 'f')
            ss = [sc(x) for x in xs]
            dt = KDT[max(RANK[s.kind] for s in ss)]

            def el(idx):
                k = idx[0]
                ck = cint(k)
                conv = (lambda t: t) if dt == 'b' else tonum
                if ck is not None:
                    ck = min(max(ck, 0), c - 1)
                    return ss[ck].nan, conv(ss[ck].t)
                nn, vv = ss[-1].nan, conv(ss[-1].t)
                for j in range(c - 2, -1, -1):
                    e = eq(k, const(j))
                    nn, vv = ite(e, ss[j].nan, nn), ite(e, conv(ss[j].t), vv)
                return nn, vv
            return mk((const(c),), el, dt)
        xs = [asarr(I, x) for x in xs]
        return stack(I, xs, 0)
    if isinstance(v, PyList) and len(v.items) > 1:
        # several segments
        parts = []
        for x in v.items:
            parts.append(fromseq(I, PyList([x])))
        return concat(I, parts, 0)
    i = fresh('q', 'I', sign='0+')
    m = len(I.pc)
    I.pc.append(lt(i, n))
    try:
        x = get(i)
        x = I.force(x)
    finally:
        del I.pc[m:]
    if isnum(x):
        s = sc(x)
        return mk((n,), lambda idx: (subst(s.nan, {i: idx[0]}), subst(s.t, {i: idx[0]})), KDT[RANK[s.kind]])
    x = asarr(I, x)
    if x.masked():
        raise Unsupported('array of compressed arrays')
    for sd in x.shape:
        if i in sd.fv:
            raise PyRaise('ValueError', 'inhomogeneous shape')
    f = I.snap(x)
    return mk((n,) + x.shape, lambda idx: tuple(subst(t, {i: idx[0]}) for t in f(idx[1:])), x.dtype)


def bshape(I, shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        cur = None
        for s in shapes:
            k = d - (nd - len(s))
            if k < 0:
                continue
            x = s[k]
            if cur is None or x is cur:
                cur = x
                continue
            if cint(cur) == 1:
                cur = x
            elif cint(x) == 1:
                pass
            elif I.decide(eq(cur, x)):
                # keep the syntactically simpler one
                cur = cur if cint(cur) is not None or cint(x) is None and cur.id <= x.id else x
            elif I.decide(eq(cur, ONE)):
                cur = x
            elif I.decide(eq(x, ONE)):
                pass
            else:
                raise PyRaise('ValueError', f'operands could not be broadcast together')
        out.append(cur)
    return tuple(out)


def bidx(I, s, idx, full=None):
    """index into an operand of shape s for a broadcast index"""
    idx = idx[len(idx) - len(s):]
    full = full[len(full) - len(s):] if full is not None else (None,) * len(s)
    out = []
    for n, i, fl in zip(s, idx, full):
        if cint(n) == 1 and not (fl is not None and cint(fl) == 1 and False):
            out.append(ZERO)
        elif fl is not None and n is not fl and I.simp(eq(n, ONE)) is TRUE and I.simp(eq(n, fl)) is not TRUE:
            out.append(ZERO)
        else:
            out.append(i)
    return tuple(out)


def bsel(I, arrs, nd):
    """common selection of the operands of an elementwise operation"""
    if not any(a.masked() for a in arrs):
        return None
    out = [None] * nd
    for a in arrs:
        for d in range(a.ndim):
            D = d + nd - a.ndim
            g = a.sel[d] if a.sel is not None else None
            if g is None:
                continue
            if out[D] is None:
                out[D] = g
            else:
                x = fresh('b', 'I', sign='0+')
                if g(x) is not out[D](x) and not I.entails(iff(g(x), out[D](x))):
                    raise Unsupported('arrays compressed by different masks')
    for a in arrs:
        for d in range(a.ndim):
            D = d + nd - a.ndim
            if out[D] is not None and (a.sel is None or a.sel[d] is None) and cint(a.shape[d]) != 1:
                raise Unsupported('mix of compressed and plain arrays')
    return tuple(out)


def ewn(I, fn, dt, *vs):
    """elementwise fn(list of (nan,val)) over broadcast operands"""
    arrs = [asarr(I, v) for v in vs]
    shape = bshape(I, [a.shape for a in arrs])
    fs = [I.snap(a) for a in arrs]
    shapes = [a.shape for a in arrs]
    sel = bsel(I, arrs, len(shape))
    ix = [[(cint(n) == 1) or (n is not shape[d + len(shape) - len(s)] and I.entails(eq(n, ONE), 300) and not I.entails(eq(n, shape[d + len(shape) - len(s)]), 300))
           for d, n in enumerate(s)] for s in shapes]

    def el(idx):
        vals = []
        for f, s, one in zip(fs, shapes, ix):
            sub_ = idx[len(idx) - len(s):]
            vals.append(f(tuple(ZERO if o else i for i, o in zip(sub_, one))))
        return fn(*vals)
    r = mk(shape, el, dt, sel)
    if not shape:
        return unwrap(r)
    return r


def unwrap(r):
    """0-d array -> numpy scalar"""
    n, v = r.at(())
    return Sc(v, DTK[r.dtype], n)


def ew1(A, fn, dt):
    f = Arr(Cell(A.cell.shape, A.cell.content, A.cell.dtype), A.maps, A.shape).at
    return mk(A.shape, lambda idx: fn(*f(idx)), dt, A.sel)


def kindof(v):
    return DTK[v.dtype] if isinstance(v, Arr) else sc(v).kind


def ew2(I, op, a, b):
    for v in (a, b):
        if not isinstance(v, Arr) and not isnum(v):
            if isinstance(v, (PyList,)):
                continue
            if v is None:
                raise PyRaise('TypeError', 'operand None')
            raise Unsupported(f'array operator with {v!r}')
    a = asarr(I, a) if isinstance(a, PyList) else a
    b = asarr(I, b) if isinstance(b, PyList) else b
    ka, kb = kindof(a), kindof(b)
    if op == 'Pow' and RANK[ka] <= 1 and RANK[kb] <= 1:
        # integer powers: negative exponents are refused
        if not isinstance(b, Arr):
            y = sc(b)
            if signs(y.t) & NEG and I.decide(lt(y.t, ZERO)):
                raise PyRaise('ValueError', 'Integers to negative integer powers are not allowed')
            r0 = 1
        else:
            r0 = 1
        return ewn(I, lambda x, y: el_binop(op, x, y, ka, kb)[:2], 'i', a, b)
    probe = el_binop(op, (FALSE, ONE if RANK[ka] else TRUE), (FALSE, TWO if RANK[kb] else TRUE), ka, kb)[2] if op != 'Pow' else max(RANK[ka], RANK[kb])
    dt = KDT[probe]
    return ewn(I, lambda x, y: el_binop(op, x, y, ka, kb)[:2], dt, a, b)


def cmp(I, op, a, b):
    a, b = I.force(a), I.force(b)
    if op in ('Is', 'IsNot'):
        if isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str)) or a is None or b is None:
            r = a is b or (type(a) is type(b) and a == b)
        elif isinstance(a, Sc) and isinstance(b, bool):
            r = None
            if a.kind == 'bool':
                c = a.t if b else not_(a.t)
                return native(Sc(c if op == 'Is' else not_(c), 'bool'))
            r = False
        else:
            r = a is b
            if not r and isinstance(a, (Ext, Exc)) and isinstance(b, (Ext, Exc)):
                r = a.name == b.name
        return r if op == 'Is' else not r
    if op in ('In', 'NotIn'):
        c = contains(I, a, b)
        c = c if op == 'In' else not_(c)
        return native(Sc(c, 'bool'))
    if isinstance(a, Arr) or isinstance(b, Arr):
        for v in (a, b):
            if not isinstance(v, Arr) and not isnum(v) and not isinstance(v, PyList):
                if op == 'Eq':
                    return False
                if op == 'NotEq':
                    return True
                raise PyRaise('TypeError')
        if isinstance(a, float) and a in (float('inf'), float('-inf')) or isinstance(b, float) and b in (float('inf'), float('-inf')):
            A, v, o = (a, b, op) if isinstance(a, Arr) else (b, a, {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op))
            res = {'Lt': v > 0, 'LtE': v > 0, 'Gt': v < 0, 'GtE': v < 0, 'Eq': False, 'NotEq': True}[o]
            ASSUME.add('array elements are finite or NaN')
            return ew1(A, lambda n, t: (FALSE, (or_(n, const(res)) if o == 'NotEq' else and_(not_(n), const(res)))), 'b')
        return ewn(I, lambda x, y: (FALSE, el_cmp(op, x, y)), 'b', a, b)
    c = scmp(I, op, a, b)
    if isinstance(c, bool):
        return c
    k = 'npbool' if any(isinstance(v, Sc) and 'np' in v.kind for v in (a, b)) else 'bool'
    return native(Sc(c, k))


def scmp(I, op, a, b):
    """comparison of non-array values -> bool or B term"""
    if isnum(a) and isnum(b):
        for v, w, o in ((a, b, op), (b, a, {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op))):
            if isinstance(v, float) and v in (float('inf'), float('-inf')):
                if isinstance(w, (int, float)):
                    import operator
                    return {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge, 'Eq': operator.eq, 'NotEq': operator.ne}[o](v, w)
                r = {'Lt': v < 0, 'LtE': v < 0, 'Gt': v > 0, 'GtE': v > 0, 'Eq': False, 'NotEq': True}[o]
                return or_(w.nan, const(True)) if o == 'NotEq' else and_(not_(w.nan), const(r))
        x, y = sc(a), sc(b)
        return el_cmp(op, (x.nan, x.t), (y.nan, y.t))
    if op in ('Eq', 'NotEq'):
        c = equal(I, a, b)
        return c if op == 'Eq' else not_(lift(c))
    if isinstance(a, str) and isinstance(b, str):
        return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if a is None or b is None:
        raise PyRaise('TypeError', 'comparison with None')
    raise Unsupported(f'comparison of {a!r} and {b!r}')


def equal(I, a, b):
    """python == -> B term"""
    a, b = I.force(a), I.force(b)
    if a is b:
        return TRUE
    if isnum(a) and isnum(b):
        return lift(scmp(I, 'Eq', a, b))
    if isinstance(a, Arr) or isinstance(b, Arr):
        return I.truth(cmp(I, 'Eq', a, b))
    if isinstance(a, OVal) and isinstance(b, OVal):
        return eq(a.t, b.t)
    if isinstance(a, OVal) or isinstance(b, OVal):
        x, y = (a, b) if isinstance(a, OVal) else (b, a)
        if y is None or isinstance(y, (str, int, float, Sc)):
            return eq(x.t, lift_o(y) if not isinstance(y, Sc) else y.t) if x.t.sort == 'O' and (y is None or isinstance(y, str)) else FALSE
        return FALSE
    if isinstance(a, PyList) and isinstance(b, PyList):
        if a.kind != b.kind:
            return FALSE
        if a.symbolic() or b.symbolic():
            n, m = I.length(a), I.length(b)
            if not I.decide(eq(n, m)):
                return FALSE
            _, g1 = I.seq(a)
            _, g2 = I.seq(b)
            i = fresh('q', 'I', sign='0+')
            k = len(I.pc)
            I.pc.append(lt(i, n))
            try:
                c = lift(equal(I, g1(i), g2(i)))
            finally:
                del I.pc[k:]
            return not_(mkany(n, i, not_(c)))
        if len(a.items) != len(b.items):
            return FALSE
        r = []
        for x, y in zip(a.items, b.items):
            c = lift(equal(I, x, y))
            if c is FALSE:
                return FALSE
            r.append(c)
        return and_(*r)
    if isinstance(a, NTInst) or isinstance(b, NTInst):
        x = a.vals if isinstance(a, NTInst) else (a.items if isinstance(a, PyList) and a.kind == 'tuple' else None)
        y = b.vals if isinstance(b, NTInst) else (b.items if isinstance(b, PyList) and b.kind == 'tuple' else None)
        if x is None or y is None or len(x) != len(y):
            return FALSE
        r = []
        for u, v in zip(x, y):
            c = lift(equal(I, u, v))
            if c is FALSE:
                return FALSE
            r.append(c)
        return and_(*r)
    if isinstance(a, SDict) and isinstance(b, SDict):
        if a.segs or b.segs:
            if a.items or b.items or len(a.segs) != 1 or len(b.segs) != 1:
                raise Unsupported('comparison of symbolic dictionaries')
            (l1, n1, f1, _), (l2, n2, f2, _) = a.segs[0], b.segs[0]
            if not I.decide(and_(eq(n1, n2), or_(eq(l1, l2), le(n1, ZERO)))):
                return FALSE
            i = fresh('q', 'I', sign='0+')
            k = len(I.pc)
            I.pc.append(lt(i, n1))
            try:
                c = lift(equal(I, f1(i), f2(i)))
            finally:
                del I.pc[k:]
            return not_(mkany(n1, i, not_(c)))
        if set(a.items) != set(b.items):
            return FALSE
        return and_(*[lift(equal(I, v, b.items[k])) for k, v in a.items.items()])
    if isinstance(a, (str, bool, int, float)) and isinstance(b, (str, bool, int, float)):
        return const(a == b)
    if isinstance(a, (Ext, Exc)) and isinstance(b, (Ext, Exc)):
        return const(a.name == b.name)
    if isinstance(a, Inst) and isinstance(b, Inst) and a.cls.fields is not None and a.cls is b.cls and a.cls.find('__eq__') is None:
        x = PyList([I.getattr(a, f.name) for f in a.cls.fields if not f.initvar], 'tuple')
        y = PyList([I.getattr(b, f.name) for f in b.cls.fields if not f.initvar], 'tuple')
        return equal(I, x, y)
    return FALSE


def contains(I, x, c):
    if isinstance(c, str):
        if isinstance(x, str):
            return const(x in c)
        raise Unsupported('in on strings')
    if isinstance(c, SDict):
        k = I.dkey(x)
        if not isinstance(k, (Sc, OVal)) and k in c.items:
            return TRUE
        if c.hav:
            raise NeedCarry(c.hav[0])
        kt = lift(k) if isinstance(k, (int, float)) else (k.t if isinstance(k, Sc) else None)
        if kt is None:
            return FALSE
        return or_(*[eq(kt, lift(i)) for i in c.items if isinstance(i, (int, float))],
                   *[and_(le(lo, kt), lt(kt, add(lo, n)), eq(floor(kt), kt)) for lo, n, f, d in c.segs])
    if isinstance(c, Arr):
        r = cmp(I, 'Eq', c, x)
        return I.truth(reduce(I, 'any', r, None))
    if isinstance(c, (PyList, tuple, NTInst)):
        vs = I.elems(c)
        if vs is not None:
            return or_(*[lift(equal(I, v, x)) for v in vs])
        n, get = I.seq(c)
        return bany(n, lambda k: lift(equal(I, get(k), x)))
    if isinstance(c, SRange):
        xt = sc(x).t
        k = div(sub(xt, c.start), c.step)
        return and_(le(ZERO, k), lt(k, c.n), eq(floor(k), k))
    raise Unsupported(f'in {c!r}')


# ------------------------------------------------------------------ indexing
def smin(I, a, b):
    return a if I.decide(le(a, b)) else b


def slicebounds(I, s, n):
    """-> (start, length, step)"""
    st = 1 if s.step is None else I.force(s.step)
    step = cint(native(st))
    if step is None:
        t = sc(st).t
        if I.decide(lt(ZERO, t)):
            a = slicepos(I, s.start, n, ZERO)
            b = slicepos(I, s.stop, n, n)
            if not I.decide(lt(a, b)):
                return a, ZERO, t
            return a, ceil(div(sub(b, a), t)), t
        raise Unsupported('symbolic negative slice step')
    if step == 0:
        raise PyRaise('ValueError', 'slice step cannot be zero')
    if step > 0:
        a = slicepos(I, s.start, n, ZERO)
        b = slicepos(I, s.stop, n, n)
        ln = sub(b, a) if step == 1 else ceil(div(sub(b, a), const(step)))
        if a is ZERO and b is n:
            return a, (n if step == 1 else ceil(div(n, const(step)))), const(step)
        if not I.decide(le(a, b)):
            ln = ZERO
        return a, ln, const(step)
    # negative step
    if s.start is None:
        a = sub(n, ONE)
    else:
        a = sc(I.force(s.start)).t
        if I.decide(lt(a, ZERO)):
            a = add(a, n)
            if I.decide(lt(a, ZERO)):
                return ZERO, ZERO, const(step)
        elif not I.decide(lt(a, n)):
            a = sub(n, ONE)
    if s.stop is None:
        b = const(-1)
    else:
        b = sc(I.force(s.stop)).t
        if I.decide(lt(b, ZERO)):
            b = add(b, n)
            if I.decide(lt(b, ZERO)):
                b = const(-1)
        elif not I.decide(lt(b, n)):
            b = n
    if not I.decide(lt(b, a)):
        return ZERO, ZERO, const(step)
    return a, ceil(div(sub(a, b), const(-step))), const(step)


def slicepos(I, v, n, default):
    v = I.force(v)
    if v is None:
        return default
    if isinstance(v, float):
        raise PyRaise('TypeError', 'slice indices must be integers')
    x = sc(v)
    if RANK[x.kind] > 1:
        raise PyRaise('TypeError', 'slice indices must be integers')
    t = tonum(x.t)
    if I.decide(lt(t, ZERO)):
        t = add(t, n)
        if I.decide(lt(t, ZERO)):
            return ZERO
        return t
    if I.decide(le(t, n)):
        return t
    return n


def expand(I, A, key):
    key = [I.force(k) for k in key]
    n = 0
    for k in key:
        if k is Ellipsis:
            continue
        if k is None:
            continue
        if isinstance(k, Arr) and k.dtype == 'b':
            n += k.ndim
        else:
            n += 1
    if any(k is Ellipsis for k in key):
        p = [k is Ellipsis for k in key].index(True)
        key = key[:p] + [slice(None)] * (A.ndim - n) + key[p + 1:]
    else:
        key = key + [slice(None)] * (A.ndim - n)
    if n > A.ndim:
        raise PyRaise('IndexError', 'too many indices')
    return key


def getitem(I, A, key):
    if isinstance(A, Sc):
        if key == () or key == (Ellipsis,):
            return A
        if 'np' not in A.kind:
            raise PyRaise('TypeError', 'not subscriptable')
        A = asarr(I, A)
    key = expand(I, A, key)
    key = [asarr(I, k) if isinstance(k, PyList) and k.kind == 'list' else k for k in key]
    if any(isinstance(k, Arr) and k.ndim > 0 for k in key):
        return fancy(I, A, key)
    dims, maps = [], []
    base = view_id(A)
    viewmap = []   # per dim of A: ('fix', t) or ('sl', start, step, newdim)
    sel = []
    d = 0
    for k in key:
        if k is None:
            dims.append(ONE)
            sel.append(None)
            continue
        n = A.shape[d]
        g = A.sel[d] if A.sel is not None else None
        if isinstance(k, slice):
            if g is not None:
                if k.start is None and k.stop is None and k.step is None:
                    viewmap.append(('sl', ZERO, ONE, len(dims)))
                    dims.append(n)
                    sel.append(g)
                    d += 1
                    continue
                raise Unsupported('slice of a compressed array')
            st, ln, step = slicebounds(I, k, n)
            viewmap.append(('sl', st, step, len(dims)))
            dims.append(I.simp(ln) if ln.op != 'const' else ln)
            sel.append(None)
        else:
            if isinstance(k, Arr):
                kn, kt = k.at(())
                k = Sc(kt, DTK[k.dtype], kn)
            if isinstance(k, bool) or not isnum(k):
                raise Unsupported(f'index {k!r}') if not (k is None or isinstance(k, str)) else PyRaise('IndexError')
            x = sc(k)
            if RANK[x.kind] == 0:
                raise Unsupported('boolean scalar index')
            if RANK[x.kind] > 1:
                raise PyRaise('IndexError', 'only integers are valid indices')
            if g is not None:
                t = nth(I, A, d, x.t)
            else:
                t = I.normidx(k, n)
            viewmap.append(('fix', t))
        d += 1
    maps = []
    for m in base:
        if m[0] == 'fix':
            maps.append(m)
        else:
            v = viewmap[m[3]]
            if v[0] == 'fix':
                maps.append(('fix', add(m[1], mul(m[2], v[1]))))
            else:
                maps.append(('sl', add(m[1], mul(m[2], v[1])), mul(m[2], v[2]), v[3]))
    if not dims:
        b = tuple(m[1] for m in maps)
        n, t = A.cell.content.at(b)
        return Sc(t, DTK[A.dtype], n)
    return Arr(A.cell, maps, dims, tuple(sel) if any(s is not None for s in sel) else None, A.ro)


def nth(I, A, d, k):
    """position of the k-th selected element of a compressed dimension"""
    g, n = A.sel[d], A.shape[d]
    if cint(k) == 0:
        x = fresh('first', 'I', sign='0+')
        some = bany(n, g)
        if not I.decide(some):
            raise PyRaise('IndexError', 'index 0 is out of bounds')
        I.assume(and_(lt(x, n), g(x)))
        y = fresh('y', 'I', sign='0+')
        I.assume(not_(mkany(x, y, g(y))))
        return x
    if cint(k) == -1:
        x = fresh('last', 'I', sign='0+')
        some = bany(n, g)
        if not I.decide(some):
            raise PyRaise('IndexError', 'index -1 is out of bounds')
        I.assume(and_(lt(x, n), g(x)))
        y = fresh('y', 'I', sign='0+')
        I.assume(not_(mkany(n, y, and_(lt(x, y), g(y)))))
        return x
    raise Unsupported('position in a compressed array')


def concrete_mask(I, K):
    """index array of the selected positions of a short mask whose entries are decided"""
    c = cint(I.simp(K.shape[0]))
    if c is None or c > 16 or K.masked():
        return None
    pos = []
    for k in range(c):
        b = I.simp(K.at((const(k),))[1])
        if b.op != 'const':
            return None
        if b is TRUE:
            pos.append(k)
    n = len(pos)
    if n == 0:
        return mk((ZERO,), lambda idx: (FALSE, ZERO), 'i')
    st = pos[1] - pos[0] if n > 1 else 1
    if all(p == pos[0] + st * i for i, p in enumerate(pos)):
        return mk((const(n),), lambda idx: (FALSE, add(const(pos[0]), mul(const(st), idx[0])) if n > 1 else const(pos[0])), 'i')
    return mk((const(n),), lambda idx: (FALSE, add(*[mul(ind(eq(idx[0], const(i))), const(p)) for i, p in enumerate(pos)])), 'i')


def fancy(I, A, key):
    f = I.snap(A)
    advs = [(p, k) for p, k in enumerate(key) if isinstance(k, Arr) and k.ndim > 0]
    # integer scalars together with arrays act as advanced indices too
    if len(advs) == 1:
        p, K = advs[0]
        d = 0
        plan = []        # per key item
        for k in key:
            if k is None:
                plan.append(('new',))
                continue
            if k is K:
                if K.dtype == 'b':
                    if K.ndim == 1:
                        if not I.decide(eq(K.shape[0], A.shape[d])):
                            raise PyRaise('IndexError', 'boolean index did not match')
                        conc = concrete_mask(I, K)
                        plan.append(('mask', d, K) if conc is None else ('idx', d, conc))
                        d += 1
                    else:
                        if K.ndim != A.ndim:
                            raise Unsupported('partial boolean mask')
                        return mask_nd(I, A, K)
                else:
                    plan.append(('idx', d, K))
                    d += 1
                continue
            if isinstance(k, slice):
                if A.sel is not None and A.sel[d] is not None:
                    if not (k.start is None and k.stop is None and k.step is None):
                        raise Unsupported('slice of a compressed array')
                    plan.append(('keep', d))
                else:
                    plan.append(('sl', d) + slicebounds(I, k, A.shape[d]))
            else:
                plan.append(('fix', d, I.normidx(k, A.shape[d])))
            d += 1
        if any(x[0] == 'fix' for x in plan) and any(x[0] in ('sl', 'keep', 'new') for x in plan):
            ip = [j for j, x in enumerate(plan) if x[0] in ('fix', 'mask', 'idx')]
            if ip != list(range(ip[0], ip[-1] + 1)):
                raise Unsupported('separated advanced indices')
        dims, sel, src = [], [], []
        for x in plan:
            if x[0] == 'new':
                dims.append(ONE)
                sel.append(None)
            elif x[0] == 'mask':
                K = x[2]
                kf = I.snap(K)
                src.append((x[1], 'm', len(dims)))
                am = A.sel is not None and A.sel[x[1]] is not None
                if am or K.masked():
                    if not (am and K.masked()):
                        raise Unsupported('mask and array compressed differently')
                    kk = fresh('k', 'I', sign='0+')
                    if not P.prove(I.hyps() + [lt(kk, A.shape[x[1]])], iff(A.guard(x[1], kk), K.guard(0, kk))):
                        raise Unsupported('mask and array compressed differently')
                    sel.append(lambda k, kf=kf, g=A.sel[x[1]]: and_(g(k), kf((k,))[1]))
                else:
                    sel.append(lambda k, kf=kf: kf((k,))[1])
                dims.append(A.shape[x[1]])
            elif x[0] == 'idx':
                K = x[2]
                if K.masked() and K.ndim != 1:
                    raise Unsupported('compressed index')
                kf = I.snap(K)
                d0 = len(dims)
                n = A.shape[x[1]]
                # bounds
                js = [fresh('k', 'I', sign='0+') for _ in K.shape]
                rng = and_(*[lt(j, s) for j, s in zip(js, K.shape)], *([K.guard(0, js[0])] if K.masked() else []))
                t = kf(tuple(js))[1]
                nonneg = I.entails(implies(rng, le(ZERO, t)))
                if not nonneg:
                    if not I.entails(implies(rng, and_(lt(t, ZERO), le(neg(n), t)))):
                        raise Unsupported('signs of an index array')
                elif not I.entails(implies(rng, lt(t, n))):
                    b = and_(le(n, t), *([K.guard(0, js[0])] if K.masked() else []))
                    for j, s in reversed(list(zip(js, K.shape))):
                        b = mkany(s, j, b)
                    if I.decide(b):
                        raise PyRaise('IndexError', 'index out of bounds')
                src.append((x[1], 'i', d0, K.ndim, kf, nonneg, n))
                dims.extend(K.shape)
                sel.extend([K.sel[0] if K.masked() else None] * K.ndim)
            elif x[0] == 'keep':
                src.append((x[1], 'm', len(dims)))
                dims.append(A.shape[x[1]])
                sel.append(A.sel[x[1]])
            elif x[0] == 'sl':
                src.append((x[1], 's', len(dims), x[2], x[4]))
                dims.append(x[3])
                sel.append(None)
            else:
                src.append((x[1], 'f', x[2]))

        def el(idx):
            b = [None] * A.ndim
            for s in src:
                if s[1] == 'm':
                    b[s[0]] = idx[s[2]]
                elif s[1] == 'i':
                    t = s[4](tuple(idx[s[2]:s[2] + s[3]]))[1]
                    b[s[0]] = t if s[5] else add(t, s[6])
                elif s[1] == 's':
                    b[s[0]] = add(s[3], mul(s[4], idx[s[2]]))
                else:
                    b[s[0]] = s[2]
            return f(tuple(b))
        return mk(dims, el, A.dtype, tuple(sel) if any(s is not None for s in sel) else None)
    # several index arrays, all one dimensional masks or integer vectors
    if all(k.ndim == 1 for _, k in advs) and not any(k is None for k in key):
        if any(k.masked() for _, k in advs):
            raise Unsupported('compressed index')
        if all(k.dtype == 'b' for _, k in advs):
            # the masks are converted to index vectors which are paired; only element 0 can be read back
            pos = []
            for p, K in advs:
                kf = I.snap(K)
                if not I.decide(eq(K.shape[0], A.shape[p])):
                    raise PyRaise('IndexError', 'boolean index did not match')
                g = lambda k, kf=kf: kf((k,))[1]
                cnt = bsum(K.shape[0], lambda k: ind(g(k)))
                x = onlyone(I, K.shape[0], g, cnt)
                pos.append((p, x))
            m = dict(pos)
            others = [p for p in range(A.ndim) if p not in m]
            if any(not (isinstance(key[p], slice) and key[p] == slice(None)) for p in others):
                raise Unsupported('mixed advanced index')
            ps = sorted(m)
            if ps != list(range(ps[0], ps[-1] + 1)):
                raise Unsupported('separated advanced indices')
            dims, src = [], []
            for p in range(A.ndim):
                if p == ps[0]:
                    d0 = len(dims)
                    dims.append(ONE)
                if p not in m:
                    src.append((p, len(dims)))
                    dims.append(A.shape[p])

            def el(idx):
                b = [None] * A.ndim
                for p, x in m.items():
                    b[p] = x
                for p, q in src:
                    b[p] = idx[q]
                return f(tuple(b))
            return mk(dims, el, A.dtype)
        if all(k.dtype == 'i' for _, k in advs) and len(advs) == len(key):
            shape = bshape(I, [k.shape for _, k in advs])
            ks = [I.snap(k) for _, k in advs]
            shs = [k.shape for _, k in advs]
            for kf, sh, n in zip(ks, shs, A.shape):
                js = [fresh('k', 'I', sign='0+') for _ in sh]
                rng = and_(*[lt(j, s) for j, s in zip(js, sh)])
                t = kf(tuple(js))[1]
                if not I.entails(implies(rng, and_(le(ZERO, t), lt(t, n)))):
                    raise Unsupported('bounds of index arrays')
            return mk(shape, lambda idx: f(tuple(kf(bidx(I, s, idx))[1] for kf, s in zip(ks, shs))), A.dtype)
    raise Unsupported('advanced indexing')


def onlyone(I, n, g, cnt):
    """the single selected position (forks when the number of selected positions is not one)"""
    c = cint(I.simp(n))
    if c is not None and c <= 32:
        bs = [I.simp(g(const(k))) for k in range(c)]
        if all(b.op == 'const' for b in bs) and sum(b is TRUE for b in bs) == 1:
            return const(bs.index(TRUE))
    some = bany(n, g)
    if not I.decide(some):
        raise Unsupported('empty selection')
    x = fresh('first', 'I', sign='0+')
    I.assume(and_(lt(x, n), g(x)))
    y = fresh('y', 'I', sign='0+')
    uniq = not_(mkany(n, y, and_(g(y), not_(eq(y, x)))))
    if not I.entails(uniq):
        raise Unsupported('selection of several positions')
    return x


def mask_nd(I, A, K):
    raise Unsupported('multi-dimensional boolean selection')


def fsize(A):
    return size(A)


def setitem(I, A, key, v):
    key = expand(I, A, key)
    if A.ro:
        raise Unsupported('write to a derived view')
    if A.masked():
        raise Unsupported('write to a compressed array')
    key = [asarr(I, k) if isinstance(k, PyList) and k.kind == 'list' else k for k in key]
    v = I.force(v)
    if isinstance(v, (PyList,)):
        v = asarr(I, v)
    if v is None:
        raise PyRaise('TypeError', 'float() argument must be a number')
    if not isnum(v) and not isinstance(v, Arr):
        raise Unsupported(f'array element {v!r}')
    masks = [k for k in key if isinstance(k, Arr) and k.ndim > 0]
    if masks:
        if len(masks) == 1 and masks[0].dtype == 'b' and masks[0].ndim == A.ndim and (isnum(v) or isinstance(v, Arr) and v.ndim == 0):
            K = masks[0]
            for a, b in zip(K.shape, A.shape):
                if not I.decide(eq(a, b)):
                    raise PyRaise('IndexError', 'boolean index did not match')
            kf = I.snap(K)
            write(I, A, lambda vi: kf(vi)[1], lambda vi: conv(v, A))
            return
        if len(masks) == 1 and masks[0].dtype == 'b' and masks[0].ndim == 1:
            # mask along one dimension; the value does not depend on the selected position
            K = masks[0]
            p = [k is K for k in key].index(True)
            kf = I.snap(K)
            rest = [k for j, k in enumerate(key) if j != p]
            if all(isinstance(k, slice) and k == slice(None) for k in rest) and (isnum(v) or isinstance(v, Arr) and (v.ndim < A.ndim - p or cint(v.shape[p - A.ndim + v.ndim]) == 1)):
                if not I.decide(eq(K.shape[0], A.shape[p])):
                    raise PyRaise('IndexError', 'boolean index did not match')
                if isnum(v):
                    write(I, A, lambda vi: kf((vi[p],))[1], lambda vi: conv(v, A))
                else:
                    vf = I.snap(v)
                    for d in range(v.ndim):
                        D = d + A.ndim - v.ndim
                        if cint(v.shape[d]) != 1 and not I.decide(eq(v.shape[d], A.shape[D])):
                            raise PyRaise('ValueError', 'shape mismatch')
                    write(I, A, lambda vi: kf((vi[p],))[1], lambda vi: vf(bidx(I, v.shape, vi)))
                return
        if len(masks) == 1 and masks[0].dtype == 'i' and masks[0].ndim == 1 and A.ndim == 1:
            K = masks[0]
            kf = I.snap(K)
            vf = None if isnum(v) else I.snap(v)
            n = K.shape[0]
            k = fresh('k', 'I', sign='0+')
            t = kf((k,))[1]
            if not I.entails(implies(lt(k, n), and_(le(ZERO, t), lt(t, A.shape[0])))):
                raise Unsupported('bounds of an index array')
            k2 = fresh('k', 'I', sign='0+')
            t2 = kf((k2,))[1]
            if not I.entails(implies(and_(lt(k, n), lt(k2, n), eq(t, t2)), eq(k, k2))):
                raise Unsupported('repeated positions in an index array')
            if isnum(v):
                write(I, A, lambda vi: bany(n, lambda j: eq(kf((j,))[1], vi[0])), lambda vi: conv(v, A))
            else:
                write(I, A, lambda vi: bany(n, lambda j: eq(kf((j,))[1], vi[0])),
                      lambda vi: (bany(n, lambda j: and_(eq(kf((j,))[1], vi[0]), vf(bidx(I, v.shape, (j,)))[0])),
                                  bsum(n, lambda j: mul(ind(eq(kf((j,))[1], vi[0])), vf(bidx(I, v.shape, (j,)))[1]))))
            return
        raise Unsupported('assignment through index arrays')
    tgt = getitem(I, A, tuple(key))
    if isinstance(tgt, Sc):
        # a single element
        pos = []
        for d, k in enumerate([k for k in key if k is not None]):
            if isinstance(k, Arr):
                k = Sc(k.at(())[1], 'npint')
            pos.append(I.normidx(k, A.shape[d]))
        if isinstance(v, Arr):
            if v.masked():
                n = size(v)
                if not I.decide(eq(n, ONE)):
                    raise PyRaise('ValueError', 'setting an array element with a sequence')
                x = getitem(I, v, (0,) * v.ndim)
            else:
                if not I.decide(eq(size(v), ONE)):
                    raise PyRaise('ValueError', 'setting an array element with a sequence')
                x = Sc(v.at([ZERO] * v.ndim)[1], DTK[v.dtype], v.at([ZERO] * v.ndim)[0])
            v = x
        write(I, A, lambda vi: and_(*[eq(a, b) for a, b in zip(vi, pos)]), lambda vi: conv(v, A))
        return
    assign_view(I, tgt, v)


def assign_view(I, tgt, v):
    if isinstance(v, Arr):
        if v.masked():
            raise Unsupported('assignment of a compressed array')
        if v.ndim > tgt.ndim:
            # leading ones are dropped
            extra = v.ndim - tgt.ndim
            for k in range(extra):
                if not I.decide(eq(v.shape[k], ONE)):
                    raise PyRaise('ValueError', 'could not broadcast')
            v = getitem(I, v, (0,) * extra)
            if isinstance(v, Sc):
                return assign_view(I, tgt, v)
        ones = []
        for d in range(v.ndim):
            D = d + tgt.ndim - v.ndim
            a, b = v.shape[d], tgt.shape[D]
            one = False
            if a is not b:
                if cint(a) == 1:
                    one = True
                elif I.decide(eq(a, b)):
                    pass
                elif I.decide(eq(a, ONE)):
                    one = True
                else:
                    raise PyRaise('ValueError', 'could not broadcast input array')
            ones.append(one)
        vf = I.snap(v)
        k = DTK[v.dtype]
        write(I, tgt, lambda vi: TRUE,
              lambda vi: cast(vf(tuple(ZERO if o else i for i, o in zip(vi[len(vi) - len(ones):], ones))), k, tgt))
    else:
        write(I, tgt, lambda vi: TRUE, lambda vi: conv(v, tgt))


def cast(nv, kind, A):
    n, t = nv
    dt = A.dtype
    if dt == 'b':
        return FALSE, (t if t.sort == 'B' else not_(eq(t, ZERO)))
    t = tonum(t)
    if dt == 'i' and t.sort != 'I':
        raise Unsupported('float stored in an integer array')
    if dt == 'i' and n is not FALSE:
        raise Unsupported('NaN stored in an integer array')
    return n, t


def conv(v, A):
    if isinstance(v, Arr):
        n, t = v.at(())
        return cast((n, t), DTK[v.dtype], A)
    x = sc(v)
    if A.dtype == 'i' and x.nan is not FALSE:
        raise PyRaise('ValueError', 'cannot convert float NaN to integer')
    return cast((x.nan, x.t), x.kind, A)


def write(I, A, guard, val):
    """overwrite the elements of view A where guard(view index) holds"""
    cell = A.cell
    maps = view_id(A)
    nd = A.ndim

    def inverse(b):
        g = []
        vi = [None] * nd
        for m, x in zip(maps, b):
            if m[0] == 'fix':
                g.append(eq(x, m[1]))
                continue
            _, st, step, d = m
            if step is ONE:
                t = sub(x, st)
            elif cint(step) == -1:
                t = sub(st, x)
            else:
                q = div(sub(x, st), step)
                t = floor(q)
                g.append(eq(mul(t, step), sub(x, st)))
            vi[d] = t
            full = st is ZERO and step is ONE and A.shape[d] is cell.shape[len(g) and 0] if False else False
            cd = [k for k, mm in enumerate(maps) if mm is m][0]
            if not (st is ZERO and step is ONE and A.shape[d] is cell.shape[cd]):
                g.append(and_(le(ZERO, t), lt(t, A.shape[d])))
        return and_(*g), tuple(ZERO if x is None else x for x in vi)

    memo = {}

    def inv_(b):
        r = memo.get(b)
        if r is None:
            r = memo[b] = inverse(b)
        return r

    def gd(b):
        g, vi = inv_(b)
        return and_(g, guard(vi)) if g is not FALSE else FALSE
    I.setcell(cell, WrC(cell.content, gd, lambda b: val(inv_(b)[1])))


def iop(I, op, A, v):
    """in-place operator on array A"""
    if A.ro:
        raise Unsupported('write to a derived view')
    r = binop(I, op, A, v)
    if not isinstance(r, Arr):
        r = asarr(I, r)
    if r.ndim > A.ndim:
        raise PyRaise('ValueError', 'non-broadcastable output operand')
    for a, b in zip(r.shape, A.shape):
        if a is not b and not I.decide(eq(a, b)):
            raise PyRaise('ValueError', 'non-broadcastable output operand')
    if RANK[DTK[r.dtype]] > RANK[DTK[A.dtype]] and not (A.dtype == 'f' and r.dtype == 'f'):
        raise PyRaise('UFuncTypeError', 'cannot cast')
    if A.masked():
        if A.maps is not None and any(m[0] == 'fix' for m in A.maps):
            raise Unsupported('in-place update of a compressed view')
    rf = I.snap(r)
    write(I, A, lambda vi: TRUE, lambda vi: rf(vi))


# ------------------------------------------------------------------ reductions
def axes(I, A, axis):
    axis = I.force(axis)
    if axis is None:
        return list(range(A.ndim))
    if isinstance(axis, PyList):
        ax = [cint(native(x)) for x in axis.items]
    else:
        ax = [cint(native(axis))]
    if any(x is None for x in ax):
        raise Unsupported('symbolic axis')
    for x in ax:
        if not -A.ndim <= x < A.ndim:
            raise PyRaise('AxisError', 'axis out of bounds')
    return sorted(x % A.ndim for x in ax)


def red(I, A, ax, combine, dt, keepdims=False):
    """combine(list of (n, guard, var)...) handled through nested binders by the callers below"""
    raise NotImplementedError


def reduce(I, name, A, axis=None, keepdims=False, ddof=0, where=None):
    A = asarr(I, A)
    keepdims = bool(keepdims)
    ax = axes(I, A, axis)
    if where is not None:
        raise Unsupported('where= argument')
    f = I.snap(A)
    ns = [A.shape[d] for d in ax]
    gs = [A.sel[d] if A.sel is not None else None for d in ax]
    out = [d for d in range(A.ndim) if d not in ax]
    shape = [A.shape[d] for d in out]
    sel = [A.sel[d] for d in out] if A.sel is not None else None
    isb = A.dtype == 'b'

    def full(idx, ks):
        b = [None] * A.ndim
        for d, i in zip(out, idx):
            b[d] = i
        for d, k in zip(ax, ks):
            b[d] = k
        return f(tuple(b))

    def guard(ks):
        return and_(*[g(k) for g, k in zip(gs, ks) if g is not None])

    def fold(fn, binder, ks=()):
        if len(ks) == len(ns):
            return fn(ks)
        return binder(ns[len(ks)], lambda k: fold(fn, binder, ks + (k,)))

    def SUM(fn):
        return fold(lambda ks: mul(ind(guard(ks)), fn(ks)), bsum)

    def ANY(fn):
        return fold(lambda ks: and_(guard(ks), fn(ks)), bany)
    cnt = SUM(lambda ks: ONE)
    flo = A.dtype in 'fc'
    dt = A.dtype
    if name == 'sum':
        el = lambda idx: (ANY(lambda ks: full(idx, ks)[0]) if flo else FALSE, SUM(lambda ks: tonum(full(idx, ks)[1])))
        dt = 'i' if isb else dt
    elif name == 'nansum':
        el = lambda idx: (FALSE, SUM(lambda ks: mul(ind(not_(full(idx, ks)[0])), tonum(full(idx, ks)[1]))))
        dt = 'i' if isb else dt
    elif name == 'mean':
        el = lambda idx: (ANY(lambda ks: full(idx, ks)[0]) if flo else FALSE, div(SUM(lambda ks: tonum(full(idx, ks)[1])), cnt))
        dt = dt if flo else 'f'
    elif name == 'nanmean':
        def el(idx):
            c = SUM(lambda ks: ind(not_(full(idx, ks)[0])))
            s = SUM(lambda ks: mul(ind(not_(full(idx, ks)[0])), tonum(full(idx, ks)[1])))
            return (eq(c, ZERO) if flo else FALSE, div(s, c))
        dt = dt if flo else 'f'
    elif name in ('var', 'std', 'nanvar', 'nanstd'):
        nan_ = name.startswith('nan')

        def el(idx):
            ok = (lambda ks: ind(not_(full(idx, ks)[0]))) if nan_ else (lambda ks: ONE)
            c = SUM(ok)
            m = div(SUM(lambda ks: mul(ok(ks), tonum(full(idx, ks)[1]))), c)
            v = div(SUM(lambda ks: mul(ok(ks), power(sub(tonum(full(idx, ks)[1]), m), TWO))), sub(c, lift(ddof)))
            nn = eq(c, ZERO) if nan_ else (ANY(lambda ks: full(idx, ks)[0]) if flo else FALSE)
            return nn, (v if name.endswith('var') else npsqrt(v))
        dt = 'f'
    elif name in ('max', 'nanmax', 'min', 'nanmin'):
        ismax = name.endswith('max')
        nan_ = name.startswith('nan')

        def el(idx):
            def entry(ks):
                return (and_(guard(ks), not_(full(idx, ks)[0])) if nan_ else guard(ks)), tonum(full(idx, ks)[1])
            m = fold_max(ns, lambda ks: entry(ks)[0], lambda ks: entry(ks)[1] if ismax else neg(entry(ks)[1]))
            nn = FALSE
            if flo:
                nn = not_(ANY(lambda ks: not_(full(idx, ks)[0]))) if nan_ else ANY(lambda ks: full(idx, ks)[0])
            return nn, (m if ismax else neg(m))
        # empty reductions raise
        if not I.entails(lt(ZERO, cnt), 500):
            if I.decide(le(cnt, ZERO)):
                raise PyRaise('ValueError', 'zero-size array to reduction operation')
    elif name in ('all', 'any'):
        tr = (lambda nv: nv[1]) if isb else (lambda nv: or_(nv[0], not_(eq(nv[1], ZERO))))
        if name == 'any':
            el = lambda idx: (FALSE, ANY(lambda ks: tr(full(idx, ks))))
        else:
            el = lambda idx: (FALSE, not_(ANY(lambda ks: not_(tr(full(idx, ks))))))
        dt = 'b'
    elif name == 'count_nonzero':
        tr = (lambda nv: nv[1]) if isb else (lambda nv: or_(nv[0], not_(eq(nv[1], ZERO))))
        el = lambda idx: (FALSE, SUM(lambda ks: ind(tr(full(idx, ks)))))
        dt = 'i'
    else:
        raise Unsupported(f'reduction {name}')
    if keepdims:
        el0 = el
        sh = [ONE if d in ax else A.shape[d] for d in range(A.ndim)]
        sl = tuple(None if d in ax else A.sel[d] for d in range(A.ndim)) if A.sel is not None else None
        r = mk(sh, lambda idx: el0(tuple(idx[d] for d in out)), dt, sl)
        return r
    r = mk(shape, el, dt, tuple(sel) if sel and any(s is not None for s in sel) else None)
    return unwrap(r) if not shape else r


def fold_max(ns, guard, val):
    xs = [fresh('m', 'I', sign='0+') for _ in ns]
    g, v = guard(tuple(xs)), val(tuple(xs))
    r = v
    for n, x in reversed(list(zip(ns, xs))):
        r2 = mkmax_n(n, x, g, r)
        g = mkany(n, x, g)
        r = r2
    return r


def mkmax_n(n, x, g, v):
    n = lift(n)
    if n.op == 'const' and int(n.args[0]) <= 16:
        return bsmax([(None, subst(g, {x: const(k)}), subst(v, {x: const(k)})) for k in range(int(n.args[0]))])
    return mkmax(n, x, g, v)


def npsqrt(t):
    return power(t, Fr(1, 2))


# ------------------------------------------------------------------ joins
def stack(I, xs, axis):
    xs = [asarr(I, x) for x in xs]
    if not xs:
        raise PyRaise('ValueError', 'need at least one array to stack')
    if any(x.masked() for x in xs):
        raise Unsupported('stack of compressed arrays')
    sh = xs[0].shape
    for x in xs[1:]:
        if x.ndim != len(sh):
            raise PyRaise('ValueError', 'all input arrays must have the same shape')
        for a, b in zip(x.shape, sh):
            if a is not b and not I.decide(eq(a, b)):
                raise PyRaise('ValueError', 'all input arrays must have the same shape')
    axis = cint(axis)
    if axis < 0:
        axis += len(sh) + 1
    fs = [I.snap(x) for x in xs]
    c = len(xs)
    dt = KDT[max(RANK[DTK[x.dtype]] for x in xs)]
    shape = sh[:axis] + (const(c),) + sh[axis:]

    def el(idx):
        k, rest = idx[axis], idx[:axis] + idx[axis + 1:]
        ck = cint(k)
        if ck is not None:
            n, v = fs[min(max(ck, 0), c - 1)](rest)
            return n, (v if dt == 'b' else tonum(v))
        nn, vv = fs[-1](rest)
        for j in range(c - 2, -1, -1):
            e = eq(k, const(j))
            n, v = fs[j](rest)
            nn, vv = ite(e, n, nn), ite(e, v, vv)
        return nn, vv
    return mk(shape, el, dt)


def concat(I, xs, axis):
    xs = [asarr(I, x) for x in xs]
    if any(x.masked() for x in xs):
        raise Unsupported('concatenation of compressed arrays')
    nd = xs[0].ndim
    if nd == 0:
        raise PyRaise('ValueError', 'zero-dimensional arrays cannot be concatenated')
    axis = cint(axis) % nd
    for x in xs[1:]:
        if x.ndim != nd:
            raise PyRaise('ValueError', 'dimensions must match')
        for d in range(nd):
            if d != axis and x.shape[d] is not xs[0].shape[d] and not I.decide(eq(x.shape[d], xs[0].shape[d])):
                raise PyRaise('ValueError', 'dimensions must match')
    fs = [I.snap(x) for x in xs]
    offs = [ZERO]
    for x in xs:
        offs.append(add(offs[-1], x.shape[axis]))
    dt = KDT[max(RANK[DTK[x.dtype]] for x in xs)]
    shape = xs[0].shape[:axis] + (offs[-1],) + xs[0].shape[axis + 1:]

    def el(idx):
        k = idx[axis]
        at = lambda j: fs[j](idx[:axis] + (sub(k, offs[j]),) + idx[axis + 1:])
        nn, vv = at(len(xs) - 1)
        for j in range(len(xs) - 2, -1, -1):
            g = lt(k, offs[j + 1])
            if g is FALSE:
                continue
            n, v = at(j)
            nn, vv = ite(g, n, nn), ite(g, v, vv)
        return nn, vv
    return mk(shape, el, dt)


def arange(I, *a):
    a = [I.force(x) for x in a]
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    s, e, st = sc(start), sc(stop), sc(step)
    n = I.np.rangelen(I, s.t, e.t, st.t)
    dt = KDT[max(1, max(RANK[x.kind] for x in (s, e, st)))]
    return mk((n,), lambda idx: (FALSE, add(s.t, mul(st.t, idx[0]))), dt)


def rangelen(I, s, e, st):
    if st is ONE:
        n = ceil(sub(e, s))
    else:
        n = ceil(div(sub(e, s), st))
    if n.op == 'const':
        return const(max(0, int(n.args[0])))
    if is_nonneg(n) or I.entails(le(ZERO, n)):
        return I.simp(n)
    if I.decide(le(n, ZERO)):
        return ZERO
    return n


def shape_arg(I, v):
    v = I.force(v)
    if isnum(v):
        x = sc(v)
        if RANK[x.kind] > 1:
            raise PyRaise('TypeError', 'float shape')
        vs = [v]
    else:
        vs = I.elems(v)
        if vs is None:
            raise Unsupported('symbolic number of dimensions')
    out = []
    for x in vs:
        x = sc(I.force(x))
        if RANK[x.kind] > 1:
            raise PyRaise('TypeError', 'float shape')
        if not is_nonneg(x.t) and not I.entails(le(ZERO, x.t)):
            if I.decide(lt(x.t, ZERO)):
                raise PyRaise('ValueError', 'negative dimensions are not allowed')
        out.append(x.t)
    return out


def dtypeof(I, d):
    d = I.force(d)
    if d is None:
        return None
    if isinstance(d, Arr):
        return d.dtype
    s = d.name if isinstance(d, (Ext, Prim, Exc)) else d if isinstance(d, str) else None
    if s is None:
        if isinstance(d, OVal):
            raise Unsupported('dtype')
        raise Unsupported(f'dtype {d!r}')
    s = s.split('.')[-1]
    if s.startswith('float') or s in ('double', 'f8', 'd', 'f'):
        return 'f'
    if s.startswith('int') or s.startswith('uint') or s in ('i8', 'i', 'intp'):
        return 'i'
    if s.startswith('bool'):
        return 'b'
    if s.startswith('complex'):
        return 'c'
    raise Unsupported(f'dtype {s}')


def astype(I, A, dt):
    if isinstance(A, Sc):
        return unwrap(astype(I, asarr(I, A), dt))
    if dt == A.dtype:
        return copy(A)

    def f(n, t):
        if dt == 'b':
            return FALSE, (t if t.sort == 'B' else or_(n, not_(eq(t, ZERO))))
        t = tonum(t)
        if dt == 'i' and t.sort != 'I':
            fl = floor(t)
            return FALSE, (fl if is_nonneg(t) else ite(le(ZERO, t), fl, neg(floor(neg(t)))))
        return n, t
    return ew1(A, f, dt)


def copy(A):
    return ew1(A, lambda n, t: (n, t), A.dtype)


def reshape(I, A, dims):
    if A.masked():
        if A.ndim == 1 and len(dims) == 2 and cint(dims[0]) == -1 and cint(dims[1]) == 1:
            f = I.snap(A)
            r = mk((A.shape[0], ONE), lambda idx: f((idx[0],)), A.dtype, (A.sel[0], None))
            r.ro = True
            return r
        raise Unsupported('reshape of a compressed array')
    dims = [lift(sc(I.force(d)).t) for d in dims]
    neg_ = [k for k, d in enumerate(dims) if cint(d) == -1]
    total = size(A)
    if neg_:
        rest = mul(*[d for k, d in enumerate(dims) if k != neg_[0]]) if len(dims) > 1 else ONE
        q = div(total, rest)
        dims[neg_[0]] = q if q.sort == 'I' else floor(q)
    else:
        if not I.decide(eq(mul(*dims) if dims else ONE, total)):
            raise PyRaise('ValueError', 'cannot reshape array')
    f = I.snap(A)
    old = [d for d in range(A.ndim) if cint(A.shape[d]) != 1]
    new = [d for d in range(len(dims)) if cint(dims[d]) != 1]
    if len(old) == len(new) and all(A.shape[a] is dims[b] or I.entails(eq(A.shape[a], dims[b])) for a, b in zip(old, new)):
        def el(idx):
            b = [ZERO] * A.ndim
            for a, c in zip(old, new):
                b[a] = idx[c]
            return f(tuple(b))
    else:
        def el(idx):
            flat = ZERO
            for d, i in zip(dims, idx):
                flat = add(mul(flat, d), i)
            b = []
            for d in reversed(range(A.ndim)):
                if d == 0:
                    b.append(flat)
                else:
                    q = floordiv(flat, A.shape[d])
                    b.append(sub(flat, mul(q, A.shape[d])))
                    flat = q
            return f(tuple(reversed(b)))
    r = mk(dims, el, A.dtype)
    r.ro = True
    return r


def squeeze(I, A, axis=None):
    if axis is not None:
        ax = axes(I, A, axis)
        for d in ax:
            if not I.decide(eq(A.shape[d], ONE)):
                raise PyRaise('ValueError', 'cannot select an axis to squeeze out')
    else:
        ax = [d for d in range(A.ndim) if cint(A.shape[d]) == 1 or (cint(A.shape[d]) is None and I.decide(eq(A.shape[d], ONE)))]
    key = tuple(0 if d in ax else slice(None) for d in range(A.ndim))
    if not ax:
        return A
    return getitem(I, A, key)


def transpose(I, A, perm=None):
    if perm is None:
        perm = list(reversed(range(A.ndim)))
    f = I.snap(A)
    inv_ = [perm.index(d) for d in range(A.ndim)]
    r = mk([A.shape[p] for p in perm], lambda idx: f(tuple(idx[inv_[d]] for d in range(A.ndim))), A.dtype,
           None if A.sel is None else tuple(A.sel[p] for p in perm))
    # writable view when A is plain
    base = view_id(A)
    maps = [m if m[0] == 'fix' else (m[0], m[1], m[2], inv_[m[3]]) for m in base]
    return Arr(A.cell, maps, [A.shape[p] for p in perm], None if A.sel is None else tuple(A.sel[p] for p in perm), A.ro)


def matmul(I, a, b):
    a, b = asarr(I, a), asarr(I, b)
    if a.ndim == 1 and b.ndim == 1:
        return reduce(I, 'sum', ew2(I, 'Mult', a, b))
    if a.ndim == 2 and b.ndim in (1, 2):
        if not I.decide(eq(a.shape[1], b.shape[0])):
            raise PyRaise('ValueError', 'matmul: dimension mismatch')
        fa, fb = I.snap(a), I.snap(b)
        n = a.shape[1]
        dt = KDT[max(RANK[DTK[a.dtype]], RANK[DTK[b.dtype]])]
        if b.ndim == 1:
            return mk((a.shape[0],), lambda idx: (bany(n, lambda k: or_(fa((idx[0], k))[0], fb((k,))[0])), bsum(n, lambda k: mul(fa((idx[0], k))[1], fb((k,))[1]))), dt)
        return mk((a.shape[0], b.shape[1]), lambda idx: (bany(n, lambda k: or_(fa((idx[0], k))[0], fb((k, idx[1]))[0])),
                                                       bsum(n, lambda k: mul(fa((idx[0], k))[1], fb((k, idx[1]))[1]))), dt)
    if a.ndim == 1 and b.ndim == 2:
        fa, fb = I.snap(a), I.snap(b)
        n = a.shape[0]
        if not I.decide(eq(n, b.shape[0])):
            raise PyRaise('ValueError', 'matmul: dimension mismatch')
        return mk((b.shape[1],), lambda idx: (bany(n, lambda k: or_(fa((k,))[0], fb((k, idx[0]))[0])), bsum(n, lambda k: mul(fa((k,))[1], fb((k, idx[0]))[1]))), a.dtype)
    raise Unsupported('matmul')


# ------------------------------------------------------------------ ufuncs
def u1(I, v, fn, dt=None, scalar=True):
    v = I.force(v)
    if isinstance(v, PyList):
        v = asarr(I, v)
    if isinstance(v, Arr):
        r = ew1(v, fn, dt(v.dtype) if dt else v.dtype)
        return r if v.ndim else unwrap(r)
    if isinstance(v, OVal) or not isnum(v):
        if v is None or isinstance(v, (str, Inst)):
            raise PyRaise('TypeError', 'ufunc on a non number')
        raise Unsupported(f'ufunc of {v!r}')
    x = sc(v)
    n, t = fn(x.nan, x.t)
    d = KDT[RANK[x.kind]]
    d = dt(d) if dt else d
    return Sc(t, DTK[d], n)


toF = lambda d: d if d in 'fc' else 'f'


def f_abs(n, t):
    t = tonum(t)
    if iscomplex(t):
        raise Unsupported('modulus of a complex number')
    return n, abs_(t)


def f_log(base=None):
    def f(n, t):
        t = tonum(t)
        nn = n if is_nonneg(t) else or_(n, lt(t, ZERO))
        if signs(t) & ZER:
            ASSUME.add('arguments of logarithms are non-zero where present')
        r = ln(t)
        return nn, (r if base is None else div(r, ln(const(base))))
    return f


def f_sqrt(n, t):
    t = tonum(t)
    if iscomplex(t):
        return n, csqrt(t)
    return (n if is_nonneg(t) else or_(n, lt(t, ZERO))), npsqrt(t)


def f_csqrt(n, t):
    return n, csqrt(tonum(t))


def ufunc(I, name, a, kw):
    kw = {k: v for k, v in kw.items() if k not in ('dtype',)}
    if 'out' in kw or 'where' in kw:
        raise Unsupported('out=/where= of a ufunc')
    x = a[0]
    if name in ('abs', 'absolute', 'fabs'):
        if isinstance(x, Arr) and x.dtype == 'c':
            return u1(I, x, lambda n, t: (n, npsqrt(re_mod2(t))), lambda d: 'f')
        if isinstance(x, (int, float)) and not isinstance(x, bool) and x == x:
            return abs(x)
        r = u1(I, x, f_abs, lambda d: 'i' if d == 'b' else d)
        return r
    if name == 'log':
        return u1(I, x, f_log(), toF)
    if name == 'log2':
        return u1(I, x, f_log(2), toF)
    if name == 'log10':
        return u1(I, x, f_log(10), toF)
    if name == 'log1p':
        return u1(I, x, lambda n, t: f_log()(n, add(ONE, t)), toF)
    if name == 'exp':
        return u1(I, x, lambda n, t: (n, exp(tonum(t))), toF)
    if name == 'exp2':
        return u1(I, x, lambda n, t: (n, power(TWO, tonum(t))), toF)
    if name == 'sqrt':
        xx = I.force(x)
        if isinstance(xx, Arr) and xx.dtype == 'c':
            return u1(I, x, f_csqrt, toF)
        return u1(I, x, f_sqrt, toF)
    if name == 'square':
        return u1(I, x, lambda n, t: (n, mul(tonum(t), tonum(t))))
    if name in ('negative',):
        return unop(I, 'USub', x)
    if name == 'reciprocal':
        return u1(I, x, lambda n, t: (n, inv(tonum(t))), toF)
    if name == 'sign':
        return u1(I, x, lambda n, t: (n, sub(ind(lt(ZERO, tonum(t))), ind(lt(tonum(t), ZERO)))))
    if name == 'isnan':
        return u1(I, x, lambda n, t: (FALSE, n), lambda d: 'b')
    if name == 'isfinite':
        ASSUME.add('array elements are finite or NaN')
        if isinstance(x, float) and x in (float('inf'), float('-inf')):
            return Sc(FALSE, 'npbool')
        return u1(I, x, lambda n, t: (FALSE, not_(n)), lambda d: 'b')
    if name == 'isinf':
        x = I.force(x)
        if isinstance(x, float):
            return Sc(const(x in (float('inf'), float('-inf'))), 'npbool')
        ASSUME.add('array elements are finite or NaN')
        return u1(I, x, lambda n, t: (FALSE, FALSE), lambda d: 'b')
    if name == 'logical_not':
        return u1(I, x, lambda n, t: (FALSE, not_(t) if t.sort == 'B' else and_(not_(n), eq(t, ZERO))), lambda d: 'b')
    if name == 'floor':
        return u1(I, x, lambda n, t: (n, floor(tonum(t))), toF)
    if name == 'ceil':
        return u1(I, x, lambda n, t: (n, ceil(tonum(t))), toF)
    if name in ('rint', 'round', 'around'):
        d = a[1] if len(a) > 1 else kw.get('decimals', 0)
        d = native(I.force(d))
        if not isinstance(d, int) or isinstance(d, bool):
            raise Unsupported('rounding to a symbolic number of decimals')
        if d:
            z = const(Fr(10) ** d)
            return u1(I, x, lambda n, t: (n, div(rint(mul(z, tonum(t))), z)), toF)
        return u1(I, x, lambda n, t: (n, rint(tonum(t))), toF)
    if name in ('trunc', 'fix'):
        return u1(I, x, lambda n, t: (n, trunc(tonum(t))), toF)
    if name in ('real', 'real_if_close'):
        return u1(I, x, lambda n, t: (n, re_(tonum(t))), lambda d: 'f' if d == 'c' else d)
    if name in ('conj', 'conjugate'):
        raise Unsupported('complex conjugate')
    if name in ('deg2rad',):
        raise Unsupported(name)
    y = a[1]
    two = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'true_divide': 'Div', 'power': 'Pow',
           'float_power': 'Pow', 'floor_divide': 'FloorDiv', 'mod': 'Mod', 'remainder': 'Mod'}
    if name in two:
        x, y = I.force(x), I.force(y)
        r = binop(I, two[name], tonp(x), tonp(y))
        return r
    cm = {'less': 'Lt', 'less_equal': 'LtE', 'greater': 'Gt', 'greater_equal': 'GtE', 'equal': 'Eq', 'not_equal': 'NotEq'}
    if name in cm:
        return cmp(I, cm[name], tonp(I.force(x)), tonp(I.force(y)))
    if name in ('logical_and', 'logical_or', 'logical_xor'):
        tr = lambda nv: nv[1] if nv[1].sort == 'B' else or_(nv[0], not_(eq(nv[1], ZERO)))
        o = {'logical_and': and_, 'logical_or': or_, 'logical_xor': lambda p, q: not_(iff(p, q))}[name]
        return ewn(I, lambda p, q: (FALSE, o(tr(p), tr(q))), 'b', x, y)
    if name in ('maximum', 'minimum', 'fmax', 'fmin'):
        ka, kb = kindof(I.force(x)) if not isinstance(x, PyList) else 'npfloat', kindof(I.force(y)) if not isinstance(y, PyList) else 'npfloat'
        dt = KDT[max(RANK[ka], RANK[kb])]
        ismax = name.endswith('max') or name == 'maximum'

        def fn(p, q):
            (n1, u), (n2, v) = p, q
            c = le(v, u) if ismax else le(u, v)
            if name.startswith('f'):
                return and_(n1, n2), ite(n2, u, ite(n1, v, ite(c, u, v)))
            return or_(n1, n2), ite(c, u, v)
        return ewn(I, fn, dt, x, y)
    if name == 'hypot':
        return ewn(I, lambda p, q: (or_(p[0], q[0]), npsqrt(add(mul(p[1], p[1]), mul(q[1], q[1])))), 'f', x, y)
    raise Unsupported(f'ufunc {name}')


def re_mod2(t):
    raise Unsupported('modulus of a complex number')


def tonp(v):
    if isinstance(v, Sc) and 'np' not in v.kind:
        return Sc(v.t, 'np' + v.kind, v.nan)
    if isinstance(v, (int, float)):
        if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
            return v
        s = sc(v)
        return Sc(s.t, 'np' + s.kind, s.nan)
    return v


def rint(t):
    """nearest integer, ties to the even one"""
    f = floor(t)
    d = sub(sub(t, f), const(Fr(1, 2)))
    return add(f, ind(or_(lt(0, d), and_(eq(d, ZERO), eq(mod(f, const(2)), ONE)))))


def trunc(t):
    return ite(le(ZERO, t), floor(t), ceil(t))


UF1 = ['rint', 'round', 'around', 'trunc', 'fix', 'abs', 'absolute', 'fabs', 'log', 'log2', 'log10', 'log1p', 'exp', 'exp2', 'sqrt', 'square', 'negative', 'reciprocal', 'sign', 'isnan', 'isinf',
       'isfinite', 'logical_not', 'floor', 'ceil', 'real', 'conj', 'conjugate', 'add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'float_power',
       'floor_divide', 'mod', 'remainder', 'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
       'logical_xor', 'maximum', 'minimum', 'fmax', 'fmin', 'hypot']
REDS = {'sum': 'sum', 'nansum': 'nansum', 'mean': 'mean', 'nanmean': 'nanmean', 'max': 'max', 'amax': 'max', 'min': 'min', 'amin': 'min',
        'nanmax': 'nanmax', 'nanmin': 'nanmin', 'all': 'all', 'any': 'any', 'var': 'var', 'std': 'std', 'nanvar': 'nanvar', 'nanstd': 'nanstd',
        'count_nonzero': 'count_nonzero'}
EXT = {}


def ext(*names):
    def f(fn):
        for n in names:
            EXT[n] = fn
        return fn
    return f


def norm(name):
    if name.startswith('np.'):
        name = 'numpy.' + name[3:]
    return name


CONSTS = {'numpy.nan': float('nan'), 'numpy.inf': float('inf'), 'numpy.NaN': float('nan'), 'numpy.Inf': float('inf'), 'numpy.newaxis': None,
          'math.inf': float('inf'), 'math.nan': float('nan')}
declare('pi', 'R', 0, sign='+', conc=lambda env: math.pi)


def extattr(I, name):
    name = norm(name)
    if name in CONSTS:
        return CONSTS[name]
    if name in ('numpy.pi', 'math.pi'):
        return Sc(var('pi'), 'float')
    if name in ('numpy.e', 'math.e'):
        return Sc(exp(ONE), 'float')
    return Ext(name)


def callext(I, name, a, kw):
    name = norm(name)
    h = I.contracts.get('ext:' + name)
    if h is not None:
        r = h(I, a, kw)
        if r is not NotImplemented:
            return r
    if name.startswith('math.'):
        nm = name[5:]
        if nm == 'trunc':
            x = sc(I.force(a[0]))
            return native(Sc(trunc(tonum(x.t)), 'int'))
        if nm in ('floor', 'ceil'):
            x = sc(I.force(a[0]))
            return native(Sc(floor(tonum(x.t)) if nm == 'floor' else ceil(tonum(x.t)), 'int'))
        if nm in ('log2', 'log10', 'log', 'sqrt', 'exp', 'fabs') and len(a) == 1:
            r = ufunc(I, {'fabs': 'abs'}.get(nm, nm), a, kw)
            USED.add(name)
            return Sc(r.t, 'float', r.nan) if isinstance(r, Sc) else r
        if nm == 'pow':
            return binop(I, 'Pow', I.force(a[0]), I.force(a[1]))
        if nm == 'isinf':
            return native(Sc(ufunc(I, 'isinf', a, kw).t, 'bool'))
        if nm == 'isnan':
            return native(Sc(ufunc(I, 'isnan', a, kw).t, 'bool'))
        raise Unsupported(name)
    if name.startswith('numpy.'):
        nm = name[6:]
        if nm in UF1:
            USED.add(name)
            return ufunc(I, nm, a, kw)
        if nm in REDS:
            USED.add(name)
            return callred(I, REDS[nm], a, kw)
    f = EXT.get(name)
    if f is None:
        raise Unsupported(f'library function {name}')
    USED.add(name)
    return f(I, *a, **kw)


def callred(I, nm, a, kw):
    kw = dict(kw)
    x = kw.pop('a', None) if not a else a[0]
    axis = a[1] if len(a) > 1 else kw.pop('axis', None)
    keep = kw.pop('keepdims', False)
    ddof = kw.pop('ddof', 0)
    kw.pop('dtype', None)
    if kw:
        raise Unsupported(f'arguments {list(kw)} of a reduction')
    if isinstance(x, Gen):
        raise Unsupported('reduction of a generator')
    return reduce(I, nm, x, axis, keep, ddof)


@ext('numpy.zeros', 'numpy.ones', 'numpy.empty')
def _zeros(I, shape, dtype=None, order=None, _v=None):
    raise NotImplementedError


def filler(val):
    def f(I, shape, dtype=None, order=None):
        dt = dtypeof(I, dtype) or 'f'
        sh = shape_arg(I, shape)
        v = const(val)
        if dt == 'b':
            v = const(bool(val))
        return mk(sh, lambda idx: (FALSE, v), dt)
    return f


EXT['numpy.zeros'], EXT['numpy.ones'] = filler(0), filler(1)


@ext('numpy.empty')
def _empty(I, shape, dtype=None, order=None):
    dt = dtypeof(I, dtype) or 'f'
    sh = shape_arg(I, shape)
    nm = fresh_name('empty')
    declare(nm, {'b': 'B', 'i': 'I'}.get(dt, 'R'), len(sh))
    return mk(sh, lambda idx: (FALSE, app(nm, *idx)), dt)


@ext('numpy.full')
def _full(I, shape, fill_value, dtype=None):
    x = sc(I.force(fill_value))
    dt = dtypeof(I, dtype) or KDT[RANK[x.kind]]
    return mk(shape_arg(I, shape), lambda idx: (x.nan, x.t if dt == 'b' else tonum(x.t)), dt)


def like(val):
    def f(I, A, dtype=None, shape=None):
        A = asarr(I, A)
        dt = dtypeof(I, dtype) or A.dtype
        if A.masked():
            raise Unsupported('like of a compressed array')
        v = const(bool(val)) if dt == 'b' else const(val)
        return mk(A.shape, lambda idx: (FALSE, v), dt)
    return f


EXT['numpy.zeros_like'], EXT['numpy.ones_like'] = like(0), like(1)


@ext('numpy.full_like')
def _full_like(I, A, fill_value, dtype=None):
    A = asarr(I, A)
    x = sc(I.force(fill_value))
    dt = dtypeof(I, dtype) or A.dtype
    if dt == 'i' and x.nan is not FALSE:
        raise Unsupported('NaN in an integer array')
    return mk(A.shape, lambda idx: (x.nan, x.t if dt == 'b' else tonum(x.t)), dt)


@ext('numpy.empty_like')
def _empty_like(I, A, dtype=None):
    A = asarr(I, A)
    nm = fresh_name('empty')
    dt = dtypeof(I, dtype) or A.dtype
    declare(nm, {'b': 'B', 'i': 'I'}.get(dt, 'R'), A.ndim)
    return mk(A.shape, lambda idx: (FALSE, app(nm, *idx)), dt)


@ext('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asanyarray', 'numpy.atleast_1d')
def _array(I, v, dtype=None, copy=True, ndmin=0):
    v = I.force(v)
    dt = dtypeof(I, dtype)
    if isinstance(v, Arr):
        r = ew1(v, lambda n, t: (n, t), v.dtype)
    else:
        r = asarr(I, v)
    if dt and dt != r.dtype:
        r = astype(I, r, dt)
    return r


@ext('numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray')
def _asarray(I, v, dtype=None):
    v = I.force(v)
    dt = dtypeof(I, dtype)
    if isinstance(v, Arr) and (dt is None or dt == v.dtype):
        return v
    return _array(I, v, dtype)


@ext('numpy.atleast_1d')
def _at1(I, v):
    v = I.force(v)
    if isinstance(v, Arr) and v.ndim:
        return v
    r = asarr(I, v)
    return r if r.ndim else getitem(I, r, (None,))


@ext('numpy.atleast_2d')
def _at2(I, v):
    r = asarr(I, v)
    while r.ndim < 2:
        r = getitem(I, r, (None, Ellipsis))
    return r


@ext('numpy.copy')
def _copy(I, v):
    return _array(I, v)


@ext('numpy.arange')
def _arange(I, *a, dtype=None):
    r = arange(I, *a)
    dt = dtypeof(I, dtype)
    return astype(I, r, dt) if dt and dt != r.dtype else r


@ext('numpy.tile')
def _tile(I, A, reps):
    A = asarr(I, A)
    reps = I.force(reps)
    rs = [reps] if isnum(reps) else I.elems(reps)
    rs = [sc(I.force(r)).t for r in rs]
    nd = max(len(rs), A.ndim)
    rs = [ONE] * (nd - len(rs)) + rs
    sh = [ONE] * (nd - A.ndim) + list(A.shape)
    f = I.snap(A)
    out = [mul(s, r) for s, r in zip(sh, rs)]

    def el(idx):
        b = []
        for d in range(nd):
            if cint(sh[d]) == 1:
                b.append(ZERO)
            elif rs[d] is ONE:
                b.append(idx[d])
            else:
                b.append(mod(idx[d], sh[d]))
        return f(tuple(b[nd - A.ndim:]))
    return mk(out, el, A.dtype)


@ext('numpy.repeat')
def _repeat(I, A, repeats, axis=None):
    A = asarr(I, A)
    r = sc(I.force(repeats)).t
    if axis is None:
        if A.ndim != 1:
            raise Unsupported('flat repeat')
        axis = 0
    ax = axes(I, A, axis)[0]
    f = I.snap(A)
    sh = list(A.shape)
    n0 = sh[ax]
    sh[ax] = mul(n0, r)
    return mk(sh, lambda idx: f(tuple((ZERO if cint(n0) == 1 else floordiv(i, r)) if d == ax else i for d, i in enumerate(idx))), A.dtype)


@ext('numpy.broadcast_to')
def _bto(I, A, shape):
    A = asarr(I, A)
    sh = shape_arg(I, shape)
    s2 = bshape(I, [A.shape, tuple(sh)])
    f = I.snap(A)
    r = mk(sh, lambda idx: f(bidx(I, A.shape, idx, tuple(sh))), A.dtype)
    r.ro = True
    return r


@ext('numpy.stack')
def _stack(I, xs, axis=0):
    axis = native(I.force(axis))
    vs = I.elems(xs)
    if vs is None:
        r = fromseq(I, xs)
        ax = cint(axis)
        if ax in (0,):
            return r
        ax = ax % r.ndim
        perm = list(range(1, r.ndim))
        perm.insert(ax, 0)
        return copy(transpose(I, r, perm))
    return stack(I, vs, axis)


@ext('numpy.concatenate')
def _conc(I, xs, axis=0):
    vs = I.elems(xs)
    if vs is None:
        raise Unsupported('concatenation of a symbolic number of arrays')
    return concat(I, vs, native(I.force(axis)))


@ext('numpy.hstack', 'numpy.append', 'numpy.r_')
def _hstack(I, xs, *a):
    if a:
        return concat(I, [asarr(I, xs), asarr(I, a[0])], 0)
    vs = [asarr(I, v) for v in I.elems(xs)]
    return concat(I, vs, 0 if vs[0].ndim == 1 else 1)


@ext('numpy.vstack')
def _vstack(I, xs):
    vs = [asarr(I, v) for v in I.elems(xs)]
    return concat(I, [v if v.ndim > 1 else getitem(I, v, (None, slice(None))) for v in vs], 0)


@ext('numpy.column_stack')
def _cstack(I, xs):
    vs = [asarr(I, v) for v in I.elems(xs)]
    return concat(I, [v if v.ndim > 1 else getitem(I, v, (slice(None), None)) for v in vs], 1)


@ext('numpy.flip', 'numpy.flipud')
def _flip(I, A, axis=None):
    A = asarr(I, A)
    ax = axes(I, A, axis)
    return getitem(I, A, tuple(slice(None, None, -1) if d in ax else slice(None) for d in range(A.ndim)))


@ext('numpy.expand_dims')
def _expd(I, A, axis):
    A = asarr(I, A)
    ax = cint(native(I.force(axis)))
    if ax < 0:
        ax += A.ndim + 1
    return getitem(I, A, tuple([slice(None)] * ax + [None]))


@ext('numpy.squeeze')
def _squeeze(I, A, axis=None):
    return squeeze(I, asarr(I, A), axis)


@ext('numpy.reshape')
def _reshape(I, A, shape, order=None):
    s = I.force(shape)
    return reshape(I, asarr(I, A), [s] if isnum(s) else I.elems(s))


@ext('numpy.ravel')
def _ravel(I, A):
    return reshape(I, asarr(I, A), [-1])


@ext('numpy.transpose')
def _transp(I, A, axes=None):
    return transpose(I, asarr(I, A), None if axes is None else [cint(native(x)) for x in I.elems(axes)])


@ext('numpy.swapaxes', 'numpy.moveaxis')
def _swap(I, A, a, b):
    A = asarr(I, A)
    if A.ndim > 2:
        raise Unsupported('swapaxes')
    return transpose(I, A)


@ext('numpy.dot', 'numpy.matmul')
def _dot(I, a, b):
    if isnum(I.force(a)) or isnum(I.force(b)):
        return binop(I, 'Mult', I.force(a), I.force(b))
    return matmul(I, a, b)


@ext('numpy.inner')
def _inner(I, a, b):
    return matmul(I, a, transpose(I, asarr(I, b)))


@ext('numpy.outer')
def _outer(I, a, b):
    a, b = asarr(I, a), asarr(I, b)
    return ew2(I, 'Mult', getitem(I, a, (slice(None), None)), getitem(I, b, (None, slice(None))))


@ext('numpy.cumsum')
def _cumsum(I, A, axis=None):
    A = asarr(I, A)
    if axis is None:
        if A.ndim != 1:
            raise Unsupported('flat cumsum')
        axis = 0
    ax = axes(I, A, axis)[0]
    f = I.snap(A)
    if A.masked():
        raise Unsupported('cumsum of a compressed array')
    return mk(A.shape, lambda idx: (bany(add(idx[ax], ONE), lambda k: f(idx[:ax] + (k,) + idx[ax + 1:])[0]) if A.dtype in 'fc' else FALSE,
                                    bsum(add(idx[ax], ONE), lambda k: tonum(f(idx[:ax] + (k,) + idx[ax + 1:])[1]))), 'i' if A.dtype == 'b' else A.dtype)


@ext('numpy.diff')
def _diff(I, A, n=1, axis=-1):
    A = asarr(I, A)
    ax = axes(I, A, axis)[0]
    s = [slice(None)] * A.ndim
    a, b = list(s), list(s)
    a[ax], b[ax] = slice(1, None), slice(None, -1)
    return ew2(I, 'Sub', getitem(I, A, tuple(a)), getitem(I, A, tuple(b)))


@ext('numpy.where')
def _where(I, c, a=None, b=None):
    if a is None:
        return _nonzero(I, c)
    a, b = I.force(a), I.force(b)
    ka, kb = (kindof(x) if not isinstance(x, PyList) else 'npfloat' for x in (a, b))
    dt = KDT[max(RANK[ka], RANK[kb])]

    def fn(x, y, z):
        cc = x[1] if x[1].sort == 'B' else or_(x[0], not_(eq(x[1], ZERO)))
        u, v = (y[1], z[1]) if dt == 'b' else (tonum(y[1]), tonum(z[1]))
        return ite(cc, y[0], z[0]), ite(cc, u, v)
    return ewn(I, fn, dt, c, a, b)


@ext('numpy.nan_to_num')
def _ntn(I, A, copy=True, nan=0.0):
    x = sc(I.force(nan))
    return u1(I, A, lambda n, t: (FALSE, ite(n, x.t, t)))


@ext('numpy.linspace')
def _linspace(I, start, stop, num=50, endpoint=True):
    a, b = sc(I.force(start)), sc(I.force(stop))
    n = sc(I.force(num))
    if RANK[n.kind] > 1:
        raise PyRaise('TypeError', 'object cannot be interpreted as an integer')
    n = n.t
    if I.decide(lt(n, ZERO)):
        raise PyRaise('ValueError', 'Number of samples must be non-negative')
    d = sub(n, ONE) if endpoint else n
    if cint(n) == 1 or (cint(n) is None and I.entails(eq(n, ONE), 300)):
        return mk((n,), lambda idx: (FALSE, a.t), 'f')
    if cint(n) is None and not I.entails(le(TWO, n)):
        if I.decide(le(n, ONE)):
            return mk((n,), lambda idx: (FALSE, a.t), 'f')
    return mk((n,), lambda idx: (FALSE, add(a.t, mul(idx[0], div(sub(b.t, a.t), d)))), 'f')


@ext('numpy.fft.rfftfreq', 'scipy.fft.rfftfreq')
def _rfftfreq(I, n, d=1.0):
    n, d = sc(I.force(n)), sc(I.force(d)).t
    if RANK[n.kind] > 1:
        raise PyRaise('ValueError', 'n should be an integer')
    return mk((add(floor(div(n.t, TWO)), ONE),), lambda idx: (FALSE, div(idx[0], mul(n.t, d))), 'f')


@ext('numpy.searchsorted')
def _searchsorted(I, a, v, side='left', sorter=None):
    a, v, side = I.force(a), I.force(v), I.force(side)
    if sorter is not None or side not in ('left', 'right') or not isinstance(a, Arr) or a.ndim != 1 or a.masked():
        raise Unsupported('searchsorted')
    f, n = I.snap(a), a.shape[0]

    def one(key):
        key = sc(I.force(key))
        # what binary search guarantees for every vector, sorted or not
        p = fresh('ss', 'I', sign='0+')
        below = (lambda x: lt(x, key.t)) if side == 'left' else (lambda x: le(x, key.t))
        I.pc += [le(p, n), implies(lt(ZERO, p), below(f((sub(p, ONE),))[1])), implies(lt(p, n), not_(below(f((p,))[1])))]
        return Sc(p, 'int')
    if isnum(v):
        return one(v)
    if isinstance(v, PyList):
        return asarr(I, PyList([one(x) for x in v.items], "list"))
    if isinstance(v, Arr) and v.ndim == 1 and cint(v.shape[0]) is not None and not v.masked():
        g = I.snap(v)
        return asarr(I, PyList([one(Sc(g((const(k),))[1], 'float')) for k in range(cint(v.shape[0]))], "list"))
    raise Unsupported('searchsorted of a symbolic number of keys')


@ext('numpy.logspace')
def _logspace(I, start, stop, num=50, endpoint=True, base=10.0):
    r = _linspace(I, start, stop, num, endpoint)
    bs = sc(I.force(base)).t
    return ew1(r, lambda n, t: (n, power(bs, t)), 'f')


@ext('numpy.geomspace')
def _geomspace(I, start, stop, num=50, endpoint=True):
    a, b = ufunc(I, 'log', [start], {}), ufunc(I, 'log', [stop], {})
    r = _linspace(I, a, b, num, endpoint)
    return ew1(r, lambda n, t: (n, exp(t)), 'f')


@ext('numpy.isscalar')
def _isscalar(I, x):
    return isnum(I.force(x)) or isinstance(x, str)


@ext('numpy.ndim')
def _ndim(I, x):
    x = I.force(x)
    return 0 if isnum(x) else asarr(I, x).ndim


@ext('numpy.shape')
def _shape(I, x):
    return attr(I, asarr(I, x), 'shape')


@ext('numpy.size')
def _size(I, x):
    return sv(size(asarr(I, x)), 'int')


@ext('numpy.array_equal')
def _aeq(I, a, b, equal_nan=False):
    a, b = I.force(a), I.force(b)
    for v in (a, b):
        if v is None or isinstance(v, str):
            return a is b if (a is None or b is None) else a == b
    if isinstance(a, OVal) or isinstance(b, OVal):
        return native(Sc(eq(I.oterm(a), I.oterm(b)), 'bool'))
    a, b = asarr(I, a), asarr(I, b)
    if a.ndim != b.ndim:
        return False
    same = and_(*[eq(x, y) for x, y in zip(a.shape, b.shape)])
    if not I.decide(same):
        return False
    r = cmp(I, 'Eq', a, b)
    r = reduce(I, 'all', r) if isinstance(r, Arr) else r
    return native(Sc(I.truth(r), 'bool'))


@ext('numpy.errstate', 'warnings.catch_warnings')
def _ctx(I, *a, **k):
    return OVal(lift_o('context'))


@ext('warnings.simplefilter', 'warnings.filterwarnings', 'numpy.seterr')
def _wf(I, *a, **k):
    return None


@ext('warnings.warn')
def _warn(I, msg, category=None, stacklevel=1):
    I.effects.append(('warn', msg))
    return None


@ext('inspect.signature')
def _sig(I, f):
    f = I.force(f)
    if isinstance(f, ClassVal):
        names = [x.name for x in f.fields if x.init]
    elif isinstance(f, Func):
        names = [x.arg for x in f.node.args.args]
    elif isinstance(f, Bound):
        names = [x.arg for x in f.fn.node.args.args][1:]
    else:
        raise Unsupported('signature')
    return OVal(obj('signature'), {'parameters': SDict({n: None for n in names})})


@ext('dataclasses.field')
def _field(I, init=True, default=None, default_factory=None, repr=True, compare=True, **kw):
    return FieldSpec(init, default, 'default' in _field.__kwdefaults__ if False else default is not None or kw.get('_d', False), default_factory)


def _fieldcall(I, *a, **kw):
    has = 'default' in kw
    return FieldSpec(kw.get('init', True), kw.get('default'), has, kw.get('default_factory'))


EXT['dataclasses.field'] = _fieldcall


@ext('dataclasses.asdict')
def _asdict(I, o):
    return SDict({f.name: I.getattr(o, f.name) for f in o.cls.fields if not f.initvar})


@ext('dataclasses.replace')
def _dreplace(I, o, **kw):
    vals = {f.name: I.getattr(o, f.name) for f in o.cls.fields if f.init and not f.initvar}
    vals.update(kw)
    return I.instantiate(o.cls, [], vals)


@ext('collections.namedtuple')
def _nt(I, name, fields, defaults=None, **kw):
    if isinstance(fields, str):
        fields = fields.replace(',', ' ').split()
    else:
        fields = I.elems(fields)
    return NTClass(name, fields, I.elems(defaults) if defaults is not None else ())


@ext('functools.partial')
def _partial(I, f, *a, **kw):
    return Partial(f, list(a), kw)


@ext('functools.reduce')
def _reduce(I, f, xs, *init):
    vs = I.elems(xs)
    if vs is None:
        raise Unsupported('reduce over a symbolic sequence')
    acc = init[0] if init else vs.pop(0)
    for v in vs:
        acc = I.call(f, [acc, v], {})
    return acc


@ext('itertools.product')
def _product(I, *xs):
    import itertools
    ls = [I.elems(x) for x in xs]
    if any(l is None for l in ls):
        raise Unsupported('product of symbolic sequences')
    return PyList([PyList(t, 'tuple') for t in itertools.product(*ls)])


@ext('copy.copy', 'copy.deepcopy')
def _pycopy(I, v):
    v = I.force(v)
    if isinstance(v, Arr):
        return copy(v)
    if isinstance(v, PyList):
        return PyList(v.items, v.kind)
    if isinstance(v, SDict):
        return v.copy()
    if isinstance(v, Inst):
        r = Inst(v.cls)
        r.attrs = dict(v.attrs)
        return r
    return v


@ext('scipy.special.binom', 'scipy.special.comb', 'math.comb')
def _binom(I, n, k, exact=False):
    n, k = cint(native(I.force(n))), cint(native(I.force(k)))
    if n is None or k is None or n < 0:
        raise Unsupported('binomial coefficient of symbolic arguments')
    r = math.comb(n, k) if k >= 0 else 0
    return Sc(const(r), 'npfloat')


@ext('math.factorial', 'scipy.special.factorial')
def _fact(I, n, exact=False):
    n = cint(native(I.force(n)))
    if n is None:
        raise Unsupported('factorial')
    return Sc(const(math.factorial(n)), 'npfloat')


# ---- scipy.signal.convolve (direct), second argument constant along the other dimensions
@ext('scipy.signal.convolve', 'numpy.convolve')
def _convolve(I, x, h, mode='full', method='auto'):
    x, h = asarr(I, x), asarr(I, h)
    if x.ndim != h.ndim:
        raise PyRaise('ValueError', 'volume and kernel should have the same dimensionality')
    if x.masked() or h.masked():
        raise Unsupported('convolution of compressed arrays')
    nd = x.ndim
    for d in range(1, nd):
        if cint(h.shape[d]) != 1:
            raise Unsupported('multi-dimensional kernel')
    n, m = x.shape[0], h.shape[0]
    fx, fh = I.snap(x), I.snap(h)
    if mode == 'same':
        off, ln = floor(div(sub(m, ONE), TWO)), n
    elif mode == 'full':
        off, ln = ZERO, sub(add(n, m), ONE)
    elif mode == 'valid':
        if not I.decide(le(m, n)):
            raise Unsupported('valid convolution with a long kernel')
        off, ln = sub(m, ONE), add(sub(n, m), ONE)
    else:
        raise Unsupported('convolution mode')
    zs = (ZERO,) * (nd - 1)

    def el(idx):
        k, rest = idx[0], idx[1:]
        pos = lambda t: sub(add(k, off), t)
        inr = lambda t: and_(le(ZERO, pos(t)), lt(pos(t), n))
        nn = or_(bany(m, lambda t: and_(inr(t), or_(fx((pos(t),) + rest)[0], fh((t,) + zs)[0]))))
        return nn, bsum(m, lambda t: mul(ind(inr(t)), fh((t,) + zs)[1], fx((pos(t),) + rest)[1]))
    return mk((ln,) + x.shape[1:], el, 'f')


# ---- FFT
def _fftlike(sign):
    def f(I, x, n=None, axis=-1, norm=None):
        x = asarr(I, x)
        if n is not None or norm is not None:
            raise Unsupported('fft arguments')
        ax = axes(I, x, axis)[0]
        fx = I.snap(x)
        M = x.shape[ax]

        def el(idx):
            k = idx[ax]
            v = bsum(M, lambda t: mul(tonum(fx(idx[:ax] + (t,) + idx[ax + 1:])[1]), wroot(M, mul(const(sign), t, k))))
            nn = bany(M, lambda t: fx(idx[:ax] + (t,) + idx[ax + 1:])[0]) if x.dtype in 'fc' else FALSE
            return nn, (v if sign > 0 else div(v, M))
        return mk(x.shape, el, 'c')
    return f


EXT['numpy.fft.fft'], EXT['numpy.fft.ifft'] = _fftlike(1), _fftlike(-1)
EXT['scipy.fft.fft'], EXT['scipy.fft.ifft'] = _fftlike(1), _fftlike(-1)


# ---- random numbers: a new matrix of independent standard normal numbers per call
def randn(I, dims):
    I.ndraws = getattr(I, 'ndraws', 0) + 1
    nm = f'noise{I.ndraws}'
    declare(nm, 'R', max(1, len(dims)))
    if not hasattr(I, 'draws'):
        I.draws = []
    I.draws.append((nm, tuple(dims)))
    if not dims:
        return Sc(app(nm, ZERO), 'float')
    return mk(tuple(dims), lambda idx: (FALSE, app(nm, *idx)), 'f')


@ext('numpy.random.randn')
def _randn(I, *dims):
    return randn(I, shape_arg(I, PyList(list(dims), 'tuple')) if dims else [])


@ext('numpy.random.standard_normal')
def _stdn(I, size=None):
    return randn(I, shape_arg(I, size) if I.force(size) is not None else [])


@ext('numpy.random.normal')
def _normal(I, loc=0.0, scale=1.0, size=None):
    z = randn(I, shape_arg(I, size) if I.force(size) is not None else [])
    return binop(I, 'Add', I.force(loc), binop(I, 'Mult', I.force(scale), z))


# ---- covariance matrices
@ext('scipy.linalg.toeplitz')
def _toeplitz(I, c, r=None):
    c = asarr(I, c)
    if r is not None or c.ndim != 1 or c.masked():
        raise Unsupported('toeplitz')
    f = I.snap(c)
    n = c.shape[0]
    a = mk((n, n), lambda ix: f((ite(le(ix[1], ix[0]), sub(ix[0], ix[1]), sub(ix[1], ix[0])),)), c.dtype)
    a.tag = ('toeplitz', a.cell.content, n, f)
    return a


@ext('scipy.linalg.cholesky')
def _cholesky(I, a, lower=False, overwrite_a=False, check_finite=True):
    lower = I.force(lower)
    if not (isinstance(a, Arr) and isinstance(a.tag, tuple) and a.tag[0] == 'toeplitz' and a.tag[1] is a.cell.content) or lower not in (True, False):
        raise Unsupported('cholesky of a general matrix')
    ASSUME.add('cholesky raises LinAlgError unless the matrix is positive definite, and otherwise returns the triangular L with L L^T = matrix')
    n, f = a.tag[2:]
    if not hasattr(I, 'chol'):
        I.chol = []
    nm = f'CHOL{len(I.chol)}'
    declare(nm, 'R', 2)
    I.chol.append((nm, n, f))
    return mk((n, n), lambda ix: (FALSE, app(nm, *(ix if lower else ix[::-1]))), 'f')


EXT['numpy.linalg.cholesky'] = lambda I, a: _cholesky(I, a, True)


# ------------------------------------------------------------------ methods and attributes
def attr(I, o, n):
    if isinstance(o, str):
        return Prim('str.' + n, lambda I, a, k: strmeth(I, o, n, a))
    if isinstance(o, (Arr, Sc)) or isinstance(o, (int, float)):
        return ndattr(I, o, n)
    if isinstance(o, PyList):
        return listattr(I, o, n)
    if isinstance(o, SDict):
        return dictattr(I, o, n)
    if isinstance(o, (SRange, Gen)):
        raise Unsupported(f'attribute {n} of a range')
    if o is None:
        raise PyRaise('AttributeError', f'NoneType has no attribute {n}')
    if isinstance(o, Prim):
        return Prim(o.name + '.' + n, lambda I, a, k: primmeth(I, o, n, a, k))
    raise Unsupported(f'attribute {n} of {o!r}')


def primmeth(I, o, n, a, k):
    if o.name == 'dict' and n == 'fromkeys':
        return SDict({I.dkey(x): (a[1] if len(a) > 1 else None) for x in I.elems(a[0])})
    raise Unsupported(f'{o.name}.{n}')


def strmeth(I, s, n, a):
    a = [I.force(x) for x in a]
    if n == 'join':
        vs = I.elems(a[0])
        if vs is not None and all(isinstance(v, str) for v in vs):
            return s.join(vs)
        return OVal(obj('str'))
    if n == 'format':
        if all(isinstance(x, (str, int)) for x in a):
            return s.format(*a)
        return OVal(obj('str', s, *[I.oterm(x) for x in a]))
    if all(isinstance(x, (str, int)) or x is None for x in a):
        r = getattr(s, n)(*a)
        if isinstance(r, list):
            return PyList(r)
        return r
    raise Unsupported(f'str.{n}')


def ndattr(I, o, n):
    if isinstance(o, (int, float)) and n in ('real',):
        return o
    A = o if isinstance(o, Arr) else None
    if n == 'shape':
        return PyList([sv(dimlen(A, d), 'int') for d in range(A.ndim)] if A else [], 'tuple')
    if n == 'ndim':
        return A.ndim if A else 0
    if n == 'size':
        return sv(size(A), 'int') if A else 1
    if n == 'dtype':
        return OVal(obj('dtype', lift_o(A.dtype if A else KDT[RANK[sc(o).kind]])), {'kind': A.dtype if A else KDT[RANK[sc(o).kind]]})
    if n == 'T':
        return transpose(I, A)
    if n == 'real':
        return ufunc(I, 'real', [o], {})
    if n in REDS and (A is not None or 'np' in getattr(o, 'kind', '')):
        return Prim('ndarray.' + n, lambda I, a, k: callred(I, REDS[n], [o] + a, k))
    M = {
        'copy': lambda I, a, k: copy(A) if A is not None else o,
        'astype': lambda I, a, k: astype(I, o, dtypeof(I, a[0])),
        'reshape': lambda I, a, k: reshape(I, A, a if len(a) != 1 or isnum(I.force(a[0])) else I.elems(a[0])),
        'ravel': lambda I, a, k: reshape(I, A, [-1]),
        'flatten': lambda I, a, k: copy(reshape(I, A, [-1])),
        'squeeze': lambda I, a, k: squeeze(I, A, *a, **k) if A is not None else o,
        'transpose': lambda I, a, k: transpose(I, A, None if not a else [cint(native(x)) for x in (a if len(a) > 1 else I.elems(a[0]))]),
        'cumsum': lambda I, a, k: _cumsum(I, A, *a, **k),
        'dot': lambda I, a, k: matmul(I, A, a[0]),
        'tolist': lambda I, a, k: I.tolist(A),
        'item': lambda I, a, k: pyscalar(I, o),
        'repeat': lambda I, a, k: _repeat(I, A, *a, **k),
        'fill': lambda I, a, k: assign_view(I, A, I.force(a[0])),
        'conj': lambda I, a, k: ufunc(I, 'conj', [o], {}),
        'round': lambda I, a, k: ufunc(I, 'round', [o] + a, k),
        'clip': lambda I, a, k: _clip(I, o, *(a + [None] * (2 - len(a))), **k),
        'nonzero': lambda I, a, k: _nonzero(I, o),
        'take': lambda I, a, k: _take(I, o, *a, **k),
        'compress': lambda I, a, k: _compress(I, a[0], o, *a[1:], **k),
    }
    if n in M:
        return Prim('ndarray.' + n, M[n])
    if isinstance(o, (int, float)):
        if n == 'is_integer':
            return Prim(n, lambda I, a, k: float(o).is_integer())
        raise PyRaise('AttributeError', n)
    if isinstance(o, Sc) and 'np' not in o.kind:
        raise PyRaise('AttributeError', n)
    raise Unsupported(f'ndarray.{n}')


def unsupported(n):
    raise Unsupported(n)


def pyscalar(I, o):
    if isinstance(o, Arr):
        if not I.decide(eq(size(o), ONE)):
            raise PyRaise('ValueError', 'can only convert an array of size 1')
        nn, t = o.at([ZERO] * o.ndim)
        o = Sc(t, DTK[o.dtype], nn)
    if isinstance(o, Sc):
        return native(Sc(o.t, o.kind.replace('np', ''), o.nan))
    return o


def listattr(I, o, n):
    def append(I, a, k):
        I.mutlist(o)
        o.items = list(o.items) + [a[0]]

    def extend(I, a, k):
        I.mutlist(o)
        o.items = list(o.items) + list(I.tolist(a[0]).items)

    def insert(I, a, k):
        c = cint(native(I.force(a[0])))
        if c is None or o.symbolic():
            raise Unsupported('insert')
        I.mutlist(o)
        it = list(o.items)
        it.insert(c, a[1])
        o.items = it

    def pop(I, a, k):
        if o.symbolic() or o.kind == 'tuple':
            raise Unsupported('pop')
        c = cint(native(I.force(a[0]))) if a else -1
        I.mutlist(o)
        it = list(o.items)
        v = it.pop(c)
        o.items = it
        return v

    def index(I, a, k):
        for j, x in enumerate(I.elems(o)):
            if I.decide(lift(equal(I, x, a[0]))):
                return j
        raise PyRaise('ValueError')

    def add_(I, a, k):
        vs = I.elems(o)
        for x in vs:
            if I.decide(lift(equal(I, x, a[0]))):
                return
        append(I, a, k)
    M = {'append': append, 'extend': extend, 'insert': insert, 'pop': pop, 'index': index, 'add': add_,
         'copy': lambda I, a, k: PyList(o.items, o.kind),
         'count': lambda I, a, k: native(Sc(add(*[ind(lift(equal(I, x, a[0]))) for x in I.elems(o)]), 'int')),
         'reverse': lambda I, a, k: (I.mutlist(o), setattr(o, 'items', list(reversed(I.elems(o)))))[0]}
    if n in M:
        if o.kind == 'tuple' and n in ('append', 'extend', 'insert', 'pop', 'reverse'):
            raise PyRaise('AttributeError', n)
        return Prim('list.' + n, M[n])
    raise PyRaise('AttributeError', n)


def dictattr(I, d, n):
    def update(I, a, k):
        for x in a:
            x = I.force(x)
            if not isinstance(x, SDict):
                raise Unsupported('dict.update')
            I.dupdate(d, x)
        for kk, v in k.items():
            I.dset(d, kk, v)

    def pop(I, a, k):
        kk = I.dkey(a[0])
        if d.segs or d.hav or isinstance(kk, Sc):
            raise Unsupported('dict.pop')
        if kk not in d.items:
            if len(a) > 1:
                return a[1]
            raise PyRaise('KeyError')
        I.mutdict(d)
        v = d.items[kk]
        d.items = {x: y for x, y in d.items.items() if x != kk}
        return v

    def setdefault(I, a, k):
        if I.decide(contains(I, a[0], d)):
            return I.dget(d, a[0])
        v = a[1] if len(a) > 1 else None
        I.dset(d, a[0], v)
        return v

    def clear(I, a, k):
        I.mutdict(d)
        d.items, d.segs = {}, []
    M = {'keys': lambda I, a, k: I.dkeys(d), 'values': lambda I, a, k: I.dvalues(d), 'items': lambda I, a, k: I.ditems(d),
         'get': lambda I, a, k: I.dget(d, a[0], a[1] if len(a) > 1 else None), 'copy': lambda I, a, k: d.copy(),
         'update': update, 'pop': pop, 'setdefault': setdefault, 'clear': clear}
    if n in M:
        return Prim('dict.' + n, M[n])
    raise PyRaise('AttributeError', n)


# ------------------------------------------------------------------ builtins
def builtins(I):
    B = {}

    def b(n):
        def f(fn):
            B[n] = Prim(n, lambda I, a, k: fn(*[I.force(x) for x in a], **k))
            return fn
        return f

    @b('len')
    def _len(v):
        return sv(I.length(v), 'int')

    @b('range')
    def _range(*a):
        a = [native(x) for x in a]
        for x in a:
            if not isnum(x):
                raise PyRaise('TypeError', 'range argument')
            if RANK[sc(x).kind] > 1:
                raise PyRaise('TypeError', 'float in range')
        ts = [tonum(sc(x).t) for x in a]
        s, e, st = (ZERO, ts[0], ONE) if len(ts) == 1 else (ts[0], ts[1], ts[2] if len(ts) > 2 else ONE)
        n = rangelen(I, s, e, st)
        c = cint(n)
        if c is not None and c <= 24 and all(cint(t) is not None for t in ts):
            return PyList([int(cint(s) + k * cint(st)) for k in range(c)], 'tuple')
        return SRange(s, n, st)

    @b('enumerate')
    def _enum(v, start=0):
        n, get = I.seq(v)
        if cint(n) is not None and cint(n) <= 24:
            return PyList([PyList([k + start, get(const(k))], 'tuple') for k in range(cint(n))], 'list')
        return Gen(n, lambda k: PyList([native(Sc(add(k, lift(start)), 'int')), get(k)], 'tuple'))

    @b('zip')
    def _zip(*vs, strict=False):
        ss = [I.seq(v) for v in vs]
        cs = [cint(n) for n, g in ss]
        if all(c is not None and c <= 24 for c in cs):
            m = min(cs) if cs else 0
            return PyList([PyList([g(const(k)) for n, g in ss], 'tuple') for k in range(m)])
        n = ss[0][0]
        for m, g in ss[1:]:
            n = smin(I, n, m)
        return Gen(n, lambda k: PyList([g(k) for _, g in ss], 'tuple'))

    @b('map')
    def _map(f, *vs):
        ss = [I.seq(v) for v in vs]
        cs = [cint(n) for n, g in ss]
        if all(c is not None and c <= 24 for c in cs):
            return PyList([I.call(f, [g(const(k)) for n, g in ss], {}) for k in range(min(cs))])
        n = ss[0][0]
        for m, g in ss[1:]:
            n = smin(I, n, m)
        fn = I.generic(n, lambda i: I.call(f, [g(i) for _, g in ss], {}))
        return Gen(n, fn)

    @b('filter')
    def _filter(f, v):
        vs = I.elems(v)
        if vs is None:
            raise Unsupported('filter of a symbolic sequence')
        return PyList([x for x in vs if I.decide(I.truth(I.call(f, [x], {}) if f is not None else x))])

    @b('list')
    def _list(v=None):
        return PyList() if v is None else I.tolist(v)

    @b('tuple')
    def _tuple(v=None):
        return PyList([], 'tuple') if v is None else I.tolist(v, 'tuple')

    @b('set')
    def _set(v=None):
        return PyList([], 'set') if v is None else I.tolist(v, 'set')

    B['frozenset'] = B['set']

    @b('dict')
    def _dict(v=None, **k):
        d = SDict()
        if v is not None:
            if isinstance(v, SDict):
                d = v.copy()
            else:
                vs = I.elems(v)
                if vs is None:
                    raise Unsupported('dict of a symbolic sequence')
                for x in vs:
                    a, c = I.elems(x)
                    I.dset(d, a, c)
        for a, c in k.items():
            I.dset(d, a, c)
        return d

    @b('int')
    def _int(v=0, base=10):
        if isinstance(v, str):
            try:
                return int(v, base)
            except ValueError:
                raise PyRaise('ValueError')
        if isinstance(v, Arr):
            v = pyscalar(I, v)
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                raise PyRaise('ValueError' if v != v else 'OverflowError')
            return int(v)
        x = sc(v)
        if x.nan is not FALSE and I.decide(x.nan):
            raise PyRaise('ValueError', 'cannot convert float NaN to integer')
        t = tonum(x.t)
        if t.sort == 'I':
            return native(Sc(t, 'int'))
        f = floor(t)
        if is_nonneg(t) or I.entails(le(ZERO, t)):
            return native(Sc(f, 'int'))
        return native(Sc(f if I.decide(le(ZERO, t)) else neg(floor(neg(t))), 'int'))

    @b('float')
    def _float(v=0.0):
        if isinstance(v, str):
            return float(v)
        if isinstance(v, float):
            return v
        if isinstance(v, Arr):
            v = pyscalar(I, v)
        x = sc(v)
        return Sc(tonum(x.t), 'float', x.nan)

    @b('bool')
    def _bool(v=False):
        return native(Sc(I.truth(v), 'bool'))

    @b('str')
    def _str(v=''):
        return v if isinstance(v, str) else str(v) if isinstance(v, int) else OVal(obj('str', I.oterm(v)))

    @b('repr')
    def _repr(v):
        return OVal(obj('repr', I.oterm(v)))

    @b('print')
    def _print(*a, **k):
        return None

    @b('abs')
    def _abs(v):
        return ufunc(I, 'abs', [v], {}) if not isinstance(v, Sc) else native(Sc(abs_(tonum(v.t)), v.kind, v.nan))

    @b('round')
    def _round(v, n=0):
        if isinstance(v, (int, float)):
            return round(v, n) if n else round(v)
        raise Unsupported('round')

    @b('pow')
    def _pow(x, y):
        return I.binop('Pow', x, y)

    @b('divmod')
    def _divmod(x, y):
        return PyList([I.binop('FloorDiv', x, y), I.binop('Mod', x, y)], 'tuple')

    def mm(name, op):
        def f(I, a, k):
            key = k.get('key')
            if len(a) == 1:
                v = I.force(a[0])
                if isinstance(v, Arr) and v.ndim == 1 and key is None:
                    return reduce(I, name, v)
                vs = I.elems(v)
                if vs is None:
                    if key is None and 'default' not in k:
                        A = asarr(I, v)
                        if A.ndim == 1:
                            r = reduce(I, name, A)
                            return native(Sc(r.t, r.kind.replace('np', ''), r.nan)) if isinstance(r, Sc) else r
                    raise Unsupported(f'{name} of a symbolic sequence')
                if not vs:
                    if 'default' in k:
                        return k['default']
                    raise PyRaise('ValueError', 'empty sequence')
            else:
                vs = [I.force(x) for x in a]
            best = vs[0]
            kf = (lambda x: I.call(key, [x], {})) if key is not None else (lambda x: x)
            for x in vs[1:]:
                if best is None or x is None:
                    raise PyRaise('TypeError', 'comparison with None')
                if key is None and isnum(x) and isnum(best) and sc(x).kind == sc(best).kind and sc(x).nan is FALSE and sc(best).nan is FALSE \
                        and I.entails(I.truth(cmp(I, op + 'E', x, best))):
                    best = x          # equal values of the same kind are interchangeable
                elif I.decide(I.truth(cmp(I, op, kf(x), kf(best)))):
                    best = x
            return best
        B[name] = Prim(name, f)
    mm('max', 'Gt')
    mm('min', 'Lt')

    @b('sum')
    def _sum(v, start=0):
        vs = I.elems(v)
        if vs is not None:
            acc = start
            for x in vs:
                acc = I.binop('Add', acc, x)
            return acc
        A = asarr(I, v)
        return I.binop('Add', start, reduce(I, 'sum', A, 0))

    @b('sorted')
    def _sorted(v, key=None, reverse=False):
        vs = I.elems(v)
        if vs is None or not all(isinstance(x, (int, float, str)) for x in vs) or key is not None:
            if isinstance(v, SDict) and not v.items or isinstance(v, (SRange,)):
                return I.tolist(v)
            if isinstance(v, PyList) and len(v.items) == 1 and isinstance(v.items[0], Seg):
                # already increasing?
                i = fresh('q', 'I', sign='0+')
                x, y = v.items[0].fn(i), v.items[0].fn(add(i, ONE))
                if isnum(x) and I.entails(le(sc(x).t, sc(y).t)):
                    return PyList(v.items)
            raise Unsupported('sorted of symbolic values')
        return PyList(sorted(vs, reverse=reverse))

    @b('reversed')
    def _rev(v):
        n, get = I.seq(v)
        c = cint(n)
        if c is not None:
            return PyList([get(const(k)) for k in reversed(range(c))])
        return Gen(n, lambda k: get(sub(sub(n, ONE), k)))

    @b('iter')
    def _iter(v):
        return v

    @b('next')
    def _next(v, *d):
        n, get = I.seq(v)
        if isinstance(v, PyList):
            if v.symbolic() or not v.items:
                if d and not v.items:
                    return d[0]
                if not v.items:
                    raise PyRaise('StopIteration')
                if I.decide(lt(ZERO, n)):
                    return get(ZERO)
                raise PyRaise('StopIteration')
            return v.items[0]
        return get(ZERO)

    def anyall(name):
        def f(I, a, k):
            vs = I.elems(a[0])
            if vs is not None:
                cs = [I.truth(v) for v in vs]
                return native(Sc(or_(*cs) if name == 'any' else and_(*cs), 'bool'))
            n, get = I.seq(a[0])
            if name == 'any':
                return native(Sc(bany(n, lambda j: I.truth(get(j))), 'bool'))
            return native(Sc(ball(n, lambda j: I.truth(get(j))), 'bool'))
        B[name] = Prim(name, f)
    anyall('any')
    anyall('all')

    @b('isinstance')
    def _isinst(v, c):
        cs = I.elems(c) if isinstance(c, PyList) else [c]
        return any(isinst(I, v, x) for x in cs)

    @b('callable')
    def _callable(v):
        return isinstance(v, (Func, Prim, Bound, Partial, ClassVal, Ext))

    @b('hasattr')
    def _hasattr(o, n):
        try:
            I.getattr(o, n)
            return True
        except PyRaise as e:
            if e.etype == 'AttributeError':
                return False
            raise

    @b('getattr')
    def _getattr(o, n, *d):
        try:
            return I.getattr(o, n)
        except PyRaise as e:
            if d and e.etype == 'AttributeError':
                return d[0]
            raise

    @b('setattr')
    def _setattr(o, n, v):
        I.setattr(o, n, v)

    @b('vars')
    def _vars(o):
        return SDict(dict(o.attrs))

    @b('type')
    def _type(v):
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, NTInst):
            return v.cls
        if isinstance(v, Arr):
            return Ext('numpy.ndarray')
        if isinstance(v, (bool, int, float, str)):
            return B[type(v).__name__]
        if isinstance(v, PyList):
            return B[v.kind]
        if isinstance(v, Sc):
            if 'np' in v.kind:
                return Ext('numpy.' + {'npfloat': 'float64', 'npint': 'int64', 'npbool': 'bool_', 'npcomplex': 'complex128'}[v.kind])
            return B[v.kind]
        if v is None:
            return Exc('NoneType')
        raise Unsupported('type()')

    @b('id')
    def _id(v):
        return id(v)

    @b('slice')
    def _slice(*a):
        return slice(*a) if len(a) != 1 else slice(None, a[0])

    @b('hash')
    def _hash(v):
        raise Unsupported('hash')

    @b('issubclass')
    def _issub(a, c):
        if isinstance(a, ClassVal):
            return c in a.mro()
        raise Unsupported('issubclass')
    B['complex'] = Prim('complex', lambda I, a, k: unsupported('complex()'))
    B['object'] = Exc('object')
    B['property'] = Prim('property', lambda I, a, k: unsupported('property()'))
    B['NotImplemented'] = Exc('NotImplemented')
    B['Ellipsis'] = Ellipsis
    B['__name__'] = '__repo__'
    return B


def isinst(I, v, c):
    if isinstance(c, Prim):
        n = c.name
        if isinstance(v, Sc):
            k = v.kind
            if n == 'int':
                return k in ('int', 'bool')
            if n == 'float':
                return k in ('float', 'npfloat')
            if n == 'bool':
                return k == 'bool'
            if n == 'complex':
                return k == 'complex' or k == 'npcomplex'
            return False
        if n in ('int', 'float', 'str', 'bool'):
            return isinstance(v, {'int': int, 'float': float, 'str': str, 'bool': bool}[n])
        if n in ('list', 'tuple', 'set'):
            if n == 'tuple' and isinstance(v, NTInst):
                return True
            return isinstance(v, PyList) and v.kind == n
        if n == 'dict':
            return isinstance(v, SDict)
        if n == 'slice':
            return isinstance(v, slice)
        raise Unsupported(f'isinstance of {n}')
    if isinstance(c, Ext):
        n = norm(c.name)
        if n == 'numpy.ndarray':
            return isinstance(v, Arr)
        if n in ('numpy.generic', 'numpy.number'):
            return isinstance(v, Sc) and 'np' in v.kind
        if n in ('numpy.integer', 'numpy.int64', 'numpy.int_'):
            return isinstance(v, Sc) and v.kind == 'npint'
        if n in ('numpy.floating', 'numpy.float64'):
            return isinstance(v, Sc) and v.kind == 'npfloat'
        if n in ('numpy.bool_', 'numpy.bool'):
            return isinstance(v, Sc) and v.kind == 'npbool'
        if n in ('numbers.Number', 'numbers.Real'):
            return isnum(v)
        if n in ('numbers.Integral',):
            return isinstance(v, int) or isinstance(v, Sc) and RANK[v.kind] <= 1
        if n in ('collections.abc.Iterable', 'typing.Iterable', 'collections.abc.Sequence'):
            return isinstance(v, (PyList, NTInst, SRange, Gen, str)) or (n.endswith('Iterable') and isinstance(v, (Arr, SDict)))
        if n in ('collections.abc.Mapping',):
            return isinstance(v, SDict)
        raise Unsupported(f'isinstance of {n}')
    if isinstance(c, ClassVal):
        return isinstance(v, Inst) and c in v.cls.mro()
    if isinstance(c, NTClass):
        return isinstance(v, NTInst) and v.cls is c
    if isinstance(c, Exc):
        return isinstance(v, Exc) and I.isexc(v.name, c.name)
    raise Unsupported(f'isinstance of {c!r}')


# ------------------------------------------------------------------ sorting: only the multiset and the order are specified
def source_of(A):
    """(len, element function) with the same set of elements"""
    t = A.tag
    if t and t[0] in ('sort', 'unique') and t[1] is A.cell.content and A.maps is None:
        return t[2], t[3]
    if A.ndim != 1 or A.masked():
        raise Unsupported('set of the elements of this array')
    return A.shape[0], None


SORTS = [0]


def _sorted(I, A, what):
    A = asarr(I, I.force(A))
    if A.ndim != 1 or A.masked():
        if what == 'unique':
            A = reshape(I, A, [const(-1)])
        else:
            raise Unsupported('sort of this array')
    n, f = source_of(A)
    if f is None:
        f = I.snap(A)
    k = fresh('k', 'I', sign='0+')
    if not P.prove(I.hyps() + [lt(k, n)], not_(f((k,))[0])):
        raise Unsupported('sort of an array with missing values')
    SORTS[0] += 1
    nm = f'sorted{SORTS[0]}'
    declare(nm, 'R' if A.dtype == 'f' else 'I', 1)
    m = A.shape[0]
    if what == 'unique':
        declare(nm + 'len', 'I', lo=0)
        m = var(nm + 'len')
    r = mk((m,), lambda idx: (FALSE, app(nm, idx[0])), A.dtype)
    r.tag = (what, r.cell.content, n, f)
    USED.add('numpy.unique: strictly increasing, same set of elements' if what == 'unique' else 'numpy.sort: same elements, increasing')
    return r


@ext('numpy.sort')
def _npsort(I, A, axis=-1, kind=None):
    return _sorted(I, A, 'sort')


@ext('numpy.unique')
def _npunique(I, A):
    return _sorted(I, A, 'unique')


# ------------------------------------------------------------------ least squares
def ols(n, x, y, w):
    """sum over k < n with weights w(k): slope, intercept"""
    v0, v1, v2 = bsum(n, w), bsum(n, lambda k: mul(w(k), x(k))), bsum(n, lambda k: mul(w(k), x(k), x(k)))
    sy, sxy = bsum(n, lambda k: mul(w(k), y(k))), bsum(n, lambda k: mul(w(k), x(k), y(k)))
    det = sub(mul(v0, v2), mul(v1, v1))
    return div(sub(mul(v0, sxy), mul(v1, sy)), det), div(sub(mul(v2, sy), mul(v1, sxy)), det)


def paired(I, x, y):
    """x, y element functions over the same (possibly compressed) positions"""
    if I.simp(eq(x.shape[0], y.shape[0])) is not TRUE and not I.entails(eq(x.shape[0], y.shape[0])):
        raise PyRaise('ValueError', 'inconsistent numbers of samples')
    k = fresh('k', 'I', sign='0+')
    gx, gy = x.guard(0, k), y.guard(0, k)
    if not P.prove(I.hyps() + [lt(k, x.shape[0])], iff(gx, gy)):
        if x.masked() or y.masked():
            raise Unsupported('differently compressed abscissae and ordinates')
    return lambda j: ind(subst(gx, {k: lift(j)}))


@ext('sklearn.linear_model.LinearRegression')
def _linreg(I, fit_intercept=True, **kw):
    if kw or fit_intercept is not True:
        raise Unsupported('LinearRegression options')
    USED.add('sklearn LinearRegression: ordinary least squares with intercept')
    o = Inst(ClassVal('LinearRegression', [], {}, 'sklearn', 'LinearRegression'))

    def fit(I, a, k):
        d = dict(zip(('X', 'y', 'sample_weight'), a))
        d.update(k)
        X, y = I.force(d['X']), I.force(d['y'])
        X, y = asarr(I, X), asarr(I, y)
        if X.ndim != 2:
            raise PyRaise('ValueError', 'Expected 2D array')
        if cint(I.simp(X.shape[1])) != 1 or y.ndim != 1 or d.get('sample_weight') is not None:
            raise Unsupported('LinearRegression of this form')
        w = paired(I, X, y)
        fx, fy = I.snap(X), I.snap(y)
        j = fresh('k', 'I', sign='0+')
        hy = I.hyps() + [lt(j, X.shape[0]), eq(w(j), ONE)]
        if not P.prove(hy, not_(or_(fx((j, ZERO))[0], fy((j,))[0]))):
            raise Unsupported('LinearRegression of data with missing values')
        s, b = ols(X.shape[0], lambda q: fx((q, ZERO))[1], lambda q: fy((q,))[1], w)
        o.attrs['coef_'] = mk((ONE,), lambda idx: (FALSE, s), 'f')
        o.attrs['intercept_'] = Sc(b, 'npfloat')
        return o
    o.attrs['fit'] = Prim('fit', fit)
    return o


@ext('numpy.polyfit')
def _polyfit(I, x, y, deg, w=None):
    x, y = asarr(I, I.force(x)), asarr(I, I.force(y))
    if cint(I.force(deg)) != 1 or x.ndim != 1 or y.ndim != 1 or w is not None:
        raise Unsupported('polyfit of this form')
    USED.add('numpy.polyfit of degree 1: ordinary least squares')
    g = paired(I, x, y)
    fx, fy = I.snap(x), I.snap(y)
    j = fresh('k', 'I', sign='0+')
    if not P.prove(I.hyps() + [lt(j, x.shape[0]), eq(g(j), ONE)], not_(or_(fx((j,))[0], fy((j,))[0]))):
        raise Unsupported('polyfit of data with missing values')
    s, b = ols(x.shape[0], lambda q: fx((q,))[1], lambda q: fy((q,))[1], g)
    return mk((TWO,), lambda idx: (FALSE, ite(eq(idx[0], ZERO), s, b)), 'f')


# ------------------------------------------------------------------ further library functions
def truthmask(I, c):
    c = asarr(I, c)
    return c if c.dtype == 'b' else u1(I, c, lambda n, t: (FALSE, or_(n, not_(eq(tonum(t), ZERO)))), lambda d: 'b')


@ext('numpy.flatnonzero')
def _flatnonzero(I, c):
    c = truthmask(I, c)
    if c.ndim != 1 or c.masked():
        raise Unsupported('nonzero of a table')
    return getitem(I, arange(I, Sc(c.shape[0], 'int')), (c,))


@ext('numpy.nonzero')
def _nonzero(I, c):
    return PyList([_flatnonzero(I, c)], 'tuple')


@ext('numpy.clip')
def _clip(I, x, lo, hi):
    r = I.force(x)
    if I.force(lo) is not None:
        r = ufunc(I, 'maximum', [r, lo], {})
    if I.force(hi) is not None:
        r = ufunc(I, 'minimum', [r, hi], {})
    return r


@ext('numpy.average')
def _average(I, x, axis=None, weights=None):
    if weights is None or I.force(weights) is None:
        return reduce(I, 'mean', x, axis)
    x, w = asarr(I, x), asarr(I, weights)
    if w.ndim != x.ndim:
        raise Unsupported('weights of another shape')
    return binop(I, 'Div', reduce(I, 'sum', binop(I, 'Mult', x, w), axis), reduce(I, 'sum', w, axis))


@ext('numpy.meshgrid')
def _meshgrid(I, *xs, indexing='xy', sparse=False, copy=True):
    xs = [asarr(I, x) for x in xs]
    if any(x.ndim != 1 or x.masked() for x in xs) or len(xs) != 2 or I.force(sparse):
        raise Unsupported('meshgrid')
    ix = I.force(indexing)
    a, b = xs
    fa, fb = I.snap(a), I.snap(b)
    na, nb = a.shape[0], b.shape[0]
    if ix == 'ij':
        return PyList([mk((na, nb), lambda i: fa((i[0],)), a.dtype), mk((na, nb), lambda i: fb((i[1],)), b.dtype)], 'list')
    return PyList([mk((nb, na), lambda i: fa((i[1],)), a.dtype), mk((nb, na), lambda i: fb((i[0],)), b.dtype)], 'list')


@ext('numpy.take')
def _take(I, x, idx, axis=None):
    x = asarr(I, x)
    if axis is None:
        if x.ndim != 1:
            raise Unsupported('take from a table')
        return getitem(I, x, (I.force(idx),))
    ax = cint(native(I.force(axis))) % x.ndim
    return getitem(I, x, tuple([slice(None)] * ax + [I.force(idx)]))


@ext('numpy.compress', 'numpy.extract')
def _compress(I, c, x, axis=None):
    x = asarr(I, x)
    if x.ndim != 1 and (axis is None or cint(native(I.force(axis))) != 0):
        raise Unsupported('compress')
    return getitem(I, x, (truthmask(I, c),))


@ext('numpy.einsum')
def _einsum(I, spec, *ops):
    spec = I.force(spec)
    if not isinstance(spec, str) or '.' in spec or '->' not in spec:
        raise Unsupported('einsum')
    lhs, out = spec.replace(' ', '').split('->')
    ins = lhs.split(',')
    ops = [asarr(I, o) for o in ops]
    if len(ins) != len(ops) or any(len(i) != o.ndim or len(set(i)) != len(i) or o.masked() for i, o in zip(ins, ops)) or len(set(out)) != len(out):
        raise Unsupported('einsum')
    dim = {}
    for i, o in zip(ins, ops):
        for c, n in zip(i, o.shape):
            if c in dim and not I.entails(eq(dim[c], n)):
                raise Unsupported('einsum with broadcasting')
            dim.setdefault(c, n)
    if any(c not in dim for c in out):
        raise Unsupported('einsum')
    fs = [I.snap(o) for o in ops]
    red = [c for c in dim if c not in out]
    if any(o.dtype == 'b' for o in ops):
        raise Unsupported('einsum of booleans')

    def f(idx):
        env0 = dict(zip(out, idx))

        def at(env):
            es = [g(tuple(env[c] for c in i)) for g, i in zip(fs, ins)]
            return or_(*[e[0] for e in es]), mul(*[tonum(e[1]) for e in es])

        def go(cs, env, which):
            if not cs:
                return at(env)[which]
            agg = bany if which == 0 else bsum
            return agg(dim[cs[0]], lambda k: go(cs[1:], {**env, cs[0]: k}, which))
        return go(red, env0, 0), go(red, env0, 1)
    dt = 'f' if any(o.dtype == 'f' for o in ops) else 'i'
    if any(o.dtype == 'c' for o in ops):
        dt = 'c'
    r = mk(tuple(dim[c] for c in out), f, dt)
    return unwrap(r) if not out else r


@ext('itertools.chain')
def _chain(I, *xs):
    out = PyList([], 'list')
    for x in xs:
        l = I.tolist(x)
        if not isinstance(l, PyList):
            raise Unsupported('chain')
        out.items.extend(l.items)
    return out


@ext('math.fsum')
def _fsum(I, xs):
    return reduce(I, 'sum', xs)


@ext('math.hypot')
def _mhypot(I, a, b):
    return ufunc(I, 'hypot', [a, b], {})
