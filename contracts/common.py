"""Shared declarations and specifications of the contracts."""
from pyvc.spec import *


def rtcases(pid, cls, n, seed=5):
    """(class name, case) pairs from the run-time contract's generator"""
    from rt import worker as W
    c = next(k for k in W.RT[pid] if k.__name__ == cls)
    for i in range(n):
        rng = np.random.default_rng([seed, i, 99])
        try:
            yield cls, c.gen(rng, i)
        except Exception:
            continue


LINREG = 'pymultifracs.utils:linear_regression'


def wls(n, x, y, w):
    """slope and intercept minimising sum_k w(k) (y(k) - a x(k) - b)^2"""
    v0 = bsum(n, w)
    v1 = bsum(n, lambda k: mul(w(k), x(k)))
    v2 = bsum(n, lambda k: mul(w(k), x(k), x(k)))
    det = sub(mul(v0, v2), mul(v1, v1))
    sy = bsum(n, lambda k: mul(w(k), y(k)))
    sxy = bsum(n, lambda k: mul(w(k), x(k), y(k)))
    return div(sub(mul(v0, sxy), mul(v1, sy)), det), div(sub(mul(v2, sy), mul(v1, sxy)), det), div(v0, det)


def linreg_contract(I, args, kw):
    """linear_regression by its contract (C01); the body is executed when the call does not have the contract's form"""
    names = ['x', 'y', 'nj', 'return_variance']
    d = dict(zip(names, args))
    d.update(kw)
    if set(d) - set(names) or not {'x', 'y', 'nj'} <= set(d):
        return NotImplemented
    rv = I.force(d.get('return_variance', False))
    x, y, w = (I.force(d[k]) for k in ('x', 'y', 'nj'))
    if rv not in (True, False) or not all(isinstance(a, Arr) and not a.masked() for a in (x, y, w)):
        return NotImplemented
    if y.ndim != 2 or x.ndim != 2 or w.ndim != 2:
        return NotImplemented
    n = x.shape[0]
    one = lambda s: I.simp(eq(s, ONE)) is TRUE
    R = y.shape[1]
    for a in (x, y, w):
        if not I.entails(eq(a.shape[0], n)):
            return NotImplemented
        if not (one(a.shape[1]) or I.entails(eq(a.shape[1], R))):
            return NotImplemented
    col = lambda a, r: ZERO if one(a.shape[1]) else r
    fx, fy, fw = I.snap(x), I.snap(y), I.snap(w)

    def res(which):
        def f(idx):
            r = idx[0]
            X = lambda k: fx((k, col(x, r)))[1]
            Y = lambda k: fy((k, col(y, r)))[1]
            W = lambda k: fw((k, col(w, r)))[1]
            nan = bany(n, lambda k: or_(fx((k, col(x, r)))[0], fy((k, col(y, r)))[0], fw((k, col(w, r)))[0]))
            if which == 2:
                nan = bany(n, lambda k: or_(fx((k, col(x, r)))[0], fw((k, col(w, r)))[0]))
            return nan, wls(n, X, Y, W)[which]
        return mk((R,), f, 'f')
    outs = [res(0), res(1)] + ([res(2)] if rv else [])
    return PyList(outs, 'tuple')


def use(I, *names):
    if 'linreg' in names:
        I.contracts[LINREG] = linreg_contract


# ------------------------------------------------------------------ a symbolic multiresolution quantity
MRQ = 'pymultifracs.multiresquantity:MultiResolutionQuantity'


class SymMRQ:
    """scales 1..J; L(j) positions; R realisations; X value, V valid"""

    def __init__(self, tag='', J='J', R='R', L='L', minvalid=1, sign=None, share=None):
        self.tag = tag
        st = share.tag if share else tag
        self.Xn, self.Mn, self.Ln, self.Jn, self.Rn = 'X' + tag, 'V' + st, L + st, J + st, R
        self.Nn = 'N' + st
        declare(self.Xn, 'R', 3, sign=sign)
        if not share:
            declare(self.Jn, 'I', lo=1)
            if R != 1:
                declare(self.Rn, 'I', lo=1)
            declare(self.Ln, 'I', 1, lo=1)
            declare(self.Mn, 'B', 3)
            declare(self.Nn, 'I', 2, lo=1)
            TM.COUNTS[(self.Ln, self.Mn, 1)] = self.Nn
        self.J, self.R = var(self.Jn), (ONE if R == 1 else var(self.Rn))

    def X(self, j, k, r):
        return app(self.Xn, j, k, r)

    def V(self, j, k, r):
        return app(self.Mn, j, k, r)

    def M(self, j, k, r):
        return not_(self.V(j, k, r))

    def L(self, j):
        return app(self.Ln, j)

    def cnt(self, j, r):
        return bsum(self.L(j), lambda k: ind(self.V(j, k, r)))

    def build(self, I, formalism='wavelet coef', gamint=None, label='mrq'):
        """instance of the real class holding these values (nj = number of valid coefficients: the class invariant)"""
        m = I.call(I.get(MRQ), [formalism, gamint if gamint is not None else 0.0], {})
        vals, nj = I.force(m.attrs['values']), I.force(m.attrs['nj'])
        memo, memo2 = {}, {}

        def val(o):
            j = add(o, 1)
            if j not in memo:
                memo[j] = A((self.L(j), self.R), lambda k, r: (self.M(j, k, r), self.X(j, k, r)), label=label + '.values[j]', I=I)
            return memo[j]

        def num(o):
            j = add(o, 1)
            if j not in memo2:
                memo2[j] = A((self.R,), lambda r: self.cnt(j, r), 'i', label=label + '.nj[j]', I=I)
            return memo2[j]
        vals.segs.append((ONE, self.J, val, False))
        nj.segs.append((ONE, self.J, num, False))
        for o, n in ((vals, '.values'), (nj, '.nj'), (m, '')):
            I.inputs[o] = label + n
        self.nj = num
        return m

    def env(self, vals):
        """numeric interpretation: vals = {j: array (L, R) with nan}"""
        J = len(vals)
        vs = [np.asarray(vals[j], float) for j in sorted(vals)]
        t = self.tag

        def X(j, k, r):
            if not (1 <= j <= J):
                raise NoValue('j')
            v = vs[j - 1][k, r] if k < len(vs[j - 1]) and r < vs[j - 1].shape[1] else 1.0
            return 1.0 if v != v else float(v)

        def V(j, k, r):
            if not (1 <= j <= J):
                raise NoValue('j')
            return not bool(np.isnan(vs[j - 1][k, r])) if k < len(vs[j - 1]) and r < vs[j - 1].shape[1] else False

        def N(j, r):
            if not (1 <= j <= J and r < vs[0].shape[1]):
                raise NoValue('j')
            return int((~np.isnan(vs[j - 1][:, r])).sum())

        def L(j):
            if not (1 <= j <= J):
                raise NoValue('j')
            return len(vs[j - 1])
        return {self.Jn: J, **({self.Rn: vs[0].shape[1]} if self.Rn != 1 else {})}, {self.Xn: X, self.Mn: V, self.Ln: L, self.Nn: N}


def small(vals, n=40, J=6, R=3):
    return len(vals) <= J and all(np.asarray(v).shape[0] <= n and np.asarray(v).shape[1] <= R for v in vals.values())


# ------------------------------------------------------------------ fast_power
FASTPOW = 'pymultifracs.utils:fast_power'


def fast_power_contract(I, args, kw):
    """fast_power on positive elements, or on non-negative ones with a positive exponent: a**q, missing elements stay missing
    (proved as a contract of C02)"""
    if kw or len(args) != 2:
        return NotImplemented
    a, q = I.force(args[0]), I.force(args[1])
    if not isinstance(a, Arr) or a.masked() or not isnum(q) or a.dtype != 'f':
        return NotImplemented
    qs = sc(q)
    if qs.nan is not FALSE:
        return NotImplemented
    idx = tuple(fresh('p', 'I', sign='0+') for _ in a.shape)
    v = a.at(idx)[1]
    if not is_pos(v) and not (is_nonneg(v) and (is_pos(qs.t) or I.entails(lt(0, qs.t)))):
        return NotImplemented
    f = I.snap(a)

    def el(ix):
        n, v = f(ix)
        return n, power(v, qs.t)
    return mk(a.shape, el, 'f')


def fast_power_weak(I, args, kw):
    """fast_power elementwise: its contract on positive elements, an unspecified function of element and exponent otherwise"""
    r = fast_power_contract(I, args, kw)
    if r is not NotImplemented or kw or len(args) != 2:
        return r
    a, q = I.force(args[0]), I.force(args[1])
    if not isinstance(a, Arr) or a.masked() or not isnum(q) or a.dtype != 'f' or sc(q).nan is not FALSE or sc(q).t.op == 'const':
        return NotImplemented
    declare('fpw', 'R', 2)
    declare('fpwnan', 'B', 2)
    f, qt = I.snap(a), sc(q).t

    def el(ix):
        n, v = f(ix)
        return or_(n, app('fpwnan', v, qt)), app('fpw', v, qt)
    return mk(a.shape, el, 'f')


def prove_fast_power(S):
    """the contract used above, on the body"""
    S.functions.add(FASTPOW)
    declare('FPn', 'I', lo=0)
    declare('FPR', 'I', lo=1)
    declare('FPa', 'R', 2, sign='+')
    declare('FPs', 'R', 2, sign='!')
    declare('FPz', 'R', 2, sign='0+')
    declare('FPqp', 'R', sign='+')
    declare('FPm', 'B', 2)
    declare('FPq', 'R')
    n, R = var('FPn'), var('FPR')

    def run(I, ob, q, signed=False, zero=False):
        nm = 'FPs' if signed else 'FPz' if zero else 'FPa'
        a = A((n, R), lambda k, r: (app('FPm', k, r), app(nm, k, r)), I=I, label='array')
        out = I.call(I.get(FASTPOW), [a, q], {})
        qt = sc(q).t
        eqarr(I, ob, f'array**exponent', out, (n, R), lambda k, r: power(app(nm, k, r), qt), lambda k, r: app('FPm', k, r))
        ob('input untouched', const(not I.written))
    S.scenario('fast_power(positive array, any exponent)', lambda I, ob: run(I, ob, Sc(var('FPq'), 'npfloat')))
    S.scenario('fast_power(positive array, any float exponent)', lambda I, ob: run(I, ob, Sc(var('FPq'), 'float')))
    S.scenario('fast_power(non-negative array, positive exponent)', lambda I, ob: run(I, ob, Sc(var('FPqp'), 'npfloat'), zero=True))
    S.scenario('fast_power(non-negative array, positive float exponent)', lambda I, ob: run(I, ob, Sc(var('FPqp'), 'float'), zero=True))
    for k in range(0, 12):
        S.scenario(f'fast_power(signed array, integer {k})', lambda I, ob, k=k: run(I, ob, k, True))
        S.scenario(f'fast_power(signed array, numpy integer {k})', lambda I, ob, k=k: run(I, ob, Sc(const(k), 'npint'), True))


# ------------------------------------------------------------------ multiresolution quantity specifications
LN2 = ln(TWO)


def log2(t):
    return div(ln(t), LN2)


def absq(x, q):
    return power(abs_(x), q)


def Smean(m, j, r, f):
    """mean over the valid coefficients of scale j, realisation r"""
    return div(bsum(m.L(j), lambda k: mul(ind(m.V(j, k, r)), f(m.X(j, k, r)))), m.cnt(j, r))


def reg_scales(m, j1, j2, weighted, y, r):
    """regression over exactly j1..j2 of y(j, r) against j"""
    w = (lambda k: m.cnt(add(j1, k), r)) if weighted else (lambda k: ONE)
    return wls(add(sub(j2, j1), 1), lambda k: add(j1, k), lambda k: y(add(j1, k), r), w)


def partitions(m, big=None):
    big = big or m
    if m == 0:
        yield ()
        return
    for k in range(min(m, big), 0, -1):
        for rest in partitions(m - k, k):
            yield (k,) + rest


def cumulant_of(m, mu):
    """cumulant of order m from moments mu(1..m): sum over set partitions (-1)^(b-1) (b-1)! prod of the block moments"""
    tot = ZERO
    for p in partitions(m):
        b = len(p)
        cnt = math.factorial(m)
        for s in p:
            cnt //= math.factorial(s)
        for s in set(p):
            cnt //= math.factorial(p.count(s))
        tot = add(tot, mul(const(cnt * (-1) ** (b - 1) * math.factorial(b - 1)), *[mu(s) for s in p]))
    return tot


# ------------------------------------------------------------------ piecewise sequences
def pieces(I, n, f, depth=0):
    """[(length, function)] covering the sequence f(0), ..., f(n-1), split where its definition changes"""
    if I.entails(le(n, 0)):
        return []
    k = fresh('k', 'I', sign='0+')
    m = len(I.pc)
    I.pc.append(lt(k, n))
    try:
        v = I.simp2(f(k))
    finally:
        del I.pc[m:]
    out = []
    P.closed_inds(v, set(), out)
    if v.op == 'ite':
        P.closed_lits(v.args[0], set(), out)
    lits = []
    for c in out:
        P.closed_lits(c, set(), lits)
    for c in lits:
        if k not in c.fv or c.op not in ('le0', 'eq0'):
            continue
        q = to_poly(c.args[0])
        cx = q.get(((k, 1),))
        if not TM._unit(q, cx, k):
            continue
        t = from_poly(TM.pmul_c({mm: cc for mm, cc in q.items() if mm != ((k, 1),)}, -1 / cx))
        cuts = [add(t, 1) if cx > 0 else t] if c.op == 'le0' else [t, add(t, 1)]
        for u in cuts:
            if I.entails(le(u, 0)) or I.entails(le(n, u)):
                continue
            if not (I.entails(le(0, u)) and I.entails(le(u, n))):
                raise Unsupported('piecewise sequence with unordered breakpoints')
            if depth > 30:
                raise Unsupported('too many pieces')
            return pieces(I, u, f, depth + 1) + pieces(I, sub(n, u), lambda j: f(add(j, u)), depth + 1)
    return [(n, lambda j: subst(v, {k: lift(j)}))]


def canon(I, v):
    """term standing for the value an argument has now"""
    v = I.force(v)
    if isinstance(v, Arr) and v.tag is None and not v.masked() and v.ndim == 1:
        n, x = v.at([bv(100)])
        return obj('seq', v.shape[0], n, x)
    if isinstance(v, PyList) and (v.symbolic() or all(isnum(x) for x in v.items)):
        m, g = I.seq(v)
        if v.symbolic():
            k = fresh('k', 'I', sign='0+')
            I.pc.append(lt(k, m))
            x = sc(I.force(g(k)))
            I.pc.remove(lt(k, m))
            return obj('seq', m, subst(x.nan, {k: bv(100)}), subst(x.t, {k: bv(100)}))
        t, k = ZERO, fresh('k', 'I', sign='0+')
        for i, x in reversed(list(enumerate(v.items))):
            t = ite(eq(k, i), sc(x).t, t)
        return obj('seq', const(len(v.items)), FALSE, subst(t, {k: bv(100)}))
    return I.oterm(v)


def same(a, b):
    """sufficient condition for two results to be the same"""
    if a is b:
        return TRUE
    if a.op == b.op == 'obj' and a.args[0] == b.args[0] and len(a.args) == len(b.args):
        if a.args[0] == 'seq':
            n, m = a.args[1], b.args[1]
            k = fresh('k', 'I', sign='0+')
            f = lambda t: subst(t, {bv(100): k})
            return and_(eq(n, m), not_(mkany(n, k, not_(and_(iff(f(a.args[2]), f(b.args[2])), eq(f(a.args[3]), f(b.args[3])))))))
        return and_(*[same(x, y) for x, y in zip(a.args[1:], b.args[1:])])
    if a.sort != b.sort and 'O' in (a.sort, b.sort):
        return FALSE
    return iff(a, b) if a.sort == 'B' else eq(a, b)



def bound(I, f, args, kw):
    """arguments by name in the current signature, defaults included"""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if len(args) > len(names):
        raise PyRaise('TypeError', 'too many arguments')
    d = dict(zip(names, args))
    for k, v in kw.items():
        if k in d or k not in names + [x.arg for x in a.kwonlyargs]:
            raise PyRaise('TypeError', f'argument {k}')
        d[k] = v
    for x, e in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, e) for x, e in zip(a.kwonlyargs, a.kw_defaults) if e is not None]:
        if x not in d:
            d[x] = I.ev(e, f.frame if hasattr(f, 'frame') else None)
    miss = [n for n in names if n not in d]
    if miss:
        raise PyRaise('TypeError', f'missing argument {miss[0]}')
    return d


def cbound(I, cls, args, kw):
    """arguments of a dataclass constructor by name"""
    if cls.fields is None or cls.find('__init__') is not None:
        raise Unsupported(f'{cls.qual} is not a dataclass')
    pars = [f for f in cls.fields if f.init]
    if len(args) > len(pars):
        raise PyRaise('TypeError', 'too many arguments')
    d = {f.name: a for f, a in zip(pars, args)}
    for k, v in kw.items():
        if k in d or k not in [f.name for f in pars]:
            raise PyRaise('TypeError', f'unexpected argument {k}')
        d[k] = v
    for f in pars:
        if f.name not in d:
            if f.factory is not None:
                d[f.name] = I.call(f.factory, [], {})
            elif f.has_default:
                d[f.name] = f.default
            else:
                raise PyRaise('TypeError', f'missing argument {f.name}')
    return d


class Calls:
    """one name per call: equal arguments, same call"""

    def __init__(self, I):
        self.I, self.seen = I, []

    def term(self, name, d):
        t = obj('call:' + name, *[obj('arg:' + k, canon(self.I, d[k])) for k in sorted(d)])
        for u in self.seen:
            if u is t or (u.args[0] == t.args[0] and self.I.entails(same(u, t))):
                return u
        self.seen.append(t)
        return t
