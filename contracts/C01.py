"""linear_regression: exact weighted least squares."""
from pyvc.spec import *
from .common import *

FN = 'pymultifracs.utils:linear_regression'


def contract(S):
    S.functions.add(FN)
    S.assume('exact real arithmetic (floating point rounding is not modelled)')
    S.assume('precondition: at least two distinct abscissae per column (the determinant of the normal equations is non-zero)')
    declare('n', 'I', lo=2)
    declare('R', 'I', lo=1)
    declare('X', 'R', 2)
    declare('Y', 'R', 2)
    declare('W', 'R', 2, sign='+')
    declare('s0', 'R')
    declare('t0', 'R')
    declare('w0', 'R', sign='+')
    n, R = var('n'), var('R')
    X, Y, W = (lambda *a, k=k: app(k, *a) for k in 'XYW')

    def cases():
        yield from rtcases('C01', 'Regression', 300)

    def interp(c):
        x, y, w = c['x'] + 0 * c['y'], c['y'], c['nj']
        if len(x) > 9:
            return None
        return Env({'n': len(x), 'R': y.shape[1], 's0': 1.7, 't0': -.3, 'w0': 2.5},
                   {'X': lambda j, r: float(x[j, r]), 'Y': lambda j, r: float(y[j, r]), 'W': lambda j, r: float(w[j, r])})

    for var_ in (False, True):
        for xcols in ('R', '1'):
            def run(I, ob, var_=var_, xcols=xcols):
                XX = X if xcols == 'R' else (lambda j, r: X(j, 0))
                x = A((n, R if xcols == 'R' else 1), lambda j, r: X(j, r), I=I, label='x')
                y = A((n, R), lambda j, r: Y(j, r), I=I, label='y')
                w = A((n, R), lambda j, r: W(j, r), I=I, label='nj')
                res = I.call(I.get(FN), [x, y, w], {'return_variance': True} if var_ else {})
                out = I.elems(res)
                ob('number of results', const(len(out) == (3 if var_ else 2)))
                r = fresh('r', 'I', sign='0+')
                hy = [lt(r, R)]
                for o, nm in zip(out, 'ab'):
                    ob(f'{nm}: one value per column', const(isinstance(o, Arr) and o.ndim == 1) if not isinstance(o, Arr) or o.ndim != 1 else eq(o.shape[0], R))
                (na, a), (nb, b) = out[0].at([r]), out[1].at([r])
                ob('never missing', and_(not_(na), not_(nb)), hy)
                sm = lambda f: bsum(n, f)
                ob('normal equation of the intercept', eq(sm(lambda j: mul(W(j, r), sub(Y(j, r), add(mul(a, XX(j, r)), b)))), 0), hy)
                ob('normal equation of the slope', eq(sm(lambda j: mul(W(j, r), XX(j, r), sub(Y(j, r), add(mul(a, XX(j, r)), b)))), 0), hy)
                s, t = var('s0'), var('t0')
                err = lambda p, q: sm(lambda j: mul(W(j, r), power(sub(Y(j, r), add(mul(p, XX(j, r)), q)), 2)))
                gap = sm(lambda j: mul(W(j, r), power(add(mul(sub(s, a), XX(j, r)), sub(t, b)), 2)))
                ob('minimality: any other line has a larger error, by a sum of squares', eq(err(s, t), add(err(a, b), gap)), hy)
                sub_aff = lambda z: subst(z, {}, amap={'Y': lambda j, q: add(mul(s, XX(j, q)), t)})
                ob('affine data are recovered: slope', eq(sub_aff(a), s), hy)
                ob('affine data are recovered: intercept', eq(sub_aff(b), t), hy)
                w0 = var('w0')
                eqw = lambda z: subst(z, {}, amap={'W': lambda j, q: w0})
                one = lambda z: subst(z, {}, amap={'W': lambda j, q: ONE})
                ob('equal weights give ordinary least squares', and_(eq(eqw(a), one(a)), eq(eqw(b), one(b))), hy)
                if var_:
                    nv, v = out[2].at([r])
                    # slope = sum_j c_j y_j with c_j the derivative; Var = sum_j c_j^2 / w_j
                    k = fresh('k', 'I', sign='0+')
                    cj = subst(a, {}, amap={'Y': lambda j, q: ite(eq(j, k), ONE, ZERO)})
                    cjf = lambda j: subst(cj, {k: j})
                    ob('variance: shape', eq(out[2].shape[0], R))
                    ob('variance of the slope estimator', and_(not_(nv), eq(v, sm(lambda j: mul(inv(W(j, r)), power(cjf(j), 2))))), hy)
                ob('inputs untouched', const(not I.written))
            S.scenario(f'linear_regression(variance={var_}, abscissae with {xcols} column)', run, cases, interp)
