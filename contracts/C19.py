"""Simulated fractional noise has exactly the prescribed covariance."""
from pyvc.spec import *
from .common import *
from .sim import *

FG, FB = 'pymultifracs.simul.fbm:fgn', 'pymultifracs.simul.fbm:fbm'


def fgn_cov(H, sigma, dt):
    p = lambda x: power(abs_(x), mul(2, H))
    return lambda k: mul(power(dt, mul(2, H)), sigma, sigma, div(ONE, TWO), sub(add(p(add(k, 1)), p(sub(k, 1))), mul(2, p(k))))


def contract(S):
    declare_sim()
    facts(S)
    S.functions |= {FG, FB, CME, CHOL}
    declare('dtp', 'R', sign='+')
    N, R, H, sg, dt = (var(x) for x in ('N', 'R', 'H', 'sigma', 'dtp'))

    def run(I, ob, fn, method, pair, given, step, H=H):
        if not isinstance(H, int):
            I.pc += [le(0, H), le(H, 1)]
        Rr = R if pair else ONE
        z = noise(I, method, Rr, given=given)
        kw = {'sigma': Sc(sg, 'float'), 'method': method}
        if step:
            kw['dt'] = Sc(dt, 'float')
        if given:
            kw['z0'] = z
        x = I.call(I.get(fn), [PyList([Sc(N, 'int'), Sc(R, 'int')], 'tuple') if pair else Sc(N, 'int'), H if isinstance(H, int) else Sc(H, 'float')], kw)
        cov = fgn_cov(lift(H), sg, dt if step else inv(N))
        draws = getattr(I, 'draws', [])
        if not given:
            need = 2 if method == 'cme' else 1
            ob('number of noise matrices drawn', const(len(draws) == need))
            if len(draws) != need:
                return
            M = sub(mul(2, N), 2) if method == 'cme' else N
            for d in draws:
                ob('noise drawn: one number per sample and realisation', and_(const(len(d[1]) == 2), eq(d[1][0], M), eq(d[1][1], Rr)) if len(d[1]) == 2 else FALSE)
        else:
            ob('no other randomness', const(not draws))
        ch = getattr(I, 'chol', [])
        if method == 'chol':
            ob('one factorisation', const(len(ch) == 1))
            if len(ch) != 1:
                return
            chol_ob(I, ob, '', ch[0], N, cov)
        P = process(I, method, N, cov, znoise(I, method, given=given, draws=draws), ch[0] if ch else None)
        Q = P if fn == FG else lambda t, r: bsum(add(t, 1), lambda u: P(u, r))
        if pair:
            eqarr(I, ob, 'the linear map of the covariance' + ('' if fn == FG else ', summed over time'), x, (N, R), lambda t, r: Q(t, r))
        else:
            eqarr(I, ob, 'the linear map of the covariance' + ('' if fn == FG else ', summed over time'), x, (N,), lambda t: Q(t, ZERO))
        ob('noise untouched', const(not I.written))
    for fn, nm in ((FG, 'fgn'), (FB, 'fbm')):
        for method in ('cme', 'chol'):
            for pair in (True, False):
                for given in (True, False):
                    for step in (True, False):
                        if (fn == FB or not pair) and given != step:
                            continue
                        S.scenario(f'{nm}({"(N, R)" if pair else "N"}, {method}, {"given" if given else "drawn"} noise, {"dt" if step else "default step"})',
                                   lambda I, ob, fn=fn, method=method, pair=pair, given=given, step=step: run(I, ob, fn, method, pair, given, step))

    for h in (0, 1):
        S.scenario(f'fgn(integer H = {h})', lambda I, ob, h=h: run(I, ob, FG, 'cme', True, True, True, h))

    def refuse(I, ob, fn, hyps, method):
        I.pc += hyps
        try:
            I.call(I.get(fn), [PyList([Sc(N, 'int'), Sc(R, 'int')], 'tuple'), Sc(H, 'float')], {'method': method})
            ob('rejected', FALSE)
        except PyRaise as e:
            ob('rejected with a ValueError', const(e.etype == 'ValueError'))
    for fn, nm in ((FG, 'fgn'), (FB, 'fbm')):
        S.scenario(f'{nm}: H outside [0, 1]', lambda I, ob, fn=fn: refuse(I, ob, fn, [or_(lt(H, 0), lt(1, H))], 'cme'))
        S.scenario(f'{nm}: unknown method', lambda I, ob, fn=fn: refuse(I, ob, fn, [le(0, H), le(H, 1)], 'abc'))
