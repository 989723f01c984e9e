"""Multifractal random walks follow their construction."""
from pyvc.spec import *
from .common import *
from .sim import *
from .C19 import fgn_cov

MR, MC, GW, FG = 'pymultifracs.simul.mrw:mrw', 'pymultifracs.simul.mrw:mrw_cumul', 'pymultifracs.simul.mrw:gaussian_w', 'pymultifracs.simul.fbm:fgn'


def contract(S):
    declare_sim()
    facts(S)
    S.functions |= {MR, MC, GW, FG, CME, CHOL}
    S.assume('the integral scale is at least 1; with lam = 0 the factorisation method has no positive definite matrix and raises')
    declare('lam', 'R')
    declare('L', 'R', sign='+')
    declare('Li', 'I', lo=1)
    declare('c1', 'R')
    declare('mc2', 'R', sign='0+')        # -c2
    C2 = neg(var('mc2'))
    N, R, H, sg, lam, L = (var(x) for x in ('N', 'R', 'H', 'sigma', 'lam', 'L'))

    def wcov(lam, L):
        """lam**2 log(L / (k + 1)) while k + 1 <= L"""
        return lambda k: ite(le(add(k, 1), L), mul(lam, lam, ln(div(L, add(k, 1)))), ZERO)

    def run(I, ob, method, pair, given, kind='float', lam0=False, cumul=False):
        Ls = L if kind == 'float' else var('Li')
        l_, H_ = (ZERO if lam0 else lam), H
        if cumul:
            H_, l_ = add(var('c1'), C2), power(neg(C2), Fr(1, 2))
        I.pc += [le(0, H_), le(H_, 1), le(Ls, N), le(1, Ls)]
        Rr = R if pair else ONE
        ze, zw = noise(I, method, Rr, 'ze', given), noise(I, method, Rr, 'zw', given)
        kw = {'sigma': Sc(sg, 'float'), 'method': method}
        if given:
            kw['z0'] = PyList([ze, zw], 'tuple')
        shape = PyList([Sc(N, 'int'), Sc(R, 'int')], 'tuple') if pair else Sc(N, 'int')
        if cumul:
            x = I.call(I.get(MC), [shape, Sc(var('c1'), 'float'), Sc(C2, 'float'), Sc(Ls, kind)], kw)
            l2 = neg(C2)
        else:
            x = I.call(I.get(MR), [shape, Sc(H, 'float'), 0 if lam0 else Sc(lam, 'float'), Sc(Ls, kind)], kw)
            l2 = mul(l_, l_)
        draws = getattr(I, 'draws', [])
        per = 2 if method == 'cme' else 1
        cw = lambda k: ite(le(add(k, 1), Ls), mul(l2, ln(div(Ls, add(k, 1)))), ZERO)
        ce = fgn_cov(H_, sg, inv(N))
        if given:
            ob('no other randomness', const(not draws))
            groups = [(None, None)]
        else:
            ob('number of noise matrices drawn', const(len(draws) == 2 * per))
            if len(draws) != 2 * per:
                return
            M = sub(mul(2, N), 2) if method == 'cme' else N
            for d in draws:
                ob('noise drawn: one number per sample and realisation', and_(eq(d[1][0], M), eq(d[1][1], Rr)) if len(d[1]) == 2 else FALSE)
            groups = [(draws[per:], draws[:per]), (draws[:per], draws[per:])]
        chs = getattr(I, 'chol', [])
        ch_e = ch_w = None
        if method == 'chol':
            ob('two factorisations', const(len(chs) == 2))
            if len(chs) != 2:
                return
            k = fresh('k', 'I', sign='0+')
            ise = lambda ch: I.entails(implies(lt(k, N), eq(ch[2]((k,))[1], ce(k))))
            ch_w, ch_e = (chs[1], chs[0]) if ise(chs[0]) else (chs[0], chs[1])
            chol_ob(I, ob, 'log-volatility: ', ch_w, N, cw)
            chol_ob(I, ob, 'noise: ', ch_e, N, ce)
        goals = []
        for de, dw in groups:
            e = process(I, method, N, ce, znoise(I, method, 'ze', given, de), ch_e)
            w0 = process(I, method, N, cw, znoise(I, method, 'zw', given, dw), ch_w)
            w = lambda u, r, w0=w0: sub(sub(w0(u, r), div(bsum(N, lambda v: w0(v, r)), N)), mul(l2, div(ONE, TWO), ln(Ls)))
            goals.append(lambda t, r, e=e, w=w: bsum(add(t, 1), lambda u: mul(e(u, r), exp(w(u, r)))))
        x = I.force(x)
        if lam0:
            goals = [(lambda t, r, e=process(I, method, N, ce, znoise(I, method, 'ze', given, de), ch_e): bsum(add(t, 1), lambda u: e(u, r))) for de, dw in groups]
        if len(goals) > 1:
            k, r = fresh('k', 'I', sign='0+'), fresh('r', 'I', sign='0+')
            v = x.at([k, r] if pair else [k])[1]
            goals.sort(key=lambda g: not I.entails(eq(v, g(k, r if pair else ZERO))))
        g = goals[0]
        lab = 'fractional Brownian motion' if lam0 else 'sum over time of noise times exp(log-volatility centred and shifted)'
        eqarr(I, ob, lab, x, (N, R) if pair else (N,), g if pair else lambda t: g(t, ZERO))
        ob('noise untouched', const(not I.written))
    for method in ('cme', 'chol'):
        for pair, given in ((True, True), (True, False), (False, True)):
            S.scenario(f'mrw({"(N, R)" if pair else "N"}, {method}, {"given" if given else "drawn"} noise)',
                       lambda I, ob, method=method, pair=pair, given=given: run(I, ob, method, pair, given))
        S.scenario(f'mrw({method}, integer L)', lambda I, ob, method=method: run(I, ob, method, True, True, 'int'))
        S.scenario(f'mrw_cumul({method})', lambda I, ob, method=method: run(I, ob, method, True, True, 'float', False, True))
    S.scenario('mrw(cme, lam = 0)', lambda I, ob: run(I, ob, 'cme', True, True, 'float', True))

    def refuse(I, ob, hyps, method, cumul=False):
        I.pc += hyps
        a = [PyList([Sc(N, 'int'), Sc(R, 'int')], 'tuple')] + ([Sc(var('c1'), 'float'), Sc(C2, 'float')] if cumul else [Sc(H, 'float'), Sc(lam, 'float')]) + [Sc(L, 'float')]
        try:
            I.call(I.get(MC if cumul else MR), a, {'method': method})
            ob('rejected', FALSE)
        except PyRaise as e:
            ob('rejected with a ValueError', const(e.etype == 'ValueError'))
    ok = [le(0, H), le(H, 1)]
    S.scenario('mrw: H outside [0, 1]', lambda I, ob: refuse(I, ob, [or_(lt(H, 0), lt(1, H))], 'cme'))
    S.scenario('mrw: integral scale above the length', lambda I, ob: refuse(I, ob, ok + [lt(N, L)], 'cme'))
    S.scenario('mrw: unknown method', lambda I, ob: refuse(I, ob, ok + [le(L, N)], 'abc'))
    h = add(var('c1'), C2)
    S.scenario('mrw_cumul: c1 + c2 outside [0, 1]', lambda I, ob: refuse(I, ob, [or_(lt(h, 0), lt(1, h))], 'cme', True))
    S.scenario('mrw_cumul: integral scale above the length', lambda I, ob: refuse(I, ob, [le(0, h), le(h, 1), lt(N, L)], 'cme', True))
