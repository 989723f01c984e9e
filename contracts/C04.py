"""MultifractalSpectrum: U, V, h(q), D(q)."""
from pyvc.spec import *
from .common import *

CLS = 'pymultifracs.mfspectrum:MultifractalSpectrum'


def contract(S):
    S.functions |= {CLS + m for m in ('.__post_init__', '._compute')} | {'pymultifracs.utils:fixednansum', MRQ + 'Base.get_nj_interv'}
    S.assume('exact real arithmetic; coefficients are finite')
    S.assume('preconditions: 1 <= j1 < j2 <= number of scales; every scale and realisation has a valid coefficient; valid coefficients are non-zero')
    m = SymMRQ(sign='!')
    declare('Q', 'I', lo=1)
    declare('q', 'R', 1)
    declare('j1', 'I', lo=1)
    declare('j2', 'I', lo=1)
    Q, j1, j2 = var('Q'), var('j1'), var('j2')
    q = lambda i: app('q', i)

    def cases():
        yield from rtcases('C04', 'Spec', 300)

    def interp(c):
        if not small(c['vals']):
            return None
        v, f = m.env(c['vals'])
        v.update({'Q': len(c['q']), 'j1': c['j1'], 'j2': c['j2']})
        f['q'] = lambda i: float(c['q'][i]) if i < len(c['q']) else 0.5
        return Env(v, f)

    def wsum(j, r, f):
        return bsum(m.L(j), lambda k: mul(ind(m.V(j, k, r)), f(m.X(j, k, r))))

    def V(qq, j, r):
        return div(wsum(j, r, lambda x: mul(absq(x, qq), log2(x))), wsum(j, r, lambda x: absq(x, qq)))

    def U(qq, j, r):
        tot = wsum(j, r, lambda x: absq(x, qq))
        R = lambda x: div(absq(x, qq), tot)
        return add(log2(m.cnt(j, r)), wsum(j, r, lambda x: mul(R(x), log2(R(x)))))

    prove_fast_power(S)
    for weighted in (True, False):
        def run(I, ob, weighted=weighted):
            use(I, 'linreg')
            I.contracts[FASTPOW] = fast_power_contract
            I.pc += [lt(j1, j2), le(j2, m.J)]
            mrq = m.build(I)
            qa = A((Q,), lambda i: q(i), I=I, label='q')
            s = I.call(I.get(CLS), [mrq], {'q': qa, 'j1': Sc(j1, 'int'), 'j2': Sc(j2, 'int'), 'weighted': weighted})
            T = lambda n: I.getattr(s, n)
            eqarr(I, ob, 'V(j,q)', T('V'), (m.J, Q, m.R), lambda j, i, r: V(q(i), add(j, 1), r))
            eqarr(I, ob, 'U(j,q)', T('U'), (m.J, Q, m.R), lambda j, i, r: U(q(i), add(j, 1), r))
            hq = lambda i, r: reg_scales(m, j1, j2, weighted, lambda jj, rr: V(q(i), jj, rr), r)[0]
            Dq = lambda i, r: add(1, reg_scales(m, j1, j2, weighted, lambda jj, rr: U(q(i), jj, rr), r)[0])
            eqarr(I, ob, 'h(q)', T('hq'), (Q, m.R), hq)
            eqarr(I, ob, 'D(q)', T('Dq'), (Q, m.R), Dq)
            i, r = fresh('i', 'I', sign='0+'), fresh('r', 'I', sign='0+')
            n, v = T('Dq').at([i, r])
            ob('D(0) = 1', eq(subst(v, {}, amap={'q': lambda k: ZERO}), ONE), [lt(i, Q), lt(r, m.R)])
            eqarr(I, ob, 'j', T('j'), (m.J,), lambda k: add(k, 1))
            ob('nrep', eq(sc(T('nrep')).t, m.R))
            ob('inputs untouched', const(not I.written))
        S.scenario(f'MultifractalSpectrum(weighted={weighted})', run, cases, interp)
