"""Cumulants: C_m(j), log-cumulants, accessors."""
from pyvc.spec import *
from .common import *

CLS = 'pymultifracs.cumulants:Cumulants'


def contract(S):
    S.functions |= {CLS + m for m in ('.__post_init__', '._compute', '._compute_log_cumulants', '.__getattr__')} | {MRQ + 'Base.get_nj_interv'}
    S.assume('exact real arithmetic; coefficients are finite')
    S.assume('preconditions: 1 <= j1 < j2 <= number of scales; every scale and realisation has a valid coefficient; valid coefficients are non-zero')
    m = SymMRQ(sign='!')
    declare('j1', 'I', lo=1)
    declare('j2', 'I', lo=1)
    j1, j2 = var('j1'), var('j2')
    top = 5 if S.tier == 'quick' else 9
    S.assume(f'bounded parameter: number of cumulants n_cumul in 1..{top} (each order proved for all data, scales and realisations)')

    def cases():
        yield from rtcases('C03', 'Cum', 300)

    def interp(c):
        if not small(c['vals']):
            return None
        v, f = m.env(c['vals'])
        v.update({'j1': c['j1'], 'j2': c['j2']})
        return Env(v, f)

    def C(mm, j, r):
        return cumulant_of(mm, lambda s: Smean(m, j, r, lambda x: power(ln(x), s)))

    LOG2E = div(ONE, LN2)
    for n_cumul in range(1, top + 1):
        for weighted in (True, False):
            def run(I, ob, n_cumul=n_cumul, weighted=weighted):
                use(I, 'linreg')
                I.pc += [lt(j1, j2), le(j2, m.J)]
                mrq = m.build(I)
                c = I.call(I.get(CLS), [mrq, n_cumul, Sc(j1, 'int'), Sc(j2, 'int'), weighted], {})
                T = lambda n: I.getattr(c, n)
                vals, logc, vlc = T('values'), T('log_cumulants'), T('var_log_cumulants')
                ob('shape of C_m(j)', and_(*[eq(a, b) for a, b in zip(vals.shape, (const(n_cumul), m.J, m.R))]) if vals.ndim == 3 else FALSE)
                ob('shape of the log-cumulants', and_(*[eq(a, b) for a, b in zip(logc.shape, (const(n_cumul), m.R))]) if logc.ndim == 2 else FALSE)
                j, r = fresh('j', 'I', sign='0+'), fresh('r', 'I', sign='0+')
                hy = [lt(j, m.J), lt(r, m.R)]
                for mm in range(1, n_cumul + 1):
                    n, v = vals.at([const(mm - 1), j, r])
                    ob(f'C_{mm}(j)', and_(not_(n), eq(v, C(mm, add(j, 1), r))), hy)
                    n, v = logc.at([const(mm - 1), r])
                    sl = reg_scales(m, j1, j2, weighted, lambda jj, rr: C(mm, jj, rr), r)
                    ob(f'c_{mm} is log2(e) times the slope', and_(not_(n), eq(v, mul(LOG2E, sl[0]))), hy)
                    a = T(f'c{mm}')
                    b = T(f'C{mm}')
                    for o, s, nm in ((a, lambda: (not_(FALSE), mul(LOG2E, sl[0])), f'accessor c{mm}'), (b, None, f'accessor C{mm}')):
                        o = I.force(o)
                        if nm.startswith('accessor c'):
                            ix = [ZERO] * (o.ndim - 1) + [r]
                            ob(nm + ': one row', and_(*[eq(s_, ONE) for s_ in o.shape[:-1]], eq(o.shape[-1], m.R)))
                            n, v = o.at(ix)
                            ob(nm, and_(not_(n), eq(v, mul(LOG2E, sl[0]))), hy)
                        else:
                            ix = [ZERO] * (o.ndim - 2) + [j, r]
                            ob(nm + ': one table', and_(*[eq(s_, ONE) for s_ in o.shape[:-2]], eq(o.shape[-2], m.J), eq(o.shape[-1], m.R)))
                            n, v = o.at(ix)
                            ob(nm, and_(not_(n), eq(v, C(mm, add(j, 1), r))), hy)
                if n_cumul >= 2:
                    M = I.force(T('M'))
                    n, v = M.at([ZERO] * (M.ndim - 1) + [r])
                    sl = reg_scales(m, j1, j2, weighted, lambda jj, rr: C(2, jj, rr), r)
                    ob('accessor M is -c2', and_(not_(n), eq(v, neg(mul(LOG2E, sl[0])))), hy)
                eqarr(I, ob, 'm', T('m'), (const(n_cumul),), lambda i: add(i, 1))
                eqarr(I, ob, 'j', T('j'), (m.J,), lambda i: add(i, 1))
                ob('nrep', eq(sc(T('nrep')).t, m.R))
                ob('inputs untouched', const(not I.written))
            S.scenario(f'Cumulants(n_cumul={n_cumul}, weighted={weighted})', run, cases, interp)
