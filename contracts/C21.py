"""Bivariate structure functions and cumulants."""
from pyvc.spec import *
from .common import *

SF = 'pymultifracs.bivariate.bivariate_structurefunction:BiStructureFunction'
CU = 'pymultifracs.bivariate.bivariate_cumulants:BiCumulants'
BA = 'pymultifracs.bivariate.bimfa:bivariate_analysis'
WT = 'pymultifracs.wavelet:WaveletTransform'


def contract(S):
    S.functions |= {SF + m for m in ('.__post_init__', '._compute', '._compute_zeta')} | {BA, MRQ + 'Base.get_nj_interv', MRQ + '.from_dict'}
    S.functions |= {CU + m for m in ('.__post_init__', '._compute', '._compute_log_cumulants', '._compute_rho', '.__getattr__')}
    S.assume('exact real arithmetic; coefficients are finite')
    S.assume('preconditions: one realisation, the same valid positions in both quantities, every scale has a valid coefficient, valid coefficients '
             'are non-zero; 1 <= j1 < j2; each exponent vector holds 0, 1 and 2 exactly once (the coherence field reads them); c02*c20 > 0')
    top = 5
    S.assume(f'bounded parameter: number of cumulants n_cumul in 2..{top} (each proved for all data and scales)')
    a, b = SymMRQ('a', R=1, sign='!'), None
    b = SymMRQ('b', R=1, sign='!', share=a)
    la = SymMRQ('la', R=1, sign='!')
    lb = SymMRQ('lb', R=1, sign='!', share=la)
    for nm in ('j1', 'e1', 'e2', 'Q1', 'Q2', 'i10', 'i11', 'i12', 'i20', 'i21', 'i22'):
        declare(nm, 'I', lo=0 if nm[0] == 'i' else 1)
    declare('q1', 'R', 1)
    declare('q2', 'R', 1)
    declare('g', 'R')
    j1, e1, e2, Q1, Q2 = map(var, ('j1', 'e1', 'e2', 'Q1', 'Q2'))
    q1, q2 = (lambda i: app('q1', i)), (lambda i: app('q2', i))

    def cases():
        yield from rtcases('C21', 'Bivariate', 150)

    def interp(c):
        if not small(c['v1'], 30):
            return None
        V, F = {}, {}
        for m, w, f in ((a, c['v1'], 1), (b, c['v2'], 1), (la, c['v1'], 1.5), (lb, c['v2'], 1.5)):
            v, fn = m.env({j: (np.abs(x) * f if f != 1 else x) for j, x in w.items()})
            V.update(v)
            F.update(fn)
        V.update({'j1': c['j1'], 'e1': c['e1'], 'e2': c['e2'], 'Q1': len(c['q1']), 'Q2': len(c['q2']), 'g': 0.0})
        for t, q in (('1', c['q1']), ('2', c['q2'])):
            for x in (0, 1, 2):
                V[f'i{t}{x}'] = int(np.nonzero(np.asarray(q) == x)[0][0])
            F['q' + t] = lambda i, q=q: float(q[i]) if i < len(q) else 0.5
        return Env(V, F)

    def mean(m, j, f):
        return div(bsum(m.L(j), lambda k: mul(ind(m.V(j, k, 0)), f(k))), m.cnt(j, 0))

    def joint(m, n, j, u, v):
        return mean(m, j, lambda k: mul(absq(m.X(j, k, 0), u), absq(n.X(j, k, 0), v)))

    def LS(m, n, j, u, v):
        return log2(joint(m, n, j, u, v))

    def C(m, n, j, s, t):
        l1 = lambda k: ln(abs_(m.X(j, k, 0)))
        l2 = lambda k: ln(abs_(n.X(j, k, 0)))
        if (s, t) == (1, 1):
            return sub(mean(m, j, lambda k: mul(l1(k), l2(k))), mul(mean(m, j, l1), mean(m, j, l2)))
        return cumulant_of(s or t, lambda o: mean(m, j, lambda k: power(l1(k) if s else l2(k), o)))

    LOG2E = div(ONE, LN2)

    def pre(I, m, j2):
        I.pc += [lt(j1, e1), lt(j1, e2), le(e1, m.J), le(e2, m.J)]
        for t, Q, q in (('1', Q1, q1), ('2', Q2, q2)):
            for x in (0, 1, 2):
                i = var(f'i{t}{x}')
                I.pc += [lt(i, Q), eq(q(i), x), ball(Q, lambda k: or_(eq(k, i), ne(q(k), x)))]

    def reg(m, weighted, y, j2):
        return reg_scales(m, j1, j2, weighted, lambda jj, r: y(jj), ZERO)

    def vec(I, t):
        Q, q = (Q1, q1) if t == '1' else (Q2, q2)
        return A((Q,), lambda i: q(i), I=I, label='q' + t)

    def check_sf(I, ob, s, m, n, weighted, j2, swap=False, lab=''):
        T = lambda x: I.getattr(s, x)
        A1, A2 = (Q1, Q2) if not swap else (Q2, Q1)
        y = (lambda i, k: (lambda jj: LS(m, n, jj, q1(i), q2(k)))) if not swap else (lambda i, k: (lambda jj: LS(m, n, jj, q1(k), q2(i))))
        eqarr(I, ob, lab + 'log2 joint structure function', T('logvalues'), (A1, A2, m.J), lambda i, k, o: y(i, k)(add(o, 1)))
        eqarr(I, ob, lab + 'joint exponents', T('zeta'), (A1, A2), lambda i, k: reg(m, weighted, y(i, k), j2)[0])
        eqarr(I, ob, lab + 'joint intercepts', T('intercept'), (A1, A2), lambda i, k: reg(m, weighted, y(i, k), j2)[1])
        eqarr(I, ob, lab + 'j', T('j'), (m.J,), lambda i: add(i, 1))

    def check_cu(I, ob, c, m, n, weighted, j2, M, formalism, swap=False, lab=''):
        T = lambda x: I.getattr(c, x)
        vals, lc, sl, ic = (I.force(T(x)) for x in ('values', 'log_cumulants', 'slope', 'intercept'))
        ob(lab + 'table shapes', and_(*[eq(x, y) for x, y in zip(vals.shape, (const(M + 1), const(M + 1), m.J))],
                                      *[eq(x, const(M + 1)) for z in (lc, sl, ic) for x in z.shape]) if vals.ndim == 3 and lc.ndim == 2 else FALSE)
        o = fresh('j', 'I', sign='0+')
        hy = [lt(o, m.J)]
        orders = [(1, 1)] + [(s, 0) for s in range(1, M + 1)] + [(0, s) for s in range(1, M + 1)]
        lcs = {}
        for s, t in orders:
            y = (lambda jj, s=s, t=t: C(m, n, jj, s, t)) if not swap else (lambda jj, s=s, t=t: C(m, n, jj, t, s))
            nn, v = vals.at([const(s), const(t), o])
            ob(f'{lab}C{s}{t}(j)', and_(not_(nn), eq(v, y(add(o, 1)))), hy)
            ab = reg(m, weighted, y, j2)
            lcs[s, t] = mul(LOG2E, ab[0])
            for z, x, w in ((lc, 'log-cumulant c', lcs[s, t]), (sl, 'slope ', ab[0]), (ic, 'intercept ', ab[1])):
                nn, v = z.at([const(s), const(t)])
                ob(f'{lab}{x}{s}{t}', and_(not_(nn), eq(v, w)))
            if not swap:
                acc = I.force(T(f'c{s}{t}'))
                ob(f'{lab}accessor c{s}{t}', and_(eq(NP.size(acc), ONE), eq(acc.at([ZERO] * acc.ndim)[1], lcs[s, t])))
                acc = I.force(T(f'C{s}{t}'))
                ob(f'{lab}accessor C{s}{t}', and_(eq(acc.shape[-1], m.J), eq(acc.at([ZERO] * (acc.ndim - 1) + [o])[1], y(add(o, 1)))), hy)
        rho = I.force(T('rho_mf'))
        if formalism == 'wavelet coef':
            ob(lab + 'no multifractal correlation for coefficients', const(rho is None))
        else:
            ok = isinstance(rho, Arr) or isnum(rho)
            ob(lab + 'multifractal correlation present', const(ok))
            if ok:
                nn, v = (rho.at([ZERO] * rho.ndim)) if isinstance(rho, Arr) else (sc(rho).nan, sc(rho).t)
                den = abs_(NP.npsqrt(mul(lc.at([ZERO, TWO])[1], lc.at([TWO, ZERO])[1])))
                ob(lab + 'multifractal correlation -c11/|sqrt(c02 c20)|', eq(v, div(neg(lc.at([ONE, ONE])[1]), den)))

    def wt(I, x, lx, e):
        m1 = x.build(I, 'wavelet coef', Sc(var('g'), 'float'), label='coefs ' + x.tag)
        m2 = lx.build(I, 'wavelet leader', Sc(var('g'), 'float'), label='leaders ' + lx.tag) if lx else None
        return I.call(I.get(WT), [m1, m2, Sc(e, 'int'), None], {})

    # constructors on their own
    combos = [(M, fm, w) for w in (True, False) for M in range(2, top + 1) for fm in ('wavelet coef', 'wavelet leader', 'wavelet p-leader')]
    if S.tier == 'quick':
        combos = [(2, 'wavelet coef', True), (4, 'wavelet leader', True), (5, 'wavelet p-leader', False)]
    for weighted in (True, False):
        def run(I, ob, weighted=weighted):
            use(I, 'linreg')
            I.contracts[FASTPOW] = fast_power_weak
            pre(I, a, e1)
            m1, m2 = a.build(I, label='mrq1'), b.build(I, label='mrq2')
            s = I.call(I.get(SF), [m1, m2, Sc(j1, 'int'), Sc(e1, 'int'), vec(I, '1'), vec(I, '2'), weighted], {})
            check_sf(I, ob, s, a, b, weighted, e1)
            s2 = I.call(I.get(SF), [m2, m1, Sc(j1, 'int'), Sc(e1, 'int'), vec(I, '2'), vec(I, '1'), weighted], {})
            check_sf(I, ob, s2, a, b, weighted, e1, swap=True, lab='quantities exchanged: ')
            ob('inputs untouched', const(not I.written))
        S.scenario(f'BiStructureFunction(weighted={weighted})', run, cases, interp)
    for M, formalism, weighted in combos:
        def run(I, ob, weighted=weighted, M=M, formalism=formalism):
            use(I, 'linreg')
            pre(I, a, e1)
            m1, m2 = a.build(I, formalism, label='mrq1'), b.build(I, formalism, label='mrq2')
            c = I.call(I.get(CU), [m1, m2, M, Sc(j1, 'int'), Sc(e1, 'int'), weighted], {})
            check_cu(I, ob, c, a, b, weighted, e1, M, formalism)
            c2 = I.call(I.get(CU), [m2, m1, M, Sc(j1, 'int'), Sc(e1, 'int'), weighted], {})
            check_cu(I, ob, c2, a, b, weighted, e1, M, formalism, swap=True, lab='quantities exchanged: ')
            ob('inputs untouched', const(not I.written))
        S.scenario(f'BiCumulants({formalism}, n_cumul={M}, weighted={weighted})', run, cases, interp)
    # the whole analysis
    for weighted, lead in ((True, 'both'), (False, 'first'), (False, 'second'), (True, 'none'))[:2 if S.tier == 'quick' else 4]:
        def run(I, ob, weighted=weighted, lead=lead):
            use(I, 'linreg')
            I.contracts[FASTPOW] = fast_power_weak
            pre(I, a, None)
            I.pc += [le(e1, la.J), le(e2, la.J)]
            w1 = wt(I, a, la if lead in ('both', 'first') else None, e1)
            w2 = wt(I, b, lb if lead in ('both', 'second') else None, e2)
            d = I.call(I.get(BA), [w1, w2, Sc(j1, 'int'), weighted, 2, vec(I, '1'), vec(I, '2')], {})
            j2 = ite(le(e1, e2), e1, e2)
            D, L = I.getattr(d, 'dwt'), I.getattr(d, 'lwt')
            check_sf(I, ob, I.getattr(D, 'structure'), a, b, weighted, j2, lab='coefficients: ')
            check_cu(I, ob, I.getattr(D, 'cumulants'), a, b, weighted, j2, 2, 'wavelet coef', lab='coefficients: ')
            ob('leader analysis present exactly when both inputs have leaders', const((L is None) == (lead != 'both')))
            if L is not None:
                check_sf(I, ob, I.getattr(L, 'structure'), la, lb, weighted, j2, lab='leaders: ')
                check_cu(I, ob, I.getattr(L, 'cumulants'), la, lb, weighted, j2, 2, 'wavelet leader', lab='leaders: ')
            ob('inputs untouched', const(not I.written))
        S.scenario(f'bivariate_analysis(leaders in {lead}, weighted={weighted})', run, cases, interp)
