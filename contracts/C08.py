"""p-leaders are local l^p norms with the finite-resolution correction."""
from pyvc.spec import *
from .common import *
from .wt import *


def contract(S):
    math_facts(S, 'two_pow_neg_lt_one')
    prove_fast_power(S)
    S.functions |= {WMOD + f for f in ('_compute_leaders', '_find_sans_voisin', '_correct_leaders', '_estimate_eta_p')} | \
        {MRQ + '.add_values', 'pymultifracs.utils:fixednansum', 'pymultifracs.structurefunction:StructureFunction._compute',
         'pymultifracs.structurefunction:StructureFunction._compute_zeta'}
    S.assume('exact real arithmetic; infinite samples are outside the precondition')
    S.assume('preconditions: p > 0; j1 < effective upper scale, a valid coefficient at every scale, valid coefficients non-zero (otherwise eta(p) is undefined)')
    declare('PP', 'R', sign='+')
    for n in ('J1', 'J2', 'JL'):
        declare(n, 'I', lo=1)
    p, j1, j2, JL = var('PP'), var('J1'), var('J2'), var('JL')
    D = Dyadic(p, ap=OA, coef=ocoef)

    # ---- the uncorrected p-leaders, handed to the correction with the right parameters
    def run(I, ob, given=None, weighted=True):
        setup(I, True)
        I.contracts[FASTPOW] = fast_power_contract
        I.families.append(D)
        calls = []

        def correct(I_, args, kw):
            names = ['wt_coefs', 'wt_leaders', 'p_exp', 'j1', 'j2_eff', 'weighted', 'max_level']
            d = dict(zip(names, args))
            d.update(kw)
            if set(d) != set(names):
                return NotImplemented
            calls.append(d)
            return PyList([d['wt_leaders'], mk((R,), lambda ix: (FALSE, app('ETA', ix[0])), 'f')], 'tuple')
        I.contracts[CORRECT] = correct
        s = signal(I)
        res = I.call(I.get(WA), [s], {'p_exp': Sc(p, 'float'), 'wt_name': 'db3', 'j1': Sc(j1, 'int'), 'j2': Sc(j2, 'int') if given else None,
                                      'gamint': Sc(var('gam'), 'float'), 'normalization': Sc(var('norm'), 'float'), 'weighted': weighted})
        if len(calls) != 1:
            raise Unsupported('the correction is not a single call of _correct_leaders')
        d = calls[0]
        l, c = I.getattr(res, 'wt_leaders'), I.getattr(res, 'wt_coefs')
        ob('corrected leaders returned with their eta(p)', const(l is d['wt_leaders'] and c is d['wt_coefs']))
        eqarr(I, ob, 'eta(p) reported', I.getattr(res, 'eta_p'), (R,), lambda r: app('ETA', r))
        vals = I.force(I.getattr(l, 'values'))
        nl = dict_range(I, ob, vals)
        if nl is None:
            return
        if I.decide(le(nl, 0)):
            return
        g = lambda n: sc(I.force(d[n])).t
        ob('correction with the requested exponent, lower scale and weighting', and_(eq(g('p_exp'), p), eq(g('j1'), j1), const(I.force(d['weighted']) is weighted)))
        ob('correction of every scale', eq(g('max_level'), nl))
        ob('eta(p) fitted up to the effective upper scale', and_(eq(g('j2_eff'), sc(I.force(I.getattr(res, 'j2_eff'))).t),
                                                               eq(g('j2_eff'), ite(lt(j2, nl), j2, nl) if given else nl)))
        r, k = fresh('r', 'I', sign='0+'), fresh('k', 'I', sign='0+')
        for key, fn, hy in entries(I, vals):
            m0 = len(I.pc)
            I.pc += hy
            i = sub(key, 1)
            first = I.decide(eq(i, ZERO))
            lab = 'first scale: ' if first else 'coarser scales: '
            v = I.force(fn())
            ob(lab + 'positions', and_(eq(v.shape[0], sub(OA.len(key), 2)), eq(v.shape[1], R)))
            m, x = D.leader(i, k, r)
            x = power(mul(power(TWO, neg(key)), x), inv(p))
            hk = [lt(k, v.shape[0]), lt(r, v.shape[1])]
            mm, xx = v.at([k, r])
            ob(lab + 'missing exactly when every covered coefficient is', iff(m, mm), hk)
            ob(lab + 'uncorrected values', eq(xx, x), hk + [not_(m)])
            del I.pc[m0:]
        ob('signal untouched', const(not I.written))
    S.scenario('wavelet_analysis(p_exp=p)', run)
    S.scenario('wavelet_analysis(p_exp=p, j2 given, unweighted)', lambda I, ob: run(I, ob, True, False))

    # ---- eta(p)
    mc, ml = SymMRQ('c', R='Rn', sign='!'), SymMRQ('l', J='JL', R='Rn', sign='0+')
    EST = WMOD + '_estimate_eta_p'

    def est(I, ob, weighted):
        use(I, 'linreg')
        I.contracts[FASTPOW] = fast_power_contract
        I.pc += [lt(j1, j2), le(j2, mc.J)]
        c = mc.build(I, 'wavelet coef', label='coefficients')
        eta_p = I.call(I.get(EST), [c, Sc(p, 'float'), Sc(j1, 'int'), Sc(j2, 'int'), weighted], {})
        Sq = lambda j, r: Smean(mc, j, r, lambda x: power(abs_(x), p))
        eqarr(I, ob, 'eta(p) = zeta(p) of the coefficients over j1..j2', eta_p, (R,),
              lambda r: reg_scales(mc, j1, j2, weighted, lambda j, r: log2(Sq(j, r)), r)[0])
        ob('coefficients untouched', const(not I.written))
    for weighted in (True, False):
        S.scenario(f'_estimate_eta_p(weighted={weighted})', lambda I, ob, weighted=weighted: est(I, ob, weighted))

    # ---- the correction, for any eta(p)
    def corr(I, ob, weighted):
        calls = []

        def eta_contract(I_, args, kw):
            names = ['wt_coefs', 'p_exp', 'j1', 'j2_eff', 'weighted']
            d = dict(zip(names, args))
            d.update(kw)
            if set(d) != set(names):
                return NotImplemented
            calls.append(d)
            return mk((R,), lambda ix: (FALSE, app('ETA', ix[0])), 'f')
        I.contracts[EST] = eta_contract
        I.mutable = 'leaders'        # they are the transform's own, corrected in place
        eta = lambda r: app('ETA', r)
        I.pc += [lt(j1, j2), le(j2, ml.J), le(ml.J, mc.J)]
        c, l = mc.build(I, 'wavelet coef', label='coefficients'), ml.build(I, 'wavelet p-leader', label='leaders')
        out = I.call(I.get(CORRECT), [c, l, Sc(p, 'float'), Sc(j1, 'int'), Sc(j2, 'int'), weighted, Sc(ml.J, 'int')], {})
        if len(calls) != 1:
            raise Unsupported('eta(p) is not a single call of _estimate_eta_p')
        d = calls[0]
        g = lambda n: sc(I.force(d[n])).t
        ob('eta(p) of the coefficients with the requested parameters', and_(const(d['wt_coefs'] is c), eq(g('p_exp'), p), eq(g('j1'), j1), eq(g('j2_eff'), j2),
                                                                         const(I.force(d['weighted']) is weighted)))
        if not (isinstance(out, PyList) and len(out.items) == 2):
            ob('leaders and eta(p) returned', FALSE)
            return
        l2, eta_p = out.items
        eqarr(I, ob, 'eta(p) returned', eta_p, (R,), eta)
        warned = any(e[0] == 'warn' for e in I.effects)
        ob('warning exactly when some eta(p) is not positive', iff(const(warned), bany(R, lambda r: le(eta(r), 0))))
        vals = I.force(I.getattr(l2, 'values'))
        n = dict_range(I, ob, vals)
        if n is None:
            return
        ob('same scales', eq(n, ml.J))
        r, k = fresh('r', 'I', sign='0+'), fresh('k', 'I', sign='0+')
        for key, fn, hy in entries(I, vals):
            v = I.force(fn())
            ob('positions', and_(eq(v.shape[0], ml.L(key)), eq(v.shape[1], R)), hy)
            mm, xx = v.at([k, r])
            x = ml.X(key, k, r)
            e = eta(r)
            facts = []
            if not warned:
                u, w = power(TWO, neg(mul(key, e))), power(TWO, neg(e))
                facts = [lt(0, e), implies(lt(0, e), and_(lt(u, 1), lt(w, 1)))]
                ob('eta(p) is positive here', lt(0, e), hy + [lt(r, R)])
                # ((1 - 2**(-j eta)) / (1 - 2**(-eta)))**(-1/p), both factors positive
                x = mul(x, exp(mul(neg(inv(p)), sub(ln(sub(1, u)), ln(sub(1, w))))))
            hk = facts + hy + [lt(k, v.shape[0]), lt(r, v.shape[1])]
            ob('missing where the leaders are', iff(mm, ml.M(key, k, r)), hk)
            ob('uncorrected' if warned else 'corrected', eq(xx, x), hk + [ml.V(key, k, r)])
        ob('coefficients untouched', const(not any(str(o).startswith('coefficients') for o in I.written)))
    for weighted in (True, False):
        S.scenario(f'_correct_leaders(weighted={weighted})', lambda I, ob, weighted=weighted: corr(I, ob, weighted))
