"""Wavelet leaders are local suprema over the dyadic neighbourhood."""
from pyvc.spec import *
from .common import *
from .wt import *


def contract(S):
    math_facts(S)
    S.functions |= {WMOD + '_compute_leaders', WMOD + '_find_sans_voisin', 'pymultifracs.utils:fixednanmax', MRQ + '.add_values'}
    S.assume('exact real arithmetic; infinite samples are outside the precondition')
    D = Dyadic(ap=OA, coef=ocoef)

    def run(I, ob):
        setup(I, True)
        I.families.append(D)
        s = signal(I)
        res = I.call(I.get(WA), [s], {'p_exp': math.inf, 'wt_name': 'db3', 'j2': None, 'gamint': Sc(var('gam'), 'float'),
                                      'normalization': Sc(var('norm'), 'float')})
        c = I.getattr(res, 'wt_leaders')
        vals, nj = I.force(I.getattr(c, 'values')), I.force(I.getattr(c, 'nj'))
        ob('scales are one range from 1', const(len(vals.segs) == len(nj.segs) <= 1 and not vals.items and not nj.items))
        if not vals.segs:
            return
        lo_, n, fn, _ = vals.segs[0]
        ob('first scale is 1', eq(lo_, ONE))
        o = fresh('o', 'I', sign='0+')
        hy = [lt(o, n)]
        I.pc += hy
        lab = 'first scale' if I.decide(eq(o, ZERO)) else 'coarser scales'
        v = I.force(fn(o))
        k, r = fresh('k', 'I', sign='0+'), fresh('r', 'I', sign='0+')
        ob(f'{lab}: positions', and_(eq(v.shape[0], sub(OA.len(add(o, 1)), 2)), eq(v.shape[1], R)))
        m, x = D.leader(o, k, r)
        hk = [lt(k, v.shape[0]), lt(r, v.shape[1])]
        mm, xx = v.at([k, r])
        ob(f'{lab}: missing exactly when every covered coefficient is', iff(m, mm), hk)
        ob(f'{lab}: values', eq(xx, x), hk + [not_(m)])
        w = I.force(nj.segs[0][2](o))
        ob('leader counts', eq(w.at([r])[1], bsum(v.shape[0], lambda k: ind(not_(v.at([k, r])[0])))), hy + [lt(r, w.shape[0])])
        ob('signal untouched', const(not I.written))
    S.scenario('wavelet_analysis(p_exp=inf)', run)

    def lemma(I, ob):
        # x / 2**d real: the dyadic interval k at one scale is the union of the intervals 2 k and 2 k + 1 one scale finer
        declare('dyx', 'R', sign='0+')
        x, k = var('dyx'), fresh('k', 'I', sign='0+')
        ob('halving: floor(x / 2) = k exactly when floor(x) is 2 k or 2 k + 1',
           iff(eq(floor(div(x, TWO)), k), or_(eq(floor(x), mul(2, k)), eq(floor(x), add(mul(2, k), 1)))))
    S.scenario('dyadic intervals', lemma)
