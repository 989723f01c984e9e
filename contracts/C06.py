"""Wavelet coefficients equal the decimated filter bank of the signal."""
from pyvc.spec import *
from .common import *
from .wt import *


def coefs_check(I, ob, res, R=R, opaque=False):
    c = I.getattr(res, 'wt_coefs')
    vals, nj = I.force(I.getattr(c, 'values')), I.force(I.getattr(c, 'nj'))
    ap = OA if opaque else AP
    if dict_range(I, ob, vals, 'coefficients: ') is None:
        return
    m1 = len(I.pc)
    for key, val, hy in entries(I, vals):
        I.pc += hy
        i = sub(key, 1)
        v = I.force(val())
        k, r = fresh('k', 'I', sign='0+'), fresh('r', 'I', sign='0+')
        ob('positions', and_(eq(v.shape[0], ap.len(add(i, 1))), eq(v.shape[1], R)))
        m, x = (ocoef if opaque else coef)(i, k, r)
        hk = [lt(k, v.shape[0]), lt(r, v.shape[1])]
        mm, xx = v.at([k, r])
        ob('missing exactly at the borders and next to missing samples', iff(m, mm), hk)
        ob('values', eq(xx, x), hk + [not_(m)])
        w = I.force(I.dget(nj, Sc(key, 'int')))
        ob('coefficient counts', eq(w.at([r])[1], bsum(v.shape[0], lambda k: ind(not_(v.at([k, r])[0])))), [lt(r, w.shape[0])])
        ob('one count per realisation', eq(w.shape[0], R))
        del I.pc[m1:]


def contract(S):
    math_facts(S)
    declare('J2', 'I')
    S.functions |= {WMOD + '_wavelet_coef_analysis', MRQ + '.add_values', LEADERS, CORRECT}
    S.assume('exact real arithmetic; infinite samples are outside the precondition')

    for form, p, dim in (('none', lambda: None, 2), ('none, one-dimensional signal', lambda: None, 1), ('inf', lambda: math.inf, 2),
                         ('finite p', lambda: Sc(var('pexp'), 'float'), 2)):
        for j2 in (None, 'given') if form == 'none' else (None,):
            def run(I, ob, p=p, dim=dim, j2=j2):
                full = p() is None
                Rd = R if dim == 2 else ONE
                setup(I, not full, Rd)
                if not full:
                    opaque_leaders(I, OA)
                s = signal(I, dim)
                res = I.call(I.get(WA), [s], {'p_exp': p(), 'wt_name': 'db3', 'j2': None if j2 is None else Sc(var('J2'), 'int'),
                                              'gamint': Sc(var('gam'), 'float'), 'normalization': Sc(var('norm'), 'float')})
                coefs_check(I, ob, res, Rd, not full)
                ob('signal untouched', const(not I.written))
            S.scenario(f'wavelet_analysis(p_exp={form}' + (', j2 given)' if j2 else ')'), run)

    def filt(I, ob):
        i, n = var('FI'), var('FN')
        I.pc += [ge(n, F)]
        el = lambda k, r: (app('AN', i, k, r), app('AV', i, k, r))
        a = A((n, R), el, I=I, label='approx')
        h = A((F, ONE), lambda t, c: neg(hi(t)), I=I, label='high_filter')
        l = A((F, ONE), lambda t, c: lo(t), I=I, label='low_filter')
        out = I.call(I.get(FILT), [a, h, l], {})
        its = I.tolist(out)
        ob('a pair', const(len(its.items if hasattr(its, 'items') else its) == 2))
        det, ap = (I.force(x) for x in (its.items if hasattr(its, 'items') else its))

        class AtI(Approx):
            def len(self, i_):
                return n

            def elem(self, i_, k, r):
                return el(k, r)
        f = AtI()
        for nm, arr, hh in (('detail', det, lambda t: neg(hi(t))), ('next approximation', ap, lo)):
            eqarr(I, ob, f'{nm}: convolution, every second sample', arr, (floor(div(n, TWO)), R), lambda k, r: f.filtered(i, k, r, hh)[1],
                  lambda k, r: f.filtered(i, k, r, hh)[0])
        ob('inputs untouched', const(not I.written))
    declare('FI', 'I', lo=0)
    declare('FN', 'I', lo=1)
    S.scenario('filtering(approximation of any length, any filters)', filt)

    # frames assumed by the scenarios with leaders: neither stage writes the coefficients
    declare('SL', 'I', lo=1)
    declare('sc', 'I', lo=1)
    for n_ in ('j1', 'j2', 'JL'):
        declare(n_, 'I', lo=1)

    def frame(I, ob, form, first):
        I.contracts[FASTPOW] = fast_power_weak
        nn, sl = var('FN'), var('SL')
        I.pc += [ge(nn, 3)] + ([] if first else [eq(floor(div(sl, TWO)), nn)])
        el = lambda k, r: (app('DN', ZERO, k, r), app('DV', ZERO, k, r))
        det = A((nn, R), el, I=I, label='detail')
        sv = None if first else A((sl, R), lambda k, r: (app('SVN', ZERO, k, r), app('SVV', ZERO, k, r)), I=I)
        p = Sc(var('pexp'), 'float') if form == 'wavelet p-leader' else math.inf
        L = I.elems(I.call(I.get(LEADERS), [det, sv, 1 if first else Sc(add(var('sc'), 1), 'int'), form, p], {}))
        ob('coefficients untouched', const(not I.written))
        eqarr(I, ob, 'coefficients as before', det, (nn, R), lambda k, r: el(k, r)[1], lambda k, r: el(k, r)[0])
        ob('leaders of the interior positions', eq(I.force(L[0]).shape[0], sub(nn, 2)))
    for form in ('wavelet leader', 'wavelet p-leader'):
        for first in (True, False):
            S.scenario(f'_compute_leaders({form}, {"first" if first else "coarser"} scale)', lambda I, ob, form=form, first=first: frame(I, ob, form, first))

    def corr(I, ob, weighted):
        use(I, 'linreg')
        I.contracts[FASTPOW] = fast_power_contract
        I.mutable = 'leaders'
        I.pc += [lt(var('j1'), var('j2')), le(var('j2'), ml.J), le(ml.J, mc.J)]
        c, l = mc.build(I, 'wavelet coef', label='coefficients'), ml.build(I, 'wavelet p-leader', label='leaders')
        I.call(I.get(CORRECT), [c, l, Sc(var('pexp'), 'float'), Sc(var('j1'), 'int'), Sc(var('j2'), 'int'), weighted, Sc(ml.J, 'int')], {})
        ob('coefficients untouched', const(not any(str(w).startswith('coefficients') for w in I.written)))
    mc, ml = SymMRQ('c', R='Rn', sign='!'), SymMRQ('l', J='JL', R='Rn', sign='0+')
    for w in (True, False):
        S.scenario(f'_correct_leaders(weighted={w})', lambda I, ob, w=w: corr(I, ob, w))
