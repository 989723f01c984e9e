"""Amplitude: every function run on X and on c X, c not zero, and the results compared."""
from pyvc.spec import *
from .common import *
from .wt import *
from .rel import *

SF, CU, SP = 'pymultifracs.structurefunction:StructureFunction', 'pymultifracs.cumulants:Cumulants', 'pymultifracs.mfspectrum:MultifractalSpectrum'
HM, HU = 'pymultifracs.estimation:estimate_hmin', 'pymultifracs.estimation:compute_hurst'
UT = 'pymultifracs.utils:'
EST = WMOD + '_estimate_eta_p'
declare('c', 'R', sign='!')
c = var('c')
ac = abs_(c)
log2 = lambda x: div(ln(x), LN2)
SAME = lambda v, ix: v
plus = lambda t: (lambda v, ix: add(v, t))
times = lambda t: (lambda v, ix: mul(v, t))


class Amp(OpaqueApprox):
    """approximations of amp times the signal"""

    def __init__(self, amp=None):
        self.R, self.amp = R, amp

    def times(self, v):
        return v if self.amp is None else mul(self.amp, v)


class SV:
    """dyadic aggregates by name: |amp| (or its p-th power) times those of the signal"""
    name = 'aggregate'

    def __init__(self, ap, p):
        self.ap, self.p = ap, p

    def times(self, v):
        a = self.ap.amp
        return v if a is None else mul(abs_(a) if self.p is None else power(abs_(a), self.p), v)

    def at(self, I, i):
        i = lift(i)
        if i is ZERO:
            return None
        arr = A((self.ap.len(i), R), lambda k, r: (app('SVN', i, k, r), self.times(app('SVV', i, k, r))))
        return arr if pred(i) is not None else I.merge(eq(i, ZERO), None, arr)

    def facts(self, I, i):
        return []

    def axioms(self, I, i):
        return []


def by_name(I, ap, sv, calls):
    """filtering, leaders and correction by name; what each does to c times its input is proved below on its body"""
    def filt(I_, args, kw):
        d = dict(zip(['approx', 'high_filter', 'low_filter'], args))
        d.update(kw)
        if set(d) != {'approx', 'high_filter', 'low_filter'}:
            return NotImplemented
        a, h, l = (I.force(d[k]) for k in ('approx', 'high_filter', 'low_filter'))
        k, r = fresh('k', 'I', sign='0+'), fresh('r', 'I', sign='0+')
        for x, g in ((h, lambda t: neg(hi(t))), (l, lo)):
            m, v = x.at([k, ZERO])
            if not (I.entails(eq(x.shape[0], F)) and m is FALSE and I.simp(eq(v, g(k))) is TRUE):
                raise Unsupported('filtering with other filters')
        m, v = (I.simp(z) for z in a.at([k, r]))
        i = which(v)
        same = i is not None and any(I.simp(iff(m, e[0])) is TRUE and I.simp(eq(v, ap.times(e[1]))) is TRUE
                                     for e in (ap.elem(i, k, r), (app('AN', i, k, r), app('AV', i, k, r))))
        if not same or not I.entails(eq(a.shape[0], ap.len(i))) or not I.entails(ge(a.shape[0], F)):
            raise Unsupported('filtering of another array')
        n2 = floor(div(ap.len(i), TWO))
        det = mk((n2, a.shape[1]), lambda ix: (app('DN', i, *ix), ap.times(app('DV', i, *ix))), 'f')

        def nxt(ix):
            m, v = ap.elem(add(i, 1), *ix)
            return m, ap.times(v)
        return PyList([det, mk((n2, a.shape[1]), nxt, 'f')], 'tuple')

    def compute(I_, args, kw):
        d = dict(zip(['detail', 'sans_voisin', 'scale', 'formalism', 'p_exp'], args))
        d.update(kw)
        if set(d) != {'detail', 'sans_voisin', 'scale', 'formalism', 'p_exp'}:
            return NotImplemented
        det, sc_ = I.force(d['detail']), I.force(d['scale'])
        if not isinstance(det, Arr) or det.masked() or det.ndim != 2 or not isnum(sc_):
            raise Unsupported('leaders of another array')
        i = I.simp2(sub(sc(sc_).t, 1))
        n, w = det.shape
        k, r = fresh('k', 'I', sign='0+'), fresh('r', 'I', sign='0+')
        m, v = (I.simp(z) for z in det.at([k, r]))
        if not (I.simp(iff(m, app('DN', i, k, r))) is TRUE and I.simp(eq(v, mul(scale_factor(add(i, 1)), ap.times(app('DV', i, k, r))))) is TRUE):
            raise Unsupported('leaders of another array')
        one = (lambda v: v) if ap.amp is None else (lambda v: mul(abs_(ap.amp), v))
        L = mk((I.simp2(sub(n, 2)), w), lambda ix: (app('LN', i, *ix), one(app('LV', i, *ix))), 'f')
        s = mk((n, w), lambda ix: (app('SVN', add(i, 1), *ix), sv.times(app('SVV', add(i, 1), *ix))), 'f')
        return PyList([L, s], 'tuple')

    def correct(I_, args, kw):
        names = ['wt_coefs', 'wt_leaders', 'p_exp', 'j1', 'j2_eff', 'weighted', 'max_level']
        d = dict(zip(names, args))
        d.update(kw)
        if set(d) != set(names):
            return NotImplemented
        calls.append(d)
        return PyList([d['wt_leaders'], OVal(obj('eta', const(len(calls))))], 'tuple')
    I.contracts[FILT] = filt
    I.contracts[LEADERS] = compute
    I.contracts[CORRECT] = correct


def which(v):
    """scale of the approximation in the value"""
    seen = []

    def walk(t):
        if t.op == 'app' and t.args[0] in ('S', 'AV'):
            seen.append(ZERO if t.args[0] == 'S' else t.args[1])
            return
        for a in t.args:
            if isinstance(a, TM.T):
                walk(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, TM.T):
                        walk(b)
    for mono in to_poly(v):
        for x, _ in mono:
            walk(x)
    return seen[0] if seen and all(s is seen[0] for s in seen) else None


def contract(S):
    math_facts(S)
    S.functions |= {SF + m for m in ('.__post_init__', '._compute', '._compute_zeta', '._get_H')} | \
        {CU + m for m in ('.__post_init__', '._compute', '._compute_log_cumulants')} | {SP + m for m in ('.__post_init__', '._compute')} | \
        {HM, HU, UT + 'fast_power', MRQ + 'Base.get_nj_interv', EST} | \
        {WMOD + f for f in ('_wavelet_coef_analysis', '_compute_leaders', '_find_sans_voisin', '_correct_leaders')}
    S.assume('exact real arithmetic; infinite samples are outside the precondition')
    S.assume('preconditions: 1 <= j1 < j2 <= number of scales; every scale and realisation has a valid coefficient; valid coefficients are non-zero')
    for n in ('Q', 'j1', 'j2', 'J2'):
        declare(n, 'I', lo=1)
    declare('q', 'R', 1)
    declare('g', 'R')
    Q, j1, j2, g = (var(x) for x in ('Q', 'j1', 'j2', 'g'))
    prove_fast_power(S)
    m = SymMRQ(sign='!')
    mc_ = scaled(m, c)

    def est(name, call, rules):
        """rules: {field or result index: how the value changes}"""
        def run(I, ob):
            use(I, 'linreg')
            I.contracts[FASTPOW] = fast_power_contract
            I.pc += [lt(j1, j2), le(j2, m.J)]
            outs = [call(I, q_.build(I, 'wavelet coef', Sc(g, 'float'), label=lab)) for q_, lab in ((m, 'mrq'), (mc_, 'scaled'))]
            for n, rule in rules.items():
                if isinstance(n, str):
                    pair = [I.getattr(o, n) for o in outs]
                elif n is None:
                    pair = outs
                else:
                    pair = [I.elems(o)[n] for o in outs]
                changed(I, ob, n if isinstance(n, str) else f'result {n}', *pair, rule)
        S.scenario(name, run)
    J = lambda: (Sc(j1, 'int'), Sc(j2, 'int'))
    qa = lambda I: A((Q,), lambda i: app('q', i), I=I, label='q')
    lc = log2(ac)
    for w in (True, False):
        est(f'StructureFunction(weighted={w})', lambda I, x, w=w: I.call(I.get(SF), [x, qa(I), *J(), w], {}),
            {'logvalues': lambda v, ix: add(v, mul(app('q', ix[0]), lc)), 'zeta': SAME, 'H': SAME})
        for nc in (1, 2, 3) if S.tier == 'quick' else (1, 2, 3, 4, 5):
            est(f'Cumulants(n_cumul={nc}, weighted={w})', lambda I, x, w=w, nc=nc: I.call(I.get(CU), [x, nc, *J(), w], {}),
                {'values': lambda v, ix: add(v, ite(eq(ix[0], 0), ln(ac), ZERO)), 'log_cumulants': SAME, 'var_log_cumulants': SAME})
        est(f'MultifractalSpectrum(weighted={w})', lambda I, x, w=w: I.call(I.get(SP), [x], {'q': qa(I), 'j1': J()[0], 'j2': J()[1], 'weighted': w}),
            {'U': SAME, 'Dq': SAME, 'hq': SAME})
        est(f'estimate_hmin(weighted={w})', lambda I, x, w=w: I.call(I.get(HM), [x, *J(), w], {}), {0: SAME})
        est(f'compute_hurst(weighted={w})', lambda I, x, w=w: I.call(I.get(HU), [x, *J(), w], {}), {0: SAME})

    # ---- the filter bank on its body
    declare('FN', 'I', lo=1)
    declare('SL', 'I', lo=1)
    declare('sc', 'I', lo=1)

    def filt(I, ob):
        n = var('FN')
        I.pc += [ge(n, F)]
        outs = []
        for amp in (None, c):
            a = A((n, R), lambda k, r, amp=amp: (app('AN', ZERO, k, r), app('AV', ZERO, k, r) if amp is None else mul(amp, app('AV', ZERO, k, r))), I=I, label='approx')
            h = A((F, ONE), lambda t, _: neg(hi(t)), I=I, label='high_filter')
            l = A((F, ONE), lambda t, _: lo(t), I=I, label='low_filter')
            outs.append(I.elems(I.call(I.get(FILT), [a, h, l], {})))
        for nm, a, b in zip(('detail', 'next approximation'), *outs):
            changed(I, ob, nm, a, b, times(c))
    S.scenario('filtering', filt)

    # ---- leaders on their body
    def lead(I, ob, form, first):
        I.contracts[FASTPOW] = fast_power_weak
        nn, sl, p = var('FN'), var('SL'), var('pexp')
        I.pc += [ge(nn, 3)]
        if not first:
            I.pc += [eq(floor(div(sl, TWO)), nn)]
        outs = []
        fin = form == 'wavelet p-leader'
        for amp in (None, c):
            t1 = (lambda v: v) if amp is None else (lambda v: mul(c, v))
            t2 = (lambda v: v) if amp is None else (lambda v: mul(power(ac, p) if fin else ac, v))
            det = A((nn, R), lambda k, r, t1=t1: (app('DN', ZERO, k, r), t1(app('DV', ZERO, k, r))), I=I, label='detail')
            sv = None if first else A((sl, R), lambda k, r, t2=t2: (app('SVN', ZERO, k, r), t2(app('SVV', ZERO, k, r))), I=I, label='sans_voisin')
            s_ = 1 if first else Sc(add(var('sc'), 1), 'int')
            outs.append(I.elems(I.call(I.get(LEADERS), [det, sv, s_, form, Sc(p, 'float') if fin else math.inf], {})))
        changed(I, ob, 'leaders', outs[0][0], outs[1][0], times(ac))
        changed(I, ob, 'aggregate', outs[0][1], outs[1][1], times(power(ac, p) if fin else ac))
    for form in ('wavelet leader', 'wavelet p-leader'):
        for first in (True, False):
            S.scenario(f'_compute_leaders({form}, {"first" if first else "coarser"} scale)', lambda I, ob, form=form, first=first: lead(I, ob, form, first))

    # ---- correction
    declare('JL', 'I', lo=1)
    wc, wl = SymMRQ('c', R='Rn', sign='!'), SymMRQ('l', J='JL', R='Rn', sign='0+')

    def eta(I, ob, weighted):
        use(I, 'linreg')
        I.contracts[FASTPOW] = fast_power_contract
        I.pc += [lt(j1, j2), le(j2, wc.J)]
        outs = []
        for q_ in (wc, scaled(wc, c)):
            x = q_.build(I, 'wavelet coef', label='coefficients')
            outs.append(I.call(I.get(EST), [x, Sc(var('pexp'), 'float'), *J(), weighted], {}))
        changed(I, ob, 'eta(p)', *outs, SAME)

    def corr(I, ob, weighted):
        def eta_contract(I_, args, kw):
            names = ['wt_coefs', 'p_exp', 'j1', 'j2_eff', 'weighted']
            d = dict(zip(names, args))
            d.update(kw)
            if set(d) != set(names):
                return NotImplemented
            if not any(d['wt_coefs'] is x for x in cs):
                raise Unsupported('eta of another quantity')
            asked.append(d)
            return mk((R,), lambda ix: (FALSE, app('ETA', ix[0])), 'f')
        I.contracts[EST] = eta_contract
        I.mutable = 'leaders'
        I.pc += [lt(j1, j2), le(j2, wl.J), le(wl.J, wc.J)]
        cs, outs, asked = [], [], []
        for c_, l_ in ((wc, wl), (scaled(wc, c), scaled(wl, ac))):
            x, l = c_.build(I, 'wavelet coef', label='coefficients'), l_.build(I, 'wavelet p-leader', label='leaders')
            cs.append(x)
            outs.append(I.elems(I.call(I.get(CORRECT), [x, l, Sc(var('pexp'), 'float'), *J(), weighted, Sc(wl.J, 'int')], {})))
        ob('eta(p) once each', const(len(asked) == 2 and asked[0]['wt_coefs'] is cs[0] and asked[1]['wt_coefs'] is cs[1]))
        for n in ('p_exp', 'j1', 'j2_eff'):
            ob(f'eta(p) with the same {n}', eq(sc(I.force(asked[0][n])).t, sc(I.force(asked[1][n])).t))
        changed(I, ob, 'eta(p)', outs[0][1], outs[1][1], SAME)
        changed_mrq(I, ob, 'corrected leaders', outs[0][0], outs[1][0], times(ac))
    for w in (True, False):
        S.scenario(f'_estimate_eta_p(weighted={w})', lambda I, ob, w=w: eta(I, ob, w))
        S.scenario(f'_correct_leaders(weighted={w})', lambda I, ob, w=w: corr(I, ob, w))

    # ---- the transform
    def trans(I, ob, p, given):
        setup(I, True)
        p_ = var('pexp') if p == 'p' else None
        calls, outs = [], []
        for amp in (None, c):
            ap = Amp(amp)
            sv = SV(ap, p_)
            I.families = [ap] + ([sv] if p is not None else [])
            by_name(I, ap, sv, calls)
            pe = None if p is None else math.inf if p == 'inf' else Sc(p_, 'float')
            outs.append(I.call(I.get(WA), [signal(I, amp=amp)], {'p_exp': pe, 'wt_name': 'db3', 'j1': Sc(j1, 'int'), 'j2': Sc(var('J2'), 'int') if given else None,
                                                                 'gamint': Sc(var('gam'), 'float'), 'normalization': Sc(var('norm'), 'float')}))
        a, b = outs
        changed_mrq(I, ob, 'coefficients', I.getattr(a, 'wt_coefs'), I.getattr(b, 'wt_coefs'), times(c))
        ob('effective upper scale', eq(sc(I.force(I.getattr(a, 'j2_eff'))).t, sc(I.force(I.getattr(b, 'j2_eff'))).t))
        if p is None:
            ob('no leaders', const(I.getattr(a, 'wt_leaders') is None and I.getattr(b, 'wt_leaders') is None))
            return
        if p == 'p':
            if len(calls) != 2:
                raise Unsupported('the correction is not a single call of _correct_leaders')
            for d, o in zip(calls, outs):
                ob('corrected leaders returned', const(I.getattr(o, 'wt_leaders') is d['wt_leaders'] and I.getattr(o, 'wt_coefs') is d['wt_coefs']))
            for n_ in ('p_exp', 'j1', 'j2_eff', 'max_level'):
                ob(f'correction with the same {n_}', eq(sc(I.force(calls[0][n_])).t, sc(I.force(calls[1][n_])).t))
        changed_mrq(I, ob, 'leaders', I.getattr(a, 'wt_leaders'), I.getattr(b, 'wt_leaders'), times(ac))
    for p in (None, 'inf', 'p'):
        for given in (False, True):
            S.scenario(f'wavelet_analysis(p_exp={p}{", j2 given" if given else ""})', lambda I, ob, p=p, given=given: trans(I, ob, p, given))
