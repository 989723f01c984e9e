"""Realisations are analysed independently: every function run on R realisations and on one of them alone gives the same for that one."""
from pyvc.spec import *
from .common import *
from .wt import *
from .rel import *

SF, CU, SP = 'pymultifracs.structurefunction:StructureFunction', 'pymultifracs.cumulants:Cumulants', 'pymultifracs.mfspectrum:MultifractalSpectrum'
HM, HU = 'pymultifracs.estimation:estimate_hmin', 'pymultifracs.estimation:compute_hurst'
UT = 'pymultifracs.utils:'
EST = WMOD + '_estimate_eta_p'
declare('ANf', 'B', 2)
declare('DNf', 'B', 2)
declare('LNf', 'B', 2)


class Fin(OpaqueApprox):
    """approximations of signals without missing samples: missing values are at the borders, the same in every realisation;
    col: the realisation analysed alone"""

    def __init__(self, R, col=None, off=None):
        self.R, self.col = R, col

    def elem(self, i, k, r):
        return (FALSE, app('S', k, self.real(r))) if lift(i) is ZERO else self.sym(i, k, r)

    def real(self, r):
        return r if self.col is None else self.col

    def sym(self, i, k, r):
        # at i = 0 (an index not known to be 0 when the term was formed): the signal itself, by definition
        return app('ANf', i, k), app('AV', i, k, self.real(r))


def pair_contracts(I, R0, r0):
    """filtering, leaders and correction by name, for R realisations or the realisation r0 alone. Each is proved below to act on every
    realisation separately, missing values depending on missing values only."""
    many, one = Fin(R0), Fin(ONE, r0)
    I.families = [many, one]

    def fam(a):
        if not isinstance(a, Arr) or a.masked() or a.ndim != 2:
            return None
        return many if I.entails(eq(a.shape[1], R0)) else one if I.entails(eq(a.shape[1], ONE)) else None

    def filt(I_, args, kw):
        d = dict(zip(['approx', 'high_filter', 'low_filter'], args))
        d.update(kw)
        if set(d) != {'approx', 'high_filter', 'low_filter'}:
            return NotImplemented
        a, h, l = (I.force(d[k]) for k in ('approx', 'high_filter', 'low_filter'))
        f = fam(a)
        if f is None:
            raise Unsupported('filtering of another array')
        k, r = fresh('k', 'I', sign='0+'), fresh('r', 'I', sign='0+')
        for x, g in ((h, lambda t: neg(hi(t))), (l, lo)):
            m, v = x.at([k, ZERO])
            if not (I.entails(eq(x.shape[0], F)) and m is FALSE and I.simp(eq(v, g(k))) is TRUE):
                raise Unsupported('filtering with other filters')
        m, v = (I.simp(z) for z in a.at([k, r]))
        i = ZERO if v.op == 'app' and v.args[0] == 'S' else v.args[1] if v.op == 'app' and v.args[0] == 'AV' else None
        same = i is not None and any(e[1] is v and I.simp(iff(m, e[0])) is TRUE for e in (f.elem(i, k, r), f.sym(i, k, r)))
        if not same or not I.entails(eq(a.shape[0], f.len(i))):
            raise Unsupported('filtering of another array')
        n2 = floor(div(f.len(i), TWO))
        c = (lambda r: r) if f is many else (lambda r: r0)
        det = mk((n2, a.shape[1]), lambda ix: (app('DNf', i, ix[0]), app('DV', i, ix[0], c(ix[1]))), 'f')
        ap = mk((n2, a.shape[1]), lambda ix: f.elem(add(i, 1), ix[0], ix[1]), 'f')
        return PyList([det, ap], 'tuple')
    I.contracts[FILT] = filt
    return many, one, fam


class SV:
    """dyadic aggregates by name"""
    name = 'aggregate'

    def __init__(self, ap):
        self.ap = ap

    def at(self, I, i):
        i = lift(i)
        if i is ZERO:
            return None
        ap = self.ap
        arr = A((ap.len(i), ap.R), lambda k, r: (app('SVNf', i, k), app('SVV', i, k, r if ap.col is None else ap.col)))
        return arr if pred(i) is not None else I.merge(eq(i, ZERO), None, arr)

    def facts(self, I, i):
        return []

    def axioms(self, I, i):
        return []


declare('SVNf', 'B', 2)


def leader_pair(I, many, one, fam, r0, calls):
    I.families += [SV(many), SV(one)]

    def compute(I_, args, kw):
        d = dict(zip(['detail', 'sans_voisin', 'scale', 'formalism', 'p_exp'], args))
        d.update(kw)
        if set(d) != {'detail', 'sans_voisin', 'scale', 'formalism', 'p_exp'}:
            return NotImplemented
        det, sc_ = I.force(d['detail']), I.force(d['scale'])
        f = fam(det)
        if f is None or not isnum(sc_):
            raise Unsupported('leaders of another array')
        i = I.simp2(sub(sc(sc_).t, 1))
        n, w = det.shape
        k, r = fresh('k', 'I', sign='0+'), fresh('r', 'I', sign='0+')
        c = (lambda r: r) if f is many else (lambda r: r0)
        m, v = (I.simp(z) for z in det.at([k, r]))
        if not (I.simp(iff(m, app('DNf', i, k))) is TRUE and I.simp(eq(v, mul(scale_factor(add(i, 1)), app('DV', i, k, c(r))))) is TRUE):
            raise Unsupported('leaders of another array')
        L = mk((I.simp2(sub(n, 2)), w), lambda ix: (app('LNf', i, ix[0]), app('LV', i, ix[0], c(ix[1]))), 'f')
        sv = mk((n, w), lambda ix: (app('SVNf', add(i, 1), ix[0]), app('SVV', add(i, 1), ix[0], c(ix[1]))), 'f')
        return PyList([L, sv], 'tuple')

    def correct(I_, args, kw):
        names = ['wt_coefs', 'wt_leaders', 'p_exp', 'j1', 'j2_eff', 'weighted', 'max_level']
        d = dict(zip(names, args))
        d.update(kw)
        if set(d) != set(names):
            return NotImplemented
        calls.append(d)
        return PyList([d['wt_leaders'], OVal(obj('eta', const(len(calls))))], 'tuple')
    I.contracts[LEADERS] = compute
    I.contracts[CORRECT] = correct


def same_mrq(I, ob, lab, a, b, R0, r0, hyps):
    va, vb = (I.force(I.getattr(x, 'values')) for x in (a, b))
    na, nb = (I.force(I.getattr(x, 'nj')) for x in (a, b))
    n1, n2 = dict_range(I, ob, va, lab + ': '), dict_range(I, ob, vb, lab + ' alone: ')
    if n1 is None or n2 is None:
        return
    ob(lab + ': same scales', eq(n1, n2), hyps)
    for key, fn, hy in entries(I, va):
        m0 = len(I.pc)
        I.pc += hy
        x, y = I.force(fn()), I.force(I.dget(vb, Sc(key, 'int')))
        same_column(I, ob, lab, x, y, R0, r0, hyps)
        same_column(I, ob, lab + ' counts', I.dget(na, Sc(key, 'int')), I.dget(nb, Sc(key, 'int')), R0, r0, hyps)
        del I.pc[m0:]


def contract(S):
    math_facts(S)
    S.functions |= {SF + m for m in ('.__post_init__', '._compute', '._compute_zeta', '._get_H')} | \
        {CU + m for m in ('.__post_init__', '._compute', '._compute_log_cumulants')} | {SP + m for m in ('.__post_init__', '._compute')} | \
        {HM, HU, UT + 'linear_regression', UT + 'fixednansum', UT + 'fixednanmax', UT + 'fast_power', MRQ + 'Base.get_nj_interv', EST} | \
        {WMOD + f for f in ('_wavelet_coef_analysis', '_compute_leaders', '_find_sans_voisin', '_correct_leaders')}
    S.assume('exact real arithmetic; samples and coefficients are finite')
    S.assume('preconditions: 1 <= j1 < j2 <= number of scales; every scale and realisation has a valid coefficient; valid coefficients are non-zero')
    for n in ('Q', 'j1', 'j2', 'J2'):
        declare(n, 'I', lo=1)
    declare('q', 'R', 1)
    declare('g', 'R')
    Q, j1, j2, g = (var(x) for x in ('Q', 'j1', 'j2', 'g'))
    prove_fast_power(S)
    m = SymMRQ(sign='!')
    declare('r0', 'I', sign='0+')
    r0 = var('r0')
    col = column(m, r0)

    def est(name, call, names, ranges=None):
        def run(I, ob):
            use(I, 'linreg')
            I.contracts[FASTPOW] = fast_power_contract
            I.pc += [lt(j1, j2), le(j2, m.J), lt(r0, m.R)]
            outs = []
            for q_, lab in ((m, 'mrq'), (col, 'column')):
                outs.append(call(I, q_.build(I, 'wavelet coef', Sc(g, 'float'), label=lab)))
            a, b = outs
            if names is None:
                a, b = I.elems(a), I.elems(b)
                ob('number of results', const(len(a) == len(b)))
                for i, (x, y) in enumerate(zip(a, b)):
                    x, y = I.force(x), I.force(y)
                    if isinstance(x, Arr) or x is None or isnum(x):
                        same_column(I, ob, f'result {i}', x, y, m.R, r0, [])
                return
            for n in names:
                same_column(I, ob, n, I.getattr(a, n), I.getattr(b, n), m.R, r0, [])
        S.scenario(name, run)
    J = lambda: (Sc(j1, 'int'), Sc(j2, 'int'))
    qa = lambda I: A((Q,), lambda i: app('q', i), I=I, label='q')
    one_axis = ('values', 'logvalues', 'zeta', 'intercept', 'H')
    for w in (True, False):
        est(f'StructureFunction(weighted={w})', lambda I, x, w=w: I.call(I.get(SF), [x, qa(I), *J(), w], {}), one_axis)
        for nc in (1, 2, 3) if S.tier == 'quick' else (1, 2, 3, 4, 5):
            est(f'Cumulants(n_cumul={nc}, weighted={w})', lambda I, x, w=w, nc=nc: I.call(I.get(CU), [x, nc, *J(), w], {}), ('values', 'log_cumulants', 'var_log_cumulants'))
        est(f'MultifractalSpectrum(weighted={w})', lambda I, x, w=w: I.call(I.get(SP), [x], {'q': qa(I), 'j1': J()[0], 'j2': J()[1], 'weighted': w}),
            ('U', 'V', 'Dq', 'hq'))
        est(f'estimate_hmin(weighted={w})', lambda I, x, w=w: I.call(I.get(HM), [x, *J(), w], {'return_y': True}), None)
        est(f'compute_hurst(weighted={w})', lambda I, x, w=w: I.call(I.get(HU), [x, *J(), w], {}), None)

    declare('Z', 'R', 3)
    declare('ZN', 'B', 3)
    # ---- linear_regression on its body
    declare('n', 'I', lo=2)
    declare('X', 'R', 2)
    declare('Y', 'R', 2)
    declare('W', 'R', 2, sign='+')
    n, R_ = var('n'), var('R')

    def linreg(I, ob, xc):
        I.pc += [lt(r0, R_)]
        outs = []
        for many in (True, False):
            c = (lambda r: r) if many else (lambda r: r0)
            w_ = R_ if many else ONE
            xw = ONE if xc == 1 else w_
            x = A((n, xw), lambda j, r, c=c: app('X', j, ZERO if xc == 1 else c(r)), I=I, label='x')
            y = A((n, w_), lambda j, r, c=c: app('Y', j, c(r)), I=I, label='y')
            w = A((n, w_), lambda j, r, c=c: app('W', j, c(r)), I=I, label='nj')
            outs.append(I.elems(I.call(I.get(LINREG), [x, y, w], {'return_variance': True})))
        for nm, a, b in zip(('slope', 'intercept', 'variance'), *outs):
            same_column(I, ob, nm, a, b, R_, r0, [])
    for xc in (1, 'R'):
        S.scenario(f'linear_regression(abscissae with {xc} column)', lambda I, ob, xc=xc: linreg(I, ob, xc))

    # ---- building a quantity from coefficients
    def addv(I, ob):
        I.pc += [lt(r0, R_)]
        outs = []
        for many in (True, False):
            c = (lambda r: r) if many else (lambda r: r0)
            a = A((n, R_ if many else ONE), lambda k, r, c=c: (app('ZN', ZERO, k, c(r)), app('Z', ZERO, k, c(r))), I=I, label='coefficients')
            x = I.call(I.get(MRQ), ['wavelet coef', 0.0], {})
            I.call(I.getattr(x, 'add_values'), [a, Sc(j1, 'int')], {})
            outs.append(x)
        for nm in ('values', 'nj'):
            same_column(I, ob, nm, *[I.dget(I.force(I.getattr(x, nm)), Sc(j1, 'int')) for x in outs], R_, r0, [])
    S.functions.add(MRQ + '.add_values')
    S.scenario('add_values', addv)

    # ---- missing-aware reductions along the first axis
    declare('Z', 'R', 3)
    declare('ZN', 'B', 3)

    def red(I, ob, fn):
        I.pc += [lt(r0, R_)]
        outs = []
        for many in (True, False):
            c = (lambda r: r) if many else (lambda r: r0)
            a = A((3, n, R_ if many else ONE), lambda s, k, r, c=c: (app('ZN', s, k, c(r)), app('Z', s, k, c(r))), I=I, label='array')
            outs.append(I.call(I.get(UT + fn), [a], {'axis': 0}))
        same_column(I, ob, fn, *outs, R_, r0, [])
    for fn in ('fixednansum', 'fixednanmax'):
        S.scenario(fn, lambda I, ob, fn=fn: red(I, ob, fn))

    # ---- filtering, leaders on their bodies
    declare('FN', 'I', lo=1)
    declare('SL', 'I', lo=0)
    declare('sc', 'I', lo=1)

    def filt(I, ob):
        nn = var('FN')
        I.pc += [ge(nn, F), lt(r0, R)]
        outs = []
        for many in (True, False):
            c = (lambda r: r) if many else (lambda r: r0)
            a = A((nn, R if many else ONE), lambda k, r, c=c: (app('ANf', ZERO, k), app('AV', ZERO, k, c(r))), I=I, label='approx')
            h = A((F, ONE), lambda t, _: neg(hi(t)), I=I, label='high_filter')
            l = A((F, ONE), lambda t, _: lo(t), I=I, label='low_filter')
            outs.append([I.force(x) for x in I.elems(I.call(I.get(FILT), [a, h, l], {}))])
        k, r2 = fresh('k', 'I', sign='0+'), fresh('r', 'I', sign='0+')
        for nm, a, b in zip(('detail', 'next approximation'), *outs):
            same_column(I, ob, nm, a, b, R, r0, [])
            ob(nm + ': missing in every realisation alike', iff(a.at([k, r0])[0], a.at([k, r2])[0]), [lt(k, a.shape[0]), lt(r2, R)])
    S.scenario('filtering', filt)

    def lead(I, ob, form, first):
        I.contracts[FASTPOW] = fast_power_weak
        nn, sl = var('FN'), var('SL')
        I.pc += [ge(nn, 3), lt(r0, R)]
        if not first:
            I.pc += [eq(floor(div(sl, TWO)), nn)]
        outs = []
        for many in (True, False):
            c = (lambda r: r) if many else (lambda r: r0)
            det = A((nn, R if many else ONE), lambda k, r, c=c: (app('DNf', ZERO, k), app('DV', ZERO, k, c(r))), I=I, label='detail')
            sv = None if first else A((sl, R if many else ONE), lambda k, r, c=c: (app('SVNf', ZERO, k), app('SVV', ZERO, k, c(r))), I=I, label='sans_voisin')
            p = Sc(var('pexp'), 'float') if form == 'wavelet p-leader' else math.inf
            s_ = 1 if first else Sc(add(var('sc'), 1), 'int')
            outs.append([I.force(x) for x in I.elems(I.call(I.get(LEADERS), [det, sv, s_, form, p], {}))])
        k, r2 = fresh('k', 'I', sign='0+'), fresh('r', 'I', sign='0+')
        for nm, a, b in zip(('leaders', 'aggregate'), *outs):
            same_column(I, ob, nm, a, b, R, r0, [])
            ob(nm + ': missing in every realisation alike', iff(a.at([k, r0])[0], a.at([k, r2])[0]), [lt(k, a.shape[0]), lt(r2, R)])
    for form in ('wavelet leader', 'wavelet p-leader'):
        for first in (True, False):
            S.scenario(f'_compute_leaders({form}, {"first" if first else "coarser"} scale)', lambda I, ob, form=form, first=first: lead(I, ob, form, first))

    # ---- correction
    declare('JL', 'I', lo=1)
    mc, ml = SymMRQ('c', R='Rn', sign='!'), SymMRQ('l', J='JL', R='Rn', sign='0+')

    def eta(I, ob, weighted):
        use(I, 'linreg')
        I.contracts[FASTPOW] = fast_power_contract
        I.pc += [lt(j1, j2), le(j2, mc.J), lt(r0, R)]
        outs = []
        for q_ in (mc, column(mc, r0)):
            c = q_.build(I, 'wavelet coef', label='coefficients')
            outs.append(I.call(I.get(EST), [c, Sc(var('pexp'), 'float'), *J(), weighted], {}))
        same_column(I, ob, 'eta(p)', *outs, R, r0, [])

    def corr(I, ob, weighted):
        def eta_contract(I_, args, kw):
            names = ['wt_coefs', 'p_exp', 'j1', 'j2_eff', 'weighted']
            d = dict(zip(names, args))
            d.update(kw)
            if set(d) != set(names):
                return NotImplemented
            c = cs.index(d['wt_coefs'])
            return mk((R if c == 0 else ONE,), lambda ix: (FALSE, app('ETA', ix[0] if c == 0 else r0)), 'f')
        I.contracts[EST] = eta_contract
        I.mutable = 'leaders'
        I.pc += [lt(j1, j2), le(j2, ml.J), le(ml.J, mc.J), lt(r0, R), not_(bany(R, lambda r: le(app('ETA', r), 0))), lt(0, app('ETA', r0))]
        cs, outs = [], []
        for c_, l_ in ((mc, ml), (column(mc, r0), column(ml, r0))):
            c, l = c_.build(I, 'wavelet coef', label='coefficients'), l_.build(I, 'wavelet p-leader', label='leaders')
            cs.append(c)
            out = I.elems(I.call(I.get(CORRECT), [c, l, Sc(var('pexp'), 'float'), *J(), weighted, Sc(ml.J, 'int')], {}))
            outs.append(out)
        same_column(I, ob, 'eta(p)', outs[0][1], outs[1][1], R, r0, [])
        same_mrq(I, ob, 'corrected leaders', outs[0][0], outs[1][0], R, r0, [])
    for w in (True, False):
        S.scenario(f'_estimate_eta_p(weighted={w})', lambda I, ob, w=w: eta(I, ob, w))
        S.scenario(f'_correct_leaders(weighted={w})', lambda I, ob, w=w: corr(I, ob, w))

    # ---- the transform
    def trans(I, ob, p, given, dim):
        wavelet_model(I)
        many, one, fam = pair_contracts(I, R, r0)
        calls = []
        if p is not None:
            leader_pair(I, many, one, fam, r0, calls)
        use(I, 'linreg')
        I.pc += [eq(app('LEN', ZERO), N), lt(0, div(ln(add(F, 1)), LN2)), implies(lt(0, ML), ge(N, mul(add(F, 1), app('G', ZERO)))), lt(r0, R)]
        outs = []
        fams = list(I.families)
        for k_ in (0, 1):
            I.families = [f for f in fams if (f if isinstance(f, Fin) else f.ap) is (one if k_ else many)]
            if k_ == 0:
                s = A((N, R), lambda k, r: app('S', k, r), I=I, label='signal')
            elif dim == 1:
                s = A((N,), lambda k: app('S', k, r0), I=I, label='signal')
            else:
                s = A((N, ONE), lambda k, _: app('S', k, r0), I=I, label='signal')
            pe = None if p is None else math.inf if p == 'inf' else Sc(var('pexp'), 'float')
            outs.append(I.call(I.get(WA), [s], {'p_exp': pe, 'wt_name': 'db3', 'j1': Sc(j1, 'int'), 'j2': Sc(var('J2'), 'int') if given else None,
                                                'gamint': Sc(var('gam'), 'float'), 'normalization': Sc(var('norm'), 'float')}))
        a, b = outs
        same_mrq(I, ob, 'coefficients', I.getattr(a, 'wt_coefs'), I.getattr(b, 'wt_coefs'), R, r0, [])
        ob('effective upper scale', eq(sc(I.force(I.getattr(a, 'j2_eff'))).t, sc(I.force(I.getattr(b, 'j2_eff'))).t))
        if p is None:
            ob('no leaders', const(I.getattr(a, 'wt_leaders') is None and I.getattr(b, 'wt_leaders') is None))
            return
        if p == 'p':
            if len(calls) != 2:
                raise Unsupported('the correction is not a single call of _correct_leaders')
            for c, o in zip(calls, outs):
                ob('corrected leaders returned', const(I.getattr(o, 'wt_leaders') is c['wt_leaders'] and I.getattr(o, 'wt_coefs') is c['wt_coefs']))
            for n_ in ('p_exp', 'j1', 'j2_eff', 'max_level'):
                ob(f'correction with the same {n_}', eq(sc(I.force(calls[0][n_])).t, sc(I.force(calls[1][n_])).t))
        same_mrq(I, ob, 'leaders', I.getattr(a, 'wt_leaders'), I.getattr(b, 'wt_leaders'), R, r0, [])
    for p in (None, 'inf', 'p'):
        for dim in (2, 1):
            S.scenario(f'wavelet_analysis(p_exp={p}{", one-dimensional alone" if dim == 1 else ""})', lambda I, ob, p=p, dim=dim: trans(I, ob, p, dim == 2, dim))
