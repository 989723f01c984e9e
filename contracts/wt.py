"""Specification of the wavelet transform: decimated filter bank, dyadic suprema and sums, retained scales."""
from pyvc.spec import *
from .common import *
from . import lemmas

WA = 'pymultifracs.wavelet:wavelet_analysis'
WMOD = 'pymultifracs.wavelet:'
for nm in ('N', 'Rn'):
    declare(nm, 'I', lo=1)
declare('F', 'I', lo=2)
declare('S', 'R', 2)
declare('SN', 'B', 2)
declare('hi', 'R', 1)
declare('lo', 'R', 1)
declare('LEN', 'I', 1, lo=0)
declare('AV', 'R', 3)
declare('AN', 'B', 3)
declare('SVV', 'R', 3, sign='0+')
declare('SVN', 'B', 3)
declare('G', 'I', 1, lo=1)
declare('gam', 'R')
declare('norm', 'R', sign='!')
declare('pexp', 'R', sign='+')
N, R, F = var('N'), var('Rn'), var('F')
ML = floor(div(ln(div(N, add(F, 1))), LN2))      # floor(log2(N / (F + 1)))
OFF = floor(div(sub(F, 1), TWO))
hi, lo = (lambda t: app('hi', t)), (lambda t: app('lo', t))


def pred(i):
    """i - 1 when i is visibly a successor"""
    p = to_poly(i)
    return sub(i, ONE) if p.get((), 0) >= 1 else None


def sig(k, r):
    return app('SN', k, r), app('S', k, r)


class Approx:
    """approximation at scale i: the signal filtered and decimated i times"""
    name = 'approximation'
    amp = None        # the run is on amp * signal: every approximation is amp times the one of the signal

    def __init__(self, R=R):
        self.R = R

    def len(self, i):
        i = lift(i)
        if i is ZERO:
            return N
        p = pred(i)
        return floor(div(self.len(p), TWO)) if p is not None else app('LEN', i)

    def elem(self, i, k, r):
        """(missing, value)"""
        i = lift(i)
        if i is ZERO:
            return sig(k, r)
        p = pred(i)
        if p is None:
            return app('AN', i, k, r), app('AV', i, k, r)
        return self.filtered(p, k, r, lo)

    def filtered(self, p, k, r, h):
        """convolution of approximation p with h, every second sample from 1; missing at the borders and next to missing samples"""
        c = add(mul(2, k), 1)
        n = self.len(p)
        pos = lambda t: sub(add(c, OFF), t)
        miss = or_(lt(c, sub(F, 1)), gt(c, sub(n, F)), bany(F, lambda t: self.elem(p, pos(t), r)[0]))
        return miss, bsum(F, lambda t: mul(h(t), self.elem(p, pos(t), r)[1]))

    def at(self, I, i):
        f = lambda k, r: (self.elem(i, k, r)[0], mul(self.amp, self.elem(i, k, r)[1]) if self.amp is not None else self.elem(i, k, r)[1])
        return A((self.len(i), self.R), f)

    def facts(self, I, i):
        """long enough while another scale follows"""
        return [implies(lt(i, ML), ge(self.len(i), mul(add(F, 1), self.G(i))))]

    def G(self, i):
        """2**(ML - i)"""
        I = lift(i)
        return app('G', i)

    def axioms(self, I, i):
        return [implies(lt(i, ML), eq(app('G', i), mul(2, app('G', add(i, 1)))))]


AP = Approx()


def scale_factor(j):
    return mul(power(TWO, mul(j, sub(div(ONE, TWO), inv(var('norm'))))), power(TWO, mul(var('gam'), j)))


def coef(i, k, r, ap=None):
    """wavelet coefficient at scale i + 1: (missing, value)"""
    m, v = (ap or AP).filtered(i, k, r, lambda t: neg(hi(t)))
    return m, mul(scale_factor(add(i, 1)), v)


class OpaqueApprox(Approx):
    """approximations by name only: filtering is used through its contract (proved on its body in C06)"""

    def elem(self, i, k, r):
        i = lift(i)
        return sig(k, r) if i is ZERO else (app('AN', i, k, r), app('AV', i, k, r))


OA = OpaqueApprox()
declare('DV', 'R', 3)
declare('DN', 'B', 3)


def ocoef(i, k, r, ap=None):
    """wavelet coefficient at scale i + 1, the filter bank output by name"""
    return app('DN', i, k, r), mul(scale_factor(add(i, 1)), app('DV', i, k, r))


FILT = WMOD + 'filtering'


def filtering_contract(I, args, kw):
    """filtering(approximation i, -hi, lo) = (detail i + 1, approximation i + 1); the body is executed for any other call"""
    d = dict(zip(['approx', 'high_filter', 'low_filter'], args))
    d.update(kw)
    if set(d) != {'approx', 'high_filter', 'low_filter'}:
        return NotImplemented
    a, h, l = (I.force(d[k]) for k in ('approx', 'high_filter', 'low_filter'))
    if not all(isinstance(x, Arr) and not x.masked() and x.ndim == 2 for x in (a, h, l)):
        return NotImplemented
    k, r = fresh('k', 'I', sign='0+'), fresh('r', 'I', sign='0+')
    for x, f in ((h, lambda t: neg(hi(t))), (l, lo)):
        m, v = x.at([k, ZERO])
        if not (I.entails(eq(x.shape[0], F)) and I.entails(eq(x.shape[1], ONE)) and m is FALSE and I.simp(eq(v, f(k))) is TRUE):
            return NotImplemented
    m, v = (I.simp(z) for z in a.at([k, r]))
    if v.op == 'app' and v.args[0] == 'S':
        i = ZERO
    elif v.op == 'app' and v.args[0] == 'AV':
        i = v.args[1]
    else:
        return NotImplemented
    mm, vv = OA.elem(i, k, r)
    if vv is not v or (mm is not m and I.simp(iff(m, mm)) is not TRUE) or not I.entails(eq(a.shape[0], OA.len(i))) or not I.entails(ge(a.shape[0], F)):
        return NotImplemented
    n2 = floor(div(OA.len(i), TWO))
    w = a.shape[1]
    det = mk((n2, w), lambda ix: (app('DN', i, ix[0], ix[1]), app('DV', i, ix[0], ix[1])), 'f')
    app_ = mk((n2, w), lambda ix: OA.elem(add(i, 1), ix[0], ix[1]), 'f')
    return PyList([det, app_], 'tuple')


class Dyadic:
    """sans_voisin at scale i: largest available |coefficient| (or weighted p-sum) over the dyadic subtree"""
    name = 'dyadic aggregate'

    def __init__(self, p=None, ap=None, coef=coef):
        self.p, self.ap, self.coef = p, ap or AP, coef

    def base(self, i, k, r):
        m, v = self.coef(i, k, r, self.ap)
        a = abs_(v)
        if self.p is not None:
            a = mul(power(TWO, add(i, 1)), power(a, self.p))
        return m, a

    def combine(self, es):
        miss = and_(*[m for m, v in es])
        if self.p is None:
            return miss, TM.bsmax([(None, not_(m), v) for m, v in es])
        return miss, add(*[mul(ind(not_(m)), v) for m, v in es])

    def elem(self, i, k, r):
        p = pred(i)
        if p is None:
            return app('SVN', i, k, r), app('SVV', i, k, r)
        b = self.base(p, k, r)
        c = self.combine([b, self.elem(p, mul(2, k), r), self.elem(p, add(mul(2, k), 1), r)])
        z = eq(p, ZERO)
        return ite(z, b[0], c[0]), ite(z, b[1], c[1])

    def at(self, I, i):
        i = lift(i)
        if i is ZERO:
            return None
        arr = A((self.ap.len(i), R), lambda k, r: self.elem(i, k, r))
        return arr if pred(i) is not None else I.merge(eq(i, ZERO), None, arr)

    def facts(self, I, i):
        return []

    def axioms(self, I, i):
        return []

    def leader(self, i, k, r):
        """scale i + 1, interior position k + 1, before the p-th root"""
        return self.combine([self.elem(add(i, 1), add(k, d), r) for d in range(3)])


def wavelet_model(I):
    cls = NTClass('Wavelet', ['dec_hi', 'dec_lo', 'dec_len', 'name'])

    def make(I_, a, kw):
        return NTInst(cls, [PyList([Seg(F, lambda t: Sc(hi(lift(t)), 'float'))], 'list'), PyList([Seg(F, lambda t: Sc(lo(lift(t)), 'float'))], 'list'),
                            Sc(F, 'int'), a[0] if a else kw.get('name')])
    I.contracts['ext:pywt.Wavelet'] = make


def signal(I, dim=2, missing=True, amp=None, one=None):
    mul_ = (lambda v: mul(amp, v)) if amp is not None else (lambda v: v)
    el = lambda k, r: (app('SN', k, r) if missing else FALSE, mul_(app('S', k, r)))
    if dim == 1:
        return A((N,), lambda k: el(k, ZERO), I=I, label='signal')
    return A((N, R), el, I=I, label='signal')


def setup(I, opaque=False, R=R):
    wavelet_model(I)
    I.families = [(OA if opaque else AP) if R is not ONE else (OpaqueApprox if opaque else Approx)(ONE)]
    if opaque:
        I.contracts[FILT] = filtering_contract
    use(I, 'linreg')
    # mathematical facts about floor(log2(N / (F + 1))) and 2**(ML - i)
    I.pc += [eq(app('LEN', ZERO), N), lt(0, div(ln(add(F, 1)), LN2)), implies(lt(0, ML), ge(N, mul(add(F, 1), app('G', ZERO))))]


def math_facts(S, *more):
    lemmas.facts(S, *lemmas.WT, *more)
    S.trusted.add('pywt.Wavelet: decomposition filters of equal length F >= 2, otherwise arbitrary')
    S.functions |= {WA} | {WMOD + f for f in ('filtering', '_decomposition_level', '_check_formalism')}


def entries(I, d):
    """[(key, value function, condition hypotheses)] of a dict of scales: every entry is visited"""
    out = []
    for lo_, n, fn, _ in d.segs:
        o = fresh('o', 'I', sign='0+')
        out.append((add(lo_, o), (lambda fn=fn, o=o: fn(o)), [lt(o, n)]))
    for k, v in d.items.items():
        out.append((sc(k).t if isnum(k) else lift(k), (lambda v=v: v), []))
    return out


def dict_range(I, ob, d, lab=''):
    """the keys are 1, 2, ..., n for some n; returns n"""
    nxt = ONE
    segs, items = list(d.segs), [sc(k).t if isnum(k) else lift(k) for k in d.items]
    while segs or items:
        for s in segs:
            if I.entails(eq(s[0], nxt)):
                nxt = I.simp2(add(nxt, s[1]))
                segs.remove(s)
                break
        else:
            for k in items:
                if I.entails(eq(k, nxt)):
                    nxt = add(nxt, 1)
                    items.remove(k)
                    break
            else:
                ob(lab + 'scales are one range from 1', FALSE)
                return None
    ob(lab + 'scales are one range from 1', TRUE)
    return sub(nxt, 1)


# ------------------------------------------------------------------ the leader stage by name only (C07 and C08 specify it)
declare('LV', 'R', 3, sign='0+')
declare('LN', 'B', 3)
declare('ETA', 'R', 1)
LEADERS, CORRECT = WMOD + '_compute_leaders', WMOD + '_correct_leaders'


class OpaqueSV:
    name = 'opaque dyadic aggregate'

    def __init__(self, ap):
        self.ap = ap

    def at(self, I, i):
        i = lift(i)
        if i is ZERO:
            return None
        arr = A((self.ap.len(i), R), lambda k, r: (app('SVN', i, k, r), app('SVV', i, k, r)))
        return arr if pred(i) is not None else I.merge(eq(i, ZERO), None, arr)

    def facts(self, I, i):
        return []

    def axioms(self, I, i):
        return []


def opaque_leaders(I, ap):
    """_compute_leaders returns some leaders of scale j, two fewer than coefficients, and some aggregate; nothing else is assumed"""
    def compute(I_, args, kw):
        d = dict(zip(['detail', 'sans_voisin', 'scale', 'formalism', 'p_exp'], args))
        d.update(kw)
        if set(d) != {'detail', 'sans_voisin', 'scale', 'formalism', 'p_exp'}:
            return NotImplemented
        det, sc_ = I.force(d['detail']), I.force(d['scale'])
        if not isinstance(det, Arr) or det.masked() or det.ndim != 2 or not isnum(sc_):
            return NotImplemented
        i = I.simp2(sub(sc(sc_).t, 1))
        n, w = det.shape
        L = mk((I.simp2(sub(n, 2)), w), lambda ix: (app('LN', i, ix[0], ix[1]), app('LV', i, ix[0], ix[1])), 'f')
        sv = mk((n, w), lambda ix: (app('SVN', add(i, 1), ix[0], ix[1]), app('SVV', add(i, 1), ix[0], ix[1])), 'f')
        return PyList([L, sv], 'tuple')

    def correct(I_, args, kw):
        names = ['wt_coefs', 'wt_leaders', 'p_exp', 'j1', 'j2_eff', 'weighted', 'max_level']
        d = dict(zip(names, args))
        d.update(kw)
        if set(d) != set(names):
            return NotImplemented
        return PyList([d['wt_leaders'], mk((R,), lambda ix: (FALSE, app('ETA', ix[0])), 'f')], 'tuple')
    I.contracts[LEADERS] = compute
    I.contracts[CORRECT] = correct
    I.families.append(OpaqueSV(ap))
