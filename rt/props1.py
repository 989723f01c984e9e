"""Run-time contracts C01 - C09, C14, C15."""
from .base import *

RT = {}


def prop(pid, weight=1.0):
    def f(cls):
        cls.pid = pid
        RT.setdefault(pid, []).append(cls)
        cls.weight = weight
        return cls
    return f


# ------------------------------------------------------------------ C01
@prop('C01')
class Regression:
    def gen(rng, i):
        n = int(rng.choice([2, 3, 4, 5, 6, 9, 17, 40]))
        R = int(rng.choice([1, 2, 3, 5]))
        x = np.sort(rng.choice(60, n, replace=False)).astype(float)[:, None] * np.ones((1, R))
        if rng.random() < .3:
            x = x[:, ::1] + rng.standard_normal((n, R)) * .3
        if rng.random() < .3:
            x = x[:, :1]
        kind = int(rng.integers(4))
        w = [rng.integers(1, 300, (n, R)), rng.uniform(.1, 5, (n, R)), np.ones((n, R)), rng.integers(1, 9, (n, R)) * 1.0][kind]
        y = rng.standard_normal((n, R)) * 10.0 ** rng.uniform(-2, 3)
        affine = rng.random() < .3
        if affine:
            y = 1.7 * x - .6 + 0 * y
        if rng.random() < .2:
            x = x.astype(int) if np.all(x == np.round(x)) else x
        return {'x': x, 'y': y, 'nj': w, 'affine': bool(affine)}

    def check(c):
        from pymultifracs.utils import linear_regression
        x, y, w = c['x'], c['y'], c['nj']
        a, b = linear_regression(x.copy(), y.copy(), w.copy())
        a3, b3, v = linear_regression(x.copy(), y.copy(), w.copy(), return_variance=True)
        ra, rb = wls(x + 0 * y, y, w)
        sc = np.abs(y).max() + 1
        close(a, ra, 'slope', scale=sc, rtol=1e-6)
        close(b, rb, 'intercept', scale=sc * (1 + np.abs(x).max()), rtol=1e-6)
        close(a3, ra, 'slope (with variance)', scale=sc, rtol=1e-6)
        close(b3, rb, 'intercept (with variance)', scale=sc * (1 + np.abs(x).max()), rtol=1e-6)
        xx = x + 0 * y
        xm = (w * xx).sum(0) / w.sum(0)
        close(v, 1 / (w * (xx - xm) ** 2).sum(0), 'slope variance', rtol=1e-6)
        if c['affine']:
            close(a, np.full(y.shape[1], 1.7), 'slope of affine data', rtol=1e-6, scale=sc)
        # minimality: perturbing the fit never decreases the weighted squared error
        def err(s, t):
            return (w * (y - s * xx - t) ** 2).sum(0)
        e0 = err(a, b)
        for d in (1e-3, -1e-3):
            need((err(a + d, b) >= e0 - 1e-9 * (1 + e0)).all() and (err(a, b + d) >= e0 - 1e-9 * (1 + e0)).all(),
                 'weighted squared error not minimal')


# ------------------------------------------------------------------ C02
@prop('C02')
class SF:
    def gen(rng, i):
        v = rand_mrq(rng)
        j1, j2 = rand_scales(rng, len(v))
        return {'vals': v, 'q': rand_q(rng, must=[2] if rng.random() < .5 else []), 'j1': j1, 'j2': j2,
                'weighted': bool(rng.integers(2)), 'gamint': float(rng.choice([0, .5, 1, -.25])),
                'formalism': str(rng.choice(['wavelet coef', 'wavelet leader', 'wavelet p-leader']))}

    def check(c):
        from pymultifracs.structurefunction import StructureFunction
        m = make_mrq(c['vals'], c['formalism'], c['gamint'])
        with quiet():
            s = StructureFunction(m, c['q'], c['j1'], c['j2'], c['weighted'])
        S, L, Z, B = ref_sf(c['vals'], c['q'], c['j1'], c['j2'], c['weighted'])
        close(s.values, S, 'S(j,q)', rtol=1e-7, atol=0)
        close(s.logvalues, L, 'log2 S(j,q)')
        mag = np.abs(L).max() + 1
        close(s.zeta, Z, 'zeta', scale=mag)
        close(s.intercept, B, 'intercept', scale=mag)
        q = np.asarray(c['q'], float)
        if (q == 2).any():
            i = int(np.argmax(q == 2))
            need(s.H is not None, 'H is None although 2 is among the exponents')
            close(s.H, Z[i] / 2 - c['gamint'], 'H', scale=mag)
        else:
            need(s.H is None, f'H = {s.H!r} although 2 is not among the exponents')
        ic = s.get_intercept()
        if (q == 2).any():
            need(ic is not None, 'no intercept although 2 is among the exponents')
            close(ic, B[int(np.argmax(q == 2))], 'intercept at q = 2', scale=mag)
        else:
            need(ic is None, f'intercept = {ic!r} although 2 is not among the exponents')
        n = ref_counts(c['vals'])
        for j in c['vals']:
            close(s.nj[j], n[j], f'nj[{j}]')
        close(s.j, np.array(sorted(c['vals'])), 'j')
        need(s.nrep == c['vals'][1].shape[1], 'nrep')


# ------------------------------------------------------------------ C03
def ref_cumul(vals, M):
    """(M, J, R) from the moments of log|X|: via exact recursion in extended precision of centred data"""
    js = sorted(vals)
    R = vals[js[0]].shape[1]
    out = np.zeros((M, len(js), R))
    mag = np.zeros((M, len(js), R))
    for a, j in enumerate(js):
        for r in range(R):
            col = vals[j][:, r]
            x = np.log(np.abs(col[~np.isnan(col)])).astype(np.longdouble)
            mu = x.mean()
            mom = [np.longdouble(1), np.longdouble(0)] + [((x - mu) ** k).mean() for k in range(2, M + 1)]
            kap = [None] * (M + 1)
            for m in range(1, M + 1):
                # moment = sum over the block containing a given element
                kap[m] = mom[m] - sum(math.comb(m - 1, n - 1) * kap[n] * mom[m - n] for n in range(1, m))
            kap[1] = mu
            for m in range(1, M + 1):
                out[m - 1, a, r] = kap[m]
                mag[m - 1, a, r] = np.abs(x).max() ** m * math.factorial(m)
    return out, mag


@prop('C03')
class Cum:
    def gen(rng, i):
        v = rand_mrq(rng)
        j1, j2 = rand_scales(rng, len(v))
        return {'vals': v, 'n_cumul': int(rng.choice([1, 2, 3, 3, 4, 5, 6, 9])), 'j1': j1, 'j2': j2,
                'weighted': bool(rng.integers(2)),
                'formalism': str(rng.choice(['wavelet coef', 'wavelet leader', 'wavelet p-leader']))}

    def check(c):
        from pymultifracs.cumulants import Cumulants
        m = make_mrq(c['vals'], c['formalism'])
        M = c['n_cumul']
        with quiet():
            k = Cumulants(m, M, c['j1'], c['j2'], c['weighted'])
        want, mag = ref_cumul(c['vals'], M)
        close(k.values, want, 'C_m(j)', scale=mag * 1e-3 * 2 ** (M - 3), rtol=1e-7)
        J1, J2 = c['j1'], c['j2']
        x = np.arange(J1, J2 + 1)[:, None] * np.ones((1, k.values.shape[2]))
        w = np.array([ref_counts(c['vals'])[j] for j in range(J1, J2 + 1)]) if c['weighted'] else np.ones_like(x)
        for i in range(M):
            a, b = wls(x, want[i, J1 - 1:J2], w)
            sc = mag[i].max() * 1e-3 * 2 ** (M - 3) + np.abs(want[i]).max()
            close(k.log_cumulants[i], a * np.log2(np.e), f'c_{i + 1}', scale=sc)
            got = getattr(k, f'c{i + 1}')
            close(np.asarray(got).reshape(-1), a * np.log2(np.e), f'accessor c{i + 1}', scale=sc)
            close(np.asarray(getattr(k, f'C{i + 1}')).reshape(want[i].shape), want[i], f'accessor C{i + 1}', scale=sc)
        if M >= 2:
            a, _ = wls(x, want[1, J1 - 1:J2], w)
            close(np.asarray(k.M).reshape(-1), -a * np.log2(np.e), 'accessor M', scale=np.abs(want[1]).max() + 1)
        close(k.m, np.arange(1, M + 1), 'm')
        close(k.j, np.array(sorted(c['vals'])), 'j')


# ------------------------------------------------------------------ C04
@prop('C04')
class Spec:
    def gen(rng, i):
        v = rand_mrq(rng)
        j1, j2 = rand_scales(rng, len(v))
        return {'vals': v, 'q': rand_q(rng, must=[0] if rng.random() < .5 else []), 'j1': j1, 'j2': j2,
                'weighted': bool(rng.integers(2)),
                'formalism': str(rng.choice(['wavelet coef', 'wavelet leader', 'wavelet p-leader']))}

    def check(c):
        from pymultifracs.mfspectrum import MultifractalSpectrum
        m = make_mrq(c['vals'], c['formalism'])
        with quiet():
            s = MultifractalSpectrum(m, c['j1'], c['j2'], c['weighted'], c['q'])
        vals, q = c['vals'], c['q']
        js = sorted(vals)
        R = vals[1].shape[1]
        U = np.zeros((len(js), len(q), R))
        V = U.copy()
        for a, j in enumerate(js):
            n = (~np.isnan(vals[j])).sum(0)
            for b, qq in enumerate(q):
                t = apow(vals[j], float(qq))
                with np.errstate(all='ignore'):
                    r = t / nsum(t)
                    V[a, b] = nsum(r * np.log2(np.abs(vals[j])))
                    U[a, b] = np.log2(n) + nsum(r * np.log2(np.where(r == 0, 1, r)))
        if not np.isfinite(U).all():
            raise Skip
        close(s.V, V, 'V(j,q)', scale=1)
        close(s.U, U, 'U(j,q)', scale=10)
        x = np.arange(c['j1'], c['j2'] + 1)[:, None] * np.ones((1, R))
        w = np.array([ref_counts(vals)[j] for j in range(c['j1'], c['j2'] + 1)]) if c['weighted'] else np.ones_like(x)
        for b, qq in enumerate(q):
            du, _ = wls(x, U[c['j1'] - 1:c['j2'], b], w)
            dv, _ = wls(x, V[c['j1'] - 1:c['j2'], b], w)
            close(s.Dq[b], 1 + du, f'D({qq})', scale=10)
            close(s.hq[b], dv, f'h({qq})', scale=10)
            if qq == 0:
                close(s.Dq[b], np.ones(R), 'D(0)', atol=1e-7)
        need(s.Dq.shape == (len(q), R) and s.hq.shape == (len(q), R), 'shape of Dq/hq')


# ------------------------------------------------------------------ C05
@prop('C05')
class Hmin:
    known = ()

    def gen(rng, i):
        v = rand_mrq(rng)
        j1, j2 = rand_scales(rng, len(v))
        c = {'vals': v, 'j1': j1, 'j2': j2, 'weighted': bool(rng.integers(2)),
             'gamint': float(rng.choice([0, .5, 1]))}
        k = rng.random()
        if k < .15:       # a slope of exactly zero
            for j in v:
                v[j] = np.sign(v[j]) * np.exp2(np.round(np.log2(np.abs(v[j])) - 30).clip(-60, -1))
                for r in range(v[j].shape[1]):
                    ok = np.flatnonzero(~np.isnan(v[j][:, r]))
                    v[j][ok[0], r] = 4.0
        elif k < .5:
            for j in v:
                v[j] = v[j] * 4.0 ** j
        return c

    def check(c):
        from pymultifracs.estimation import estimate_hmin, compute_hurst
        m = make_mrq(c['vals'], 'wavelet coef', c['gamint'])
        j1, j2 = c['j1'], c['j2']
        R = c['vals'][1].shape[1]
        y = np.array([[np.log2(np.abs(c['vals'][j][:, r])[~np.isnan(c['vals'][j][:, r])].max())
                       for r in range(R)] for j in range(j1, j2 + 1)])
        x = np.arange(j1, j2 + 1)[:, None] * np.ones((1, R))
        w = np.array([ref_counts(c['vals'])[j] for j in range(j1, j2 + 1)]) if c['weighted'] else np.ones_like(x)
        a, b = wls(x, y, w)
        mag = np.abs(y).max() + 1
        with quiet() as qu:
            h, i0 = estimate_hmin(m, j1, j2, c['weighted'])
        warned = len(qu.user())
        close(h, a, 'hmin', scale=mag)
        close(i0, b, 'hmin intercept', scale=mag)
        with quiet() as qu2:
            r = estimate_hmin(m, j1, j2, c['weighted'], warn=False, return_y=True)
        need(len(r) == 3, 'return_y does not return three values')
        close(r[0], a, 'hmin (return_y)', scale=mag)
        close(r[1], b, 'hmin intercept (return_y)', scale=mag)
        close(r[2], y, 'fitted ordinates')
        need(not qu2.user(), 'warning although warn=False')
        if (a > 1e-6).all():
            need(not warned, 'warning although every hmin is positive')
        hz, st, ly = compute_hurst(m, j1, j2, c['weighted'])
        S, L, Z, B = ref_sf(c['vals'], [2.0], j1, j2, c['weighted'])
        mag = np.abs(L).max() + 1
        close(hz, Z[0] / 2, 'Hurst', scale=mag)
        close(ly, L[0], 'log2 S(j,2)')
        close(st.logvalues, L, 'structure function of compute_hurst')
        close(st.zeta, Z, 'zeta of compute_hurst', scale=mag)
        need(warned or not ((a < -1e-6).any() and (h == 0).any()), 'no warning although an estimate is negative and one is zero')
        if (a < -1e-6).any() and not warned:
            return 'hmin<0 without exact zero: no warning (estimate_hmin, `0 in hmin`)'


# ------------------------------------------------------------------ C06 - C09
def run_wt(c, p='same'):
    from pymultifracs.wavelet import wavelet_analysis
    with quiet() as qu:
        r = wavelet_analysis(c['signal'].copy(), p_exp=c['p_exp'] if p == 'same' else p, wt_name=c['wt_name'],
                             j1=c['j1'], j2=c['j2'], gamint=c['gamint'], normalization=c['normalization'],
                             weighted=c['weighted'])
    return r, qu.user()


def ready(c):
    """reference values; Skip when the transform has too few scales for the requested regression"""
    if c['j1'] < 1:
        raise Skip
    coefs, leads, ml = ref_wavelet(c['signal'], c['p_exp'], c['wt_name'], c['gamint'], c['normalization'])
    p = c['p_exp']
    ret = len(coefs) if p is None else min(len(coefs), len(leads))
    eff = ret if c['j2'] is None else min(c['j2'], ret)
    if ret < 1:
        raise Skip
    if p is not None and not np.isinf(p) and eff < c['j1'] + 1:
        raise Skip
    return coefs, leads, ml, ret, eff


def mag_of(coefs):
    return max(np.nanmax(np.abs(v)) for v in coefs.values())


@prop('C06')
class Coefs:
    def gen(rng, i):
        return rand_wt_case(rng, big=i % 17 == 16)

    def check(c):
        coefs, leads, ml, ret, eff = ready(c)
        res, _ = run_wt(c)
        got = res.wt_coefs.values
        need(list(got) == list(range(1, len(got) + 1)), f'scales {list(got)} are not 1..J')
        need(set(range(1, ret + 1)) <= set(got) <= set(coefs), f'scales {list(got)}, expected 1..{ret}')
        for j in got:
            close(got[j], coefs[j], f'coefficients at scale {j}', scale=np.nanmax(np.abs(coefs[j])), rtol=1e-8,
                  atol=0)
            close(res.wt_coefs.nj[j], (~np.isnan(coefs[j])).sum(0), f'nj[{j}]')
        # independence of the formalism
        for p in (None, np.inf, 2):
            try:
                r2, _ = run_wt(c, p)
            except Exception:
                if p == 2:
                    continue     # p-leaders need enough scales for the regression
                raise
            for j in set(got) & set(r2.wt_coefs.values):
                close(r2.wt_coefs.values[j], got[j], f'coefficients at scale {j} for p_exp={p}', rtol=0, atol=0)


def ref_eta(coefs, p, j1, eff, weighted):
    n = max(coefs)
    return ref_sf({j: coefs[j] for j in range(1, max(eff, 1) + 1)}, [p], j1, eff, weighted)[2][0]


@prop('C07')
class Leaders:
    def gen(rng, i):
        return rand_wt_case(rng, leaders=1, big=i % 17 == 16)

    def check(c):
        coefs, leads, ml, ret, eff = ready(c)
        res, _ = run_wt(c)
        need(res.eta_p is None, 'eta_p')
        got = res.wt_leaders.values
        need(list(got) == list(range(1, ret + 1)), f'leader scales {list(got)}, expected 1..{ret}')
        for j in got:
            close(got[j], leads[j], f'leaders at scale {j}', scale=np.nanmax(leads[j]), rtol=1e-8, atol=0)
            close(res.wt_leaders.nj[j], (~np.isnan(leads[j])).sum(0), f'leader nj[{j}]')
        # brute force over dyadic intervals for one position
        rng = np.random.default_rng(len(c['signal']))
        d = res.wt_coefs.values
        j = int(rng.integers(1, ret + 1))
        k = int(rng.integers(0, len(got[j])))
        best = np.full(got[j].shape[1], -np.inf)
        for s in range(1, j + 1):
            # children of index i at scale j+1 are 2i, 2i+1 at scale j
            lo, hi = k * 2 ** (j - s), (k + 3) * 2 ** (j - s)
            seg = np.abs(d[s][lo:hi])
            seg = np.where(np.isnan(seg), -np.inf, seg)
            if len(seg):
                best = np.maximum(best, seg.max(0))
        best[best == -np.inf] = np.nan
        close(got[j][k], best, f'leader ({j},{k}) against the supremum', rtol=1e-9, atol=0)


@prop('C08')
class PLeaders:
    def gen(rng, i):
        c = rand_wt_case(rng, leaders=2, big=i % 17 == 16)
        if rng.random() < .3:
            c['gamint'] = 0.0
            c['signal'] = rng.standard_normal(c['signal'].shape)
        return c

    def check(c):
        coefs, leads, ml, ret, eff = ready(c)
        p = c['p_exp']
        res, warned = run_wt(c)
        eta = ref_eta(coefs, p, c['j1'], eff, c['weighted'])
        if np.isnan(eta).any() or np.abs(eta).min() < 1e-6:
            raise Skip
        close(res.eta_p, eta, 'eta(p)', rtol=1e-6, scale=10)
        got = res.wt_leaders.values
        need(list(got) == list(range(1, ret + 1)), f'p-leader scales {list(got)}, expected 1..{ret}')
        pos = eta.min() > 0
        w2 = [w for w in warned if 'j2 is higher' not in w]
        need(bool(w2) == (not pos), f'warnings {w2} with eta(p) = {eta}')
        for j in got:
            f = ((1 - 2.0 ** (-j * eta)) / (1 - 2.0 ** -eta)) ** (-1 / p) if pos else 1.0
            close(got[j], leads[j] * f, f'p-leaders at scale {j}', scale=np.nanmax(leads[j] * f) * 1e-3, rtol=1e-6,
                  atol=0)
            close(res.wt_leaders.nj[j], (~np.isnan(leads[j])).sum(0), f'p-leader nj[{j}]')


@prop('C09')
class Scales:
    def gen(rng, i):
        c = rand_wt_case(rng, big=i % 17 == 16)
        c['j2'] = [None, 1, 2, 3, 4, 5, 6, 8, 10, 12, 30][int(rng.integers(11))]
        if rng.random() < .3:
            # long gap: early stop in one realisation
            x = c['signal'] if c['signal'].ndim == 2 else c['signal'][:, None]
            n = len(x)
            a = int(rng.integers(0, n))
            x[a:a + int(rng.integers(1, n)), int(rng.integers(x.shape[1]))] = np.nan
        if rng.random() < .3:
            lo, _ = filters(c['wt_name'])
            n = (len(lo) + 1) * 2 ** int(rng.integers(1, 6)) + int(rng.integers(-1, 2))
            c['signal'] = rand_signal(rng, n, None)
        return c

    def check(c):
        coefs, leads, ml, ret, eff = ready(c)
        lo, _ = filters(c['wt_name'])
        res, warned = run_wt(c)
        need(res.j2_eff == eff and isinstance(res.j2_eff, int), f'j2_eff = {res.j2_eff!r}, expected {eff}')
        got = list(res.wt_coefs.values)
        need(got == list(range(1, len(got) + 1)) and ret <= len(got) <= len(coefs), f'coefficient scales {got}, expected 1..{ret}')
        need(len(got) <= ml, 'scale above the limit')
        if c['p_exp'] is not None:
            need(list(res.wt_leaders.values) == list(range(1, ret + 1)), f'leader scales {list(res.wt_leaders.values)}, expected 1..{ret}')
        else:
            need(res.wt_leaders is None, 'leaders without p_exp')
        for j in range(1, eff + 1):
            need(res.wt_coefs.nj[j].min() >= 3, 'fewer than three coefficients at a retained scale')
            if c['p_exp'] is not None:
                need(res.wt_leaders.nj[j].min() >= 3, 'fewer than three leaders at a retained scale')
        w = [s for s in warned if 'j2' in s]
        need(bool(w) == (c['j2'] is not None and c['j2'] > ml), f'warnings {w} with j2 = {c["j2"]}, limit {ml}')


@prop('C09')
class Level:
    weight = .2

    def gen(rng, i):
        return {'N': int(2 ** rng.uniform(4, 16)), 'wt': WAVES[int(rng.integers(len(WAVES)))]}

    def check(c):
        from pymultifracs.wavelet import decomposition_level
        lo, _ = filters(c['wt'])
        if c['N'] < len(lo) + 1:
            raise Skip
        got = decomposition_level(c['N'], c['wt'])
        need(got == max_level(c['N'], len(lo)), f'decomposition_level({c["N"]}, {c["wt"]}) = {got}')


# ------------------------------------------------------------------ C14
@prop('C14')
class Scale:
    def gen(rng, i):
        sf = float(rng.choice([1, 2, 100, 500, 1000, 44100, 256])) if rng.random() < .5 else float(10 ** rng.uniform(-3, 5))
        s = float(rng.uniform(-5, 20)) if rng.random() < .5 else int(rng.integers(-3, 20))
        f1, f2 = sorted(10 ** rng.uniform(-4, 4, 2))
        return {'sfreq': sf if rng.random() < .7 else int(sf) + 1, 'scale': s, 'freq': float(10 ** rng.uniform(-6, 5)), 'band': (float(f1), float(f2)),
                'arr': rng.uniform(-3, 20, int(rng.integers(1, 5))) if rng.random() < .6 else rng.integers(-3, 20, int(rng.integers(1, 5)))}

    def check(c):
        from pymultifracs.utils import scale2freq, freq2scale, fband2scale
        sf = c['sfreq']
        close(scale2freq(c['scale'], sf), .75 * sf * 2.0 ** -c['scale'], 'scale2freq', atol=0)
        close(freq2scale(scale2freq(c['scale'], sf), sf), c['scale'], 'scale -> freq -> scale')
        close(scale2freq(freq2scale(c['freq'], sf), sf), c['freq'], 'freq -> scale -> freq', atol=0)
        close(freq2scale(c['freq'], sf), np.log2(.75 * sf / c['freq']), 'freq2scale')
        close(freq2scale(scale2freq(c['arr'], sf), sf), c['arr'], 'scale -> freq -> scale (array)')
        f1, f2 = c['band']
        lo, hi = np.log2(.75 * sf / f2), np.log2(.75 * sf / f1)
        if min(abs(lo - round(lo)), abs(hi - round(hi))) > 1e-9:
            got = fband2scale((f1, f2), sf)
            need(tuple(got) == (math.ceil(lo), math.floor(hi)) and all(isinstance(v, int) for v in got),
                 f'fband2scale = {got}, expected {(math.ceil(lo), math.floor(hi))}')
        # closed band: band edges that are exactly representable scale frequencies
        a, b = 1, 4
        s2 = 2.0 ** 10
        got = fband2scale((3 * 2.0 ** (8 - b), 3 * 2.0 ** (8 - a)), s2)
        need(tuple(got) == (a, b), f'closed band: {got}')


# ------------------------------------------------------------------ C15
@prop('C15')
class QLog:
    def gen(rng, i):
        k = rng.random()
        lo, hi = 10 ** rng.uniform(-3, 1), 10 ** rng.uniform(-1, 1.5)
        if k < .2:
            lo, hi = [(1, 5), (.5, 2), (1, 2), (2, 1), (.01, 1), (1, 1), (2, 2), (.5, 4)][int(rng.integers(8))]
        elif k < .35:           # tiny, huge and nearly equal bounds
            lo, hi = 10 ** rng.uniform(-30, 5), 10 ** rng.uniform(-20, 30)
            if rng.random() < .3:
                hi = lo * (1 + 10 ** rng.uniform(-7, -3))
        if k > .85:
            lo, hi = [(0, 1), (1, 0), (-1, 2), (1, -2), (-1, -1), (0, 0), (-.5, 3.)][int(rng.integers(7))]
        return {'a': lo if rng.random() < .5 else float(lo), 'b': hi, 'n': int(rng.integers(1, 9))}

    def check(c):
        from pymultifracs.utils import build_q_log
        a, b, n = c['a'], c['b'], c['n']
        if a <= 0 or b <= 0:
            try:
                build_q_log(a, b, n)
            except ValueError:
                return
            raise Fail(f'build_q_log({a}, {b}, {n}) does not raise ValueError')
        q = build_q_log(a, b, n)
        need(isinstance(q, np.ndarray) and q.ndim == 1, 'not a vector')
        need((np.diff(q) > 0).all(), 'not strictly increasing')
        need(set(q.tolist()) == set((-q).tolist()), 'not symmetric')
        want = [0.0, 1.0, 2.0] + [a * (b / a) ** (k / (n - 1)) if n > 1 else a for k in range(n)]
        pos = q[q >= 0]
        for v in pos:
            need(min(abs(v - w) for w in want) <= 1e-9 * abs(v), f"unexpected exponent {v}")
        for w in want:
            need(np.abs(pos - w).min() <= 1e-9 * w, f'missing exponent {w}')
        for w in (0.0, 1.0, 2.0):
            need((q == w).any(), f'missing exponent {w}')
