"""Run-time contracts C10 - C13, C16 - C18."""
from .base import *
from .props1 import prop, RT, ready, run_wt, ref_eta


def same_obj(a, b, what, rtol=0, atol=0):
    """structural equality of results (exact by default)"""
    if a is None or b is None:
        need(a is None and b is None, f'{what}: {type(a).__name__} against {type(b).__name__}')
        return
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        close(a, b, what, rtol=rtol, atol=atol)
        return
    if isinstance(a, tuple) and hasattr(a, '_fields'):
        need(type(a).__name__ == type(b).__name__, f'{what}: {type(a)} against {type(b)}')
        for f in a._fields:
            same_obj(getattr(a, f), getattr(b, f), f'{what}.{f}', rtol, atol)
        return
    if isinstance(a, (tuple, list)):
        need(isinstance(b, (tuple, list)) and len(a) == len(b), f'{what}: length')
        for i, (u, v) in enumerate(zip(a, b)):
            same_obj(u, v, f'{what}[{i}]', rtol, atol)
        return
    if isinstance(a, dict):
        need(list(a) == list(b), f'{what}: keys {list(a)} against {list(b)}')
        for k in a:
            same_obj(a[k], b[k], f'{what}[{k}]', rtol, atol)
        return
    if type(a).__module__.startswith('pymultifracs'):
        need(type(a).__name__ == type(b).__name__, f'{what}: {type(a)} against {type(b)}')
        da, db = vars(a), vars(b)
        pub = [k for k in da if not k.startswith('_')]
        for k in pub:
            need(k in db, f'{what}.{k} missing')
            same_obj(da[k], db[k], f'{what}.{k}', rtol, atol)
        return
    if isinstance(a, (int, float, np.generic)) and isinstance(b, (int, float, np.generic)):
        close(a, b, what, rtol=rtol, atol=atol)
        return
    need(a == b, f'{what}: {a!r} against {b!r}')


def mf_case(rng, leaders=None, big=False, nan_ok=True):
    c = rand_wt_case(rng, leaders, big, nan_ok)
    c['j1'] = int(rng.choice([1, 1, 2]))
    c['n_cumul'] = int(rng.choice([1, 2, 3, 3, 4]))
    k = rng.random()
    c['q'] = None if k < .2 else ([2], [1, 2], [0, 1, 2.0], [-1, .5, 3])[int(rng.integers(4))] if k < .5 else rand_q(rng, lists=True)
    return c


def mf_ready(c):
    coefs, leads, ml, ret, eff = ready(c)
    if eff < c['j1'] + 1:
        raise Skip
    p = c['p_exp']
    if p is not None and not np.isinf(p):
        eta = ref_eta(coefs, p, c['j1'], eff, c['weighted'])
        if np.isnan(eta).any() or np.abs(eta).min() < 1e-6:
            raise Skip
    return coefs, leads, ml, ret, eff


WT_KEYS = ('p_exp', 'wt_name', 'j1', 'j2', 'gamint', 'normalization', 'weighted')


@prop('C10')
class Compose:
    def gen(rng, i):
        c = mf_case(rng, big=i % 17 == 16)
        if rng.random() < .1:
            c['signal'] = c['signal'] * 1e6
        return c

    def check(c):
        from pymultifracs.mfa import mf_analysis, mf_analysis_full, minimal_mf_analysis
        from pymultifracs.wavelet import wavelet_analysis
        from pymultifracs.structurefunction import StructureFunction
        from pymultifracs.cumulants import Cumulants
        from pymultifracs.mfspectrum import MultifractalSpectrum
        from pymultifracs.estimation import estimate_hmin
        mf_ready(c)
        kw = {k: c[k] for k in WT_KEYS}
        with quiet():
            full = mf_analysis_full(c['signal'].copy(), q=c['q'], n_cumul=c['n_cumul'], **kw)
            mini = mf_analysis_full(c['signal'].copy(), q=c['q'], n_cumul=c['n_cumul'], minimal=True, **kw)
            wt = wavelet_analysis(c['signal'].copy(), **kw)
            two = mf_analysis(wt.wt_coefs, wt.wt_leaders, wt.j2_eff, c['j1'], c['weighted'], c['n_cumul'], c['q'])
            mini2 = minimal_mf_analysis(wt.wt_coefs, wt.wt_leaders, wt.j2_eff, c['j1'], c['weighted'], c['n_cumul'], c['q'])
            q = np.array([2] if c['q'] is None else c['q'])
            j1, j2, w = c['j1'], wt.j2_eff, c['weighted']
            need((wt.wt_leaders is None) == (c['p_exp'] is None), 'leaders present/absent')
            for name, mrq in (('dwt', wt.wt_coefs), ('lwt', wt.wt_leaders)):
                for lab, res in (('one call', full), ('mf_analysis', two)):
                    part = getattr(res, name)
                    if mrq is None:
                        need(part is None, f'{lab}: {name} is not None without leaders')
                        continue
                    need(part is not None, f'{lab}: {name} is None')
                    same_obj(part.structure, StructureFunction(mrq, q, j1, j2, w), f'{lab} {name}.structure')
                    same_obj(part.cumulants, Cumulants(mrq, c['n_cumul'], j1, j2, w), f'{lab} {name}.cumulants')
                    same_obj(part.spectrum, MultifractalSpectrum(mrq, j1, j2, w, q), f'{lab} {name}.spectrum')
                    same_obj(part.hmin, estimate_hmin(mrq, j1, j2, w)[0], f'{lab} {name}.hmin')
            for lab, res in (('minimal', mini), ('minimal (two stages)', mini2)):
                same_obj(res.dwt.structure, full.dwt.structure, f'{lab} dwt.structure')
                if wt.wt_leaders is None:
                    need(res.lwt is None, f'{lab}: lwt is not None')
                else:
                    same_obj(res.lwt.cumulants, full.lwt.cumulants, f'{lab} lwt.cumulants')


def column(o, r, R):
    """restriction of a result to realisation r (last axis)"""
    if isinstance(o, np.ndarray):
        return o[..., r:r + 1] if o.ndim and o.shape[-1] == R else o
    return o


@prop('C11')
class Columns:
    def gen(rng, i):
        c = mf_case(rng, nan_ok=False)
        R = int(rng.choice([2, 3, 5]))
        N = len(c['signal'])
        c['signal'] = rand_signal(rng, N, R) * 10.0 ** rng.uniform(-3, 3, R)
        return c

    def check(c):
        from pymultifracs.mfa import mf_analysis
        coefs, leads, ml, ret, eff = mf_ready(c)
        p = c['p_exp']
        if p is not None and not np.isinf(p):
            if (ref_eta(coefs, p, c['j1'], eff, c['weighted']) <= 0).any():
                raise Skip
        R = c['signal'].shape[1]

        def go(sig):
            wt, _ = run_wt({**c, 'signal': sig})
            with quiet():
                mf = mf_analysis(wt.wt_coefs, wt.wt_leaders, wt.j2_eff, c['j1'], c['weighted'], c['n_cumul'], c['q'])
            return wt, mf
        wt, mf = go(c['signal'])
        for r in range(R):
            one = go(c['signal'][:, r:r + 1] if r else c['signal'][:, r])
            need(one[0].j2_eff == wt.j2_eff, 'j2_eff')
            cmp_columns(wt, one[0], r, R, 'transform')
            cmp_columns(mf, one[1], r, R, 'analysis')


def cmp_columns(a, b, r, R, what):
    """a: result for R realisations, b: result for realisation r alone"""
    if a is None or b is None:
        need(a is None and b is None, f'{what}: None mismatch')
    elif isinstance(a, np.ndarray):
        if a.shape[-1:] == (R,) and b.shape == a.shape[:-1] + (1,):
            sc = np.nanmax(np.abs(b)) if b.size and not np.isnan(b).all() else 0
            close(a[..., r:r + 1], b, f'{what} [realisation {r}]', rtol=1e-8, atol=1e-10, scale=sc)
        else:
            close(a, b, what)
    elif isinstance(a, tuple) and hasattr(a, '_fields'):
        for f in a._fields:
            cmp_columns(getattr(a, f), getattr(b, f), r, R, f'{what}.{f}')
    elif isinstance(a, dict):
        need(list(a) == list(b), f'{what}: keys')
        for k in a:
            cmp_columns(a[k], b[k], r, R, f'{what}[{k}]')
    elif type(a).__module__.startswith('pymultifracs'):
        for k, v in vars(a).items():
            if k not in ('nrep',) and not k.startswith('_'):
                cmp_columns(v, vars(b).get(k), r, R, f'{what}.{k}')


@prop('C11')
class ColumnsMRQ:
    """estimators on arbitrary quantities, with different missing values per realisation"""
    def gen(rng, i):
        v = rand_mrq(rng, nrep=int(rng.choice([2, 3, 4])))
        j1, j2 = rand_scales(rng, len(v))
        return {'vals': v, 'q': rand_q(rng), 'n_cumul': int(rng.choice([1, 2, 3, 4])), 'j1': j1, 'j2': j2,
                'weighted': bool(rng.integers(2))}

    def check(c):
        from pymultifracs.mfa import mf_analysis
        R = c['vals'][1].shape[1]

        def go(v):
            m = make_mrq(v, 'wavelet coef')
            with quiet():
                return mf_analysis(m, make_mrq(v, 'wavelet leader'), c['j2'], c['j1'], c['weighted'], c['n_cumul'], c['q'])
        a = go(c['vals'])
        for r in range(R):
            cmp_columns(a, go({j: v[:, r:r + 1] for j, v in c['vals'].items()}), r, R, 'analysis')


@prop('C12')
class Amplitude:
    def gen(rng, i):
        c = mf_case(rng)
        c['lam'] = float(rng.choice([-1, 1])) * float(10 ** rng.uniform(-3, 3))
        if rng.random() < .3:
            c['lam'] = float(rng.choice([-1, 2, .5, -2, 1e-6, 1e6]))
        elif rng.random() < .3:
            # extreme units; exponents kept moderate so that powers stay representable
            c['lam'] = float(rng.choice([-1, 1])) * float(10 ** (rng.choice([-1, 1]) * rng.uniform(9, 28)))
            if c['q'] is not None:
                c['q'] = [float(x) for x in np.clip(np.asarray(c['q'], float), -4, 4)]
        return c

    def check(c):
        from pymultifracs.mfa import mf_analysis
        mf_ready(c)
        lam = c['lam']
        la = abs(lam)

        def go(sig):
            wt, w = run_wt({**c, 'signal': sig})
            with quiet():
                mf = mf_analysis(wt.wt_coefs, wt.wt_leaders, wt.j2_eff, c['j1'], c['weighted'], c['n_cumul'], c['q'])
            return wt, mf
        (wa, a), (wb, b) = go(c['signal']), go(lam * c['signal'])
        need(wa.j2_eff == wb.j2_eff and list(wa.wt_coefs.values) == list(wb.wt_coefs.values), 'scales')
        for j, v in wa.wt_coefs.values.items():
            close(wb.wt_coefs.values[j], lam * v, f'coefficients at scale {j}', scale=la * np.nanmax(np.abs(v)), rtol=1e-8, atol=0)
        if wa.wt_leaders is not None:
            for j, v in wa.wt_leaders.values.items():
                close(wb.wt_leaders.values[j], la * v, f'leaders at scale {j}', rtol=1e-6, atol=0)
        q = np.asarray([2] if c['q'] is None else c['q'], float)
        for part in ('dwt', 'lwt'):
            u, v = getattr(a, part), getattr(b, part)
            if u is None:
                need(v is None, part)
                continue
            t = dict(rtol=1e-6, atol=1e-7)
            close(v.structure.logvalues, u.structure.logvalues + q[:, None, None] * np.log2(la), f'{part} log2 S', scale=100, **t)
            close(v.structure.zeta, u.structure.zeta, f'{part} zeta', scale=100, **t)
            if u.structure.H is not None:
                close(v.structure.H, u.structure.H, f'{part} H', scale=100, **t)
            mx = (np.nanmax(np.abs(np.log(np.abs(wa.wt_coefs.values[1])))) + abs(np.log(la)) + 1)
            for m in range(c['n_cumul']):
                close(v.cumulants.values[m], u.cumulants.values[m] + (np.log(la) if m == 0 else 0), f'{part} C{m + 1}',
                      scale=mx ** (m + 1), rtol=1e-9, atol=1e-8)
                close(v.cumulants.log_cumulants[m], u.cumulants.log_cumulants[m], f'{part} c{m + 1}',
                      scale=mx ** (m + 1), rtol=1e-9, atol=1e-7)
            if np.isfinite(u.spectrum.U).all():
                for f in ('U', 'Dq', 'hq'):
                    close(getattr(v.spectrum, f), getattr(u.spectrum, f), f'{part} {f}', scale=100, **t)
            close(v.hmin, u.hmin, f'{part} hmin', scale=100, **t)


@prop('C13')
class Frame:
    def gen(rng, i):
        c = mf_case(rng)
        c['which'] = int(rng.integers(6))
        return c

    def check(c):
        from pymultifracs import mfa, wavelet, psd, fractal_analysis, utils
        from pymultifracs.structurefunction import StructureFunction
        from pymultifracs.cumulants import Cumulants
        from pymultifracs.mfspectrum import MultifractalSpectrum
        from pymultifracs.estimation import estimate_hmin, compute_hurst
        from pymultifracs.bivariate import bivariate_analysis
        mf_ready(c)
        kw = {k: c[k] for k in WT_KEYS}

        def frame(what, fn, *args, **k):
            before = [snapshot(a) for a in args] + [snapshot(v) for v in k.values()]
            with quiet():
                try:
                    r1 = fn(*args, **k)
                except Exception as e:      # the frame also holds on exceptional exit
                    r1 = e
            after = [snapshot(a) for a in args] + [snapshot(v) for v in k.values()]
            names = list(range(len(args))) + list(k)
            for n, b, a in zip(names, before, after):
                need(a == b, f'{what}: argument {n} was modified')
            if isinstance(r1, Exception):
                raise r1
            return r1

        def twice(what, fn, *args, **k):
            s1 = snapshot(frame(what, fn, *args, **k))
            s2 = snapshot(frame(what, fn, *args, **k))
            need(s1 == s2, f'{what}: repeating the call gives a different result')
        sig = c['signal'].copy()
        wt = frame('wavelet_analysis', wavelet.wavelet_analysis, sig, **kw)
        twice('wavelet_analysis', wavelet.wavelet_analysis, sig, **kw)
        need(not any(np.shares_memory(v, sig) for v in wt.wt_coefs.values.values()), 'coefficients share the signal')
        q = c['q'] if c['q'] is not None else None
        twice('mf_analysis_full', mfa.mf_analysis_full, sig, q=q, n_cumul=c['n_cumul'], **kw)
        twice('mf_analysis', mfa.mf_analysis, wt.wt_coefs, wt.wt_leaders, wt.j2_eff, c['j1'], c['weighted'], c['n_cumul'], q)
        twice('minimal_mf_analysis', mfa.minimal_mf_analysis, wt.wt_coefs, wt.wt_leaders, wt.j2_eff, c['j1'], c['weighted'], c['n_cumul'], q)
        qa = np.array([2] if q is None else q)
        for m in (wt.wt_coefs, wt.wt_leaders):
            if m is None:
                continue
            twice('StructureFunction', StructureFunction, m, qa, c['j1'], wt.j2_eff, c['weighted'])
            twice('Cumulants', Cumulants, m, c['n_cumul'], c['j1'], wt.j2_eff, c['weighted'])
            twice('MultifractalSpectrum', MultifractalSpectrum, m, c['j1'], wt.j2_eff, c['weighted'], qa)
            twice('estimate_hmin', estimate_hmin, m, c['j1'], wt.j2_eff, c['weighted'])
            twice('compute_hurst', compute_hurst, m, c['j1'], wt.j2_eff, c['weighted'])
        x = np.arange(4.)[:, None] * np.ones((1, 2))
        y = np.sin(x + np.arange(2))
        twice('linear_regression', utils.linear_regression, x, y, 1 + x, return_variance=True)
        for e in (0, 1, 2, .5, -1, 3, -2, 1.5):
            a = np.abs(sig.copy()) + .1
            twice(f'fast_power({e})', utils.fast_power, a, e)
        a = np.array([[1., np.nan], [np.nan, np.nan]])
        twice('fixednansum', utils.fixednansum, a, axis=0)
        twice('fixednanmax', utils.fixednanmax, a, axis=0)
        s1 = sig if sig.ndim == 1 else sig[:, 0].copy()
        s1 = np.nan_to_num(s1)
        twice('wavelet_estimation', psd.wavelet_estimation, s1, 10.0, 2)
        if len(s1) >= 64:
            twice('welch_estimation', psd.welch_estimation, s1, 10.0, n_fft=64)
        f = np.linspace(0, 5, 40)
        pw = 1 / (1 + f)
        twice('estimate_beta', fractal_analysis.estimate_beta, f, pw, freq_band=(0.01, 2))
        twice('fractal_analysis', fractal_analysis.fractal_analysis, s1, 10.0, freq_band=(0.01, 5))
        if sig.ndim == 1 or sig.shape[1] == 1:
            sb = -sig[::1] * 2 + .3
            wt2 = wavelet.wavelet_analysis(sb, **kw)
            qq = np.array([0, 1, 2])
            if all((np.isnan(u) == np.isnan(v)).all() for u, v in zip(wt.wt_coefs.values.values(), wt2.wt_coefs.values.values())):
                twice('bivariate_analysis', bivariate_analysis, wt, wt2, c['j1'], c['weighted'], c['n_cumul'] + 1, qq, qq)


# ------------------------------------------------------------------ C16
@prop('C16')
class WaveletPSD:
    def gen(rng, i):
        N = int(2 ** rng.uniform(6, 12))
        R = [None, None, 1, 2][int(rng.integers(4))]
        return {'signal': rand_signal(rng, N, R, nan=rng.random() < .15), 'fs': float(rng.choice([1, 100, 250.5, 1000])) if rng.random() < .7 else 128,
                'n_moments': int(rng.integers(1, 9)), 'j2': [None, 3, 5, 10][int(rng.integers(4))]}

    def check(c):
        from pymultifracs.psd import wavelet_estimation
        lo, hi = filters(f'db{c["n_moments"]}')
        coefs, _, ml = ref_wavelet(c['signal'], None, f'db{c["n_moments"]}', .5, 1)
        if not coefs:
            raise Skip
        with quiet():
            r = wavelet_estimation(c['signal'].copy(), c['fs'], c['n_moments'], c['j2'])
        J = max(coefs)
        want = np.array([nmean(coefs[j] ** 2) for j in range(1, J + 1)])
        n = len(r.psd)
        need(n == J, f'{n} scales, expected {J}')
        close(r.psd, want, 'wavelet PSD', rtol=1e-7, atol=0, scale=None)
        close(r.freq, .75 * c['fs'] / 2.0 ** np.arange(1, J + 1), 'wavelet PSD frequencies', atol=0)


@prop('C16')
class WelchPSD:
    def gen(rng, i):
        nfft = int(rng.choice([16, 32, 64, 128, 100, 33, 255, 5]))
        seg = [None, nfft, nfft // 2, 2 * nfft, 48, 31][int(rng.integers(6))]
        N = int(max(nfft, seg or nfft) * rng.uniform(1, 6))
        if i % 40 == 7:         # segments of realistic size
            nfft, seg = [(4096, None), (4096, 8192), (8192, 4096), (1024, 6000), (16384, 16384)][int(rng.integers(5))]
            N = int((seg or nfft) * rng.uniform(2, 3.4))
        return {'signal': rand_signal(rng, N) + float(rng.choice([0, 5.])), 'fs': float(rng.choice([1, 100, 250.5])), 'n_fft': nfft, 'seg': seg}

    def check(c):
        from pymultifracs.psd import welch_estimation
        with quiet():
            r = welch_estimation(c['signal'].copy(), c['fs'], n_fft=c['n_fft'], seg_size=c['seg'])
        seg = c['n_fft'] if c['seg'] is None else c['seg']
        nfft = max(c['n_fft'], seg)
        k = np.arange(seg)
        win = .54 - .46 * np.cos(2 * np.pi * k / seg)
        st = seg - int(seg / 2)
        x = c['signal']
        acc = []
        for a in range(0, len(x) - seg + 1, st):
            s = x[a:a + seg] * win
            acc.append(np.abs(np.exp(-2j * np.pi * np.outer(np.arange(nfft // 2 + 1), k) / nfft) @ s if nfft < 1000 else np.fft.rfft(s, nfft)) ** 2)
        p = np.mean(acc, 0) / (2 * np.pi * (win ** 2).sum())
        p[1:] *= 2
        if nfft % 2 == 0:
            p[-1] /= 2
        close(r.psd, 4 * p, 'Welch PSD', rtol=1e-6, atol=0, scale=p.max() * 1e-3)
        close(r.freq, np.arange(nfft // 2 + 1) * c['fs'] / nfft, 'Welch frequencies')


# ------------------------------------------------------------------ C17
@prop('C17')
class Beta:
    def gen(rng, i):
        n = int(rng.integers(5, 60))
        f = rng.permutation(np.unique(np.round(10 ** rng.uniform(-3, 1, n), 6)))
        if rng.random() < .5:
            f = np.sort(f)[::int(rng.choice([1, -1]))]
        if rng.random() < .4:
            f = np.concatenate([[0.], f])
        a, b = np.sort(f[f > 0])[[len(f[f > 0]) // 4, -1 - len(f[f > 0]) // 5]] if len(f) > 5 else (f.min(), f.max())
        k = rng.random()
        band = (float(a), float(b)) if k < .5 else (0.0, float(b)) if k < .7 else (float(a * .99), 1e9) if k < .9 else (-1.0, float(b))
        psd = 10 ** rng.uniform(-6, 3, len(f))
        law = rng.random() < .4
        C, e = float(10 ** rng.uniform(-3, 3)), float(rng.uniform(-3, 1))
        if law:
            psd = C * np.where(f > 0, f, 1) ** e
        return {'freq': f, 'psd': psd, 'band': band, 'log': str(rng.choice(['log2', 'log'])), 'law': (C, e) if law else None}

    def check(c):
        from pymultifracs.fractal_analysis import estimate_beta
        f, p = c['freq'], c['psd']
        k = (f > 0) & (f >= c['band'][0]) & (f <= c['band'][1])
        if k.sum() < 2 or np.ptp(f[k]) == 0:
            raise Skip
        lg = {'log2': np.log2, 'log': np.log}[c['log']]
        x, y = lg(f[k]), lg(p[k])
        a = ((x - x.mean()) * (y - y.mean())).sum() / ((x - x.mean()) ** 2).sum()
        b = y.mean() - a * x.mean()
        r = estimate_beta(f.copy(), p.copy(), freq_band=c['band'], log=c['log'])
        sc = np.abs(y).max() + 1
        close(r.beta, a, 'slope', rtol=1e-6, scale=sc)
        close(r.log_C, b, 'log C', rtol=1e-6, scale=sc * (1 + np.abs(x).max()))
        close(np.asarray(r.freq).ravel(), x, 'log frequencies')
        if c['law']:
            close(r.beta, c['law'][1], 'slope of a power law', rtol=1e-6, scale=10)
            close(r.log_C, lg(c['law'][0]), 'log C of a power law', rtol=1e-6, scale=10)


@prop('C17')
class Fractal:
    weight = .2

    def gen(rng, i):
        return {'signal': rand_signal(rng, int(2 ** rng.uniform(7, 12))), 'fs': float(rng.choice([1, 100, 250.5])), 'n_moments': int(rng.integers(1, 5)),
                'cut': [float(x) for x in rng.random(2)], 'log': str(rng.choice(['log2', 'log'])), 'dflt': bool(rng.random() < .2)}

    def check(c):
        from pymultifracs.fractal_analysis import fractal_analysis
        nm = 2 if c['dflt'] else c['n_moments']
        coefs, _, ml = ref_wavelet(c['signal'], None, f'db{nm}', .5, 1)
        if len(coefs) < 2:
            raise Skip
        p = np.array([nmean(coefs[j] ** 2).item() for j in sorted(coefs)])
        f = .75 * c['fs'] / 2.0 ** np.array(sorted(coefs))
        a, b = sorted(f.min() * .7 * (f.max() / f.min() * 2) ** x for x in c['cut'])
        if c['dflt']:
            a, b = .01, 2
        k = (f >= a) & (f <= b)
        if k.sum() < 2 or (p <= 0).any():
            raise Skip
        lg = np.log2 if c['dflt'] else {'log2': np.log2, 'log': np.log}[c['log']]
        x, y = lg(f[k]), lg(p[k])
        s = ((x - x.mean()) * (y - y.mean())).sum() / ((x - x.mean()) ** 2).sum()
        with quiet():
            r = fractal_analysis(c['signal'].copy(), c['fs']) if c['dflt'] else \
                fractal_analysis(c['signal'].copy(), c['fs'], n_moments=nm, freq_band=(a, b), log=c['log'])
        sc = np.abs(y).max() + 1
        close(np.asarray(r.beta).ravel(), [s], 'slope of the signal', rtol=1e-6, scale=sc)
        close(np.asarray(r.log_C).ravel(), [y.mean() - s * x.mean()], 'log C of the signal', rtol=1e-6, scale=sc * (1 + np.abs(x).max()))
        close(np.asarray(r.freq).ravel(), x, 'log frequencies of the signal')


# ------------------------------------------------------------------ C18
def sess_steps(rng):
    """a random history over a small pool of parameters, so that results are often reusable"""
    pool_wt = []
    for _ in range(2):
        pool_wt.append(dict(j1=int(rng.choice([1, 2])), j2=int(rng.choice([4, 5, 6])), normalization=int(rng.choice([1, 2])),
                            gamint=float(rng.choice([0, .5, 1.5])), weighted=bool(rng.integers(2)),
                            wt_name=str(rng.choice(['db2', 'db3'])), p_exp=[None, np.inf, 2][int(rng.integers(3))]))
    # a variant differing in exactly one parameter
    v = dict(pool_wt[0])
    k = list(v)[int(rng.integers(len(v)))]
    v[k] = {'j1': 3 - v['j1'], 'j2': v['j2'] - 1 if v['j2'] > 4 else 5, 'normalization': 3 - v['normalization'], 'gamint': v['gamint'] + 1,
            'weighted': not v['weighted'], 'wt_name': 'db4', 'p_exp': np.inf if v['p_exp'] is None else None}[k]
    pool_wt.append(v)
    qs = [None, [2], [1, 2], np.array([1, 2]), np.array([1, 2, 3]), np.array([2.0, 1.0]), [0, 2]]
    steps = []
    foc = rng.random()          # some histories exercise one cached stage only, where reuse is decided by few parameters
    for _ in range(int(rng.integers(3, 10))):
        k = rng.random()
        if foc < .15:
            k = .6 + .1 * k
        elif foc < .3:
            k = .7 + .1 * k
        elif foc < .45:
            k = [.1, .3, .3, .3][int(rng.integers(4))]
        elif foc < .55:
            k = [.65, .85][int(rng.integers(2))]
        if k < .25:
            steps.append(('wavelet_analysis', dict(pool_wt[int(rng.integers(3))])))
        elif k < .5:
            steps.append(('mf_analysis', {'q': qs[1 + int(rng.integers(6))], 'n_cumul': int(rng.choice([2, 3])), 'save': bool(rng.random() < .7)}))
        elif k < .6:
            steps.append(('mf_analysis_full', {**pool_wt[int(rng.integers(3))], 'q': qs[int(rng.integers(7))], 'n_cumul': int(rng.choice([2, 3])), 'save': bool(rng.random() < .7)}))
        elif k < .7:
            steps.append(('estimate_wavelet_psd', {'n_moments': int(rng.choice([1, 2, 3])), 'j2': [None, 3, 5][int(rng.integers(3))]}))
        elif k < .8:
            steps.append(('estimate_welch_psd', {'n_fft': int(rng.choice([32, 64])), 'seg_size': [None, 32, 16, 64][int(rng.integers(4))]}))
        elif k < .9:
            steps.append(('fractal_analysis', {'n_moments': int(rng.choice([1, 2, 3])), 'freq_band': [(0.01, 2), (0.5, 20), (0.1, 40)][int(rng.integers(3))]}))
        elif k < .95:
            steps.append(('hurst', {}))
        else:
            steps.append(('hmin', {}))
    if rng.random() < .25:      # a refused call, asked again
        bad = [('estimate_wavelet_psd', {'n_moments': 99, 'j2': None}), ('estimate_welch_psd', {'n_fft': 64, 'seg_size': 0}),
               ('wavelet_analysis', {**pool_wt[0], 'wt_name': 'none'})][int(rng.integers(3))]
        at = int(rng.integers(len(steps) + 1))
        steps[at:at] = [bad, bad]
    return steps


@prop('C18')
class Session:
    def gen(rng, i):
        N = int(rng.choice([256, 300, 512]))
        return {'signal': np.cumsum(rng.standard_normal(N)), 'fs': float(rng.choice([10., 100.])), 'log': str(rng.choice(['log2', 'log'])), 'steps': sess_steps(rng),
                'alias': bool(rng.random() < .4)}

    def check(c):
        from pymultifracs.signal import Signal
        from pymultifracs.wavelet import wavelet_analysis
        from pymultifracs.mfa import mf_analysis
        from pymultifracs.psd import wavelet_estimation, welch_estimation
        from pymultifracs.fractal_analysis import estimate_beta
        from pymultifracs.estimation import compute_hurst, estimate_hmin
        data = c['signal'].copy()
        keep = data.copy()
        s = Signal(data, c['fs'], c['log'])
        cur = None
        memo = {}
        buf = np.zeros(2)

        def fresh_wt(p):
            k = repr(sorted(p.items()))
            if k not in memo:
                memo[k] = wavelet_analysis(keep.copy(), **p)
            return memo[k]

        def fresh_mf(p, q, n):
            w = fresh_wt(p)
            return mf_analysis(w.wt_coefs, w.wt_leaders, w.j2_eff, p['j1'], p['weighted'], n, q)
        for t, (name, kw) in enumerate(c['steps']):
            what = f'step {t} {name}({kw})'
            with quiet():
                kw = {k: (v.copy() if isinstance(v, (np.ndarray, list)) else v) for k, v in kw.items()}
                if c.get('alias') and isinstance(kw.get('q'), np.ndarray) and len(kw['q']) == 2:
                    buf[:] = kw['q']        # the caller reuses one array for its exponents
                    kw['q'] = buf
                needwt = name in ('mf_analysis', 'hurst', 'hmin')
                if needwt and cur == 'failed':
                    continue
                if needwt and cur is None:
                    try:
                        getattr(s, name)(**kw)
                    except AttributeError:
                        continue
                    raise Fail(f'{what}: no AttributeError before any wavelet analysis')
                def alone(cur):
                    if name == 'wavelet_analysis':
                        return fresh_wt(kw), kw
                    if name == 'mf_analysis':
                        return fresh_mf(cur, kw['q'], kw['n_cumul']), cur
                    if name == 'mf_analysis_full':
                        cur = {k: v for k, v in kw.items() if k not in ('q', 'n_cumul', 'save')}
                        return fresh_mf(cur, kw['q'], kw['n_cumul']), cur
                    if name == 'estimate_wavelet_psd':
                        return wavelet_estimation(keep.copy(), c['fs'], kw['n_moments'], kw['j2']), cur
                    if name == 'estimate_welch_psd':
                        return welch_estimation(keep.copy(), c['fs'], kw['n_fft'], kw['seg_size']), cur
                    if name == 'fractal_analysis':
                        w = wavelet_estimation(keep.copy(), c['fs'], kw['n_moments'])
                        return estimate_beta(w.freq, w.psd, log=c['log'], freq_band=kw['freq_band']), cur
                    w = fresh_wt(cur)
                    f = compute_hurst if name == 'hurst' else estimate_hmin
                    return f(w.wt_coefs, cur['j1'], w.j2_eff, cur['weighted']), cur
                try:
                    want, cur = alone(cur)
                except Exception as e:
                    try:
                        getattr(s, name)(**kw)
                    except type(e):
                        if name in ('wavelet_analysis', 'mf_analysis_full'):
                            cur = 'failed'      # which transform a failed call leaves behind is not specified
                        continue
                    raise Fail(f'{what}: the stand-alone call raises {type(e).__name__}, the session does not')
                got = getattr(s, name)(**kw)
            same_obj(got, want, what)
            need(np.array_equal(data, keep) and s.data is data or np.array_equal(s.data, keep), f'{what}: stored data changed')
            need(s.fs == c['fs'] and s.log == c['log'], f'{what}: session settings changed')
