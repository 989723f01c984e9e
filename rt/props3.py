"""Run-time contracts C19 - C24."""
from .base import *
from .props1 import prop, RT


def cov_fgn(N, H, sigma, dt):
    k = np.arange(N, dtype=float)
    return dt ** (2 * H) * sigma ** 2 / 2 * ((k + 1) ** (2 * H) + np.abs(k - 1) ** (2 * H) - 2 * k ** (2 * H))


def toep(c):
    i = np.arange(len(c))
    return c[np.abs(i[:, None] - i[None, :])]


def lin_map(fn, N, method, R):
    """matrix of the linear map noise -> output, from basis noises spread over the columns of z0"""
    cols = []
    if method == 'cme':
        M = 2 * N - 2
        basis = [v * u for u in (1, 1j) for v in np.eye(M, dtype=complex)]
    else:
        basis = list(np.eye(N))
    for a in range(0, len(basis), R):
        blk = basis[a:a + R]
        z = np.zeros((len(basis[0]), R), dtype=basis[0].dtype)
        for i, b in enumerate(blk):
            z[:, i] = b
        out = fn(z)
        if out.shape != (N, R):
            raise Fail(f'output shape {out.shape}, expected {(N, R)}')
        cols += [out[:, i] for i in range(len(blk))]
    return np.array(cols).T


@prop('C19')
class FGN:
    def gen(rng, i):
        return {'N': int(rng.integers(3, 33)), 'R': int(rng.choice([1, 2, 3, 7])), 'H': float(rng.choice([.5, .3, .7, .95, .05])) if rng.random() < .5 else float(rng.uniform(.01, .99)),
                'sigma': float(rng.choice([1, 2, .3])), 'dt': [None, 1.0, .25, 2][int(rng.integers(4))], 'method': str(rng.choice(['cme', 'chol'])), 'seed': int(rng.integers(1 << 30)),
                'Hint': [None, None, None, 1][int(rng.integers(4))]}

    def check(c):
        from pymultifracs.simul import fgn, fbm
        N, R, m = c['N'], c['R'], c['method']
        H = c['H'] if c['Hint'] is None or m == 'chol' else c['Hint']
        want = cov_fgn(N, H, c['sigma'], c['dt'] or 1 / N)
        with quiet():
            def f(z):
                return fgn((N, R), H, c['sigma'], c['dt'], method=m, z0=z.copy())
            A = lin_map(f, N, m, R)
            close(A @ A.T, toep(want), 'covariance', rtol=1e-8, scale=want[0], atol=0)
            rng = np.random.default_rng(c['seed'])
            M = 2 * N - 2
            z = rng.standard_normal((M, R)) + 1j * rng.standard_normal((M, R)) if m == 'cme' else rng.standard_normal((N, R))
            x = f(z)
            zz = np.concatenate([z.real, z.imag]) if m == 'cme' else z
            close(x, A @ zz, 'linear function of the noise', scale=np.abs(x).max(), rtol=1e-8)
            close(f(z), x, 'determinism for a given noise', rtol=0, atol=0)
            y = fbm((N, R), H, c['sigma'], c['dt'], method=m, z0=z.copy())
            close(y, np.cumsum(x, 0), 'fbm', scale=np.abs(x).sum(), rtol=1e-10)
            x1 = fgn(N, H, c['sigma'], c['dt'], method=m, z0=z[:, :1].copy())
            close(x1, x[:, 0], 'integer shape', rtol=1e-10, scale=np.abs(x).max())
            y1 = fbm(N, H, sigma=c['sigma'], dt=c['dt'], method=m, z0=z[:, :1].copy())
            close(y1, np.cumsum(x[:, 0]), 'fbm, integer shape', scale=np.abs(x).sum(), rtol=1e-10)
            need(fgn((N, R), H).shape == (N, R) and fgn(N, H).shape == (N,), 'shape')
            need(fbm((N, 1), H).shape == (N, 1), 'shape (N, 1)')
            for bad in (-.01, 1.01, 2, -3, 1.0000001):
                for g in (fgn, fbm):
                    try:
                        g((N, R), bad)
                    except ValueError:
                        continue
                    raise Fail(f'{g.__name__} with H = {bad}: no ValueError')
            try:
                fgn((N, R), H, method='abc')
                raise Fail('unknown method: no ValueError')
            except ValueError:
                pass
            # edge values of H are accepted
            for ok in (0, 1, 0.0, 1.0):
                need(fgn((N, R), ok).shape == (N, R), 'H in {0, 1}')


@prop('C19', .05)
class FGNNoise:
    """default noise: standard and independent across realisations (statistical, 6 sigma)"""
    def gen(rng, i):
        return {'N': int(rng.integers(3, 9)), 'H': float(rng.choice([.5, .8, .2])), 'method': str(rng.choice(['cme', 'chol'])), 'seed': int(rng.integers(1 << 30))}

    def check(c):
        from pymultifracs.simul import fgn
        np.random.seed(c['seed'] & 0x7fffffff)
        N, K = c['N'], 20000
        x = fgn((N, K), c['H'], method=c['method'])
        want = toep(cov_fgn(N, c['H'], 1, 1 / N))
        got = x @ x.T / K
        tol = 6.5 * np.sqrt((want ** 2 + want[0, 0] ** 2) / K)
        need((np.abs(got - want) < tol).all(), 'empirical covariance of the default noise')
        cross = x[:, 0::2] @ x[:, 1::2].T / (K / 2)
        need((np.abs(cross) < 6.5 * want[0, 0] * np.sqrt(2 / K)).all(), 'realisations are correlated')
        need((np.abs(x.mean(1)) < 6.5 * np.sqrt(want[0, 0] / K)).all(), 'mean')


@prop('C20')
class MRW:
    def gen(rng, i):
        N = int(rng.integers(4, 25))
        return {'N': N, 'R': int(rng.choice([1, 2, 5])), 'H': float(rng.uniform(.05, .95)), 'lam': float(rng.choice([0, .05, .2, .5, 1.2])), 'L': int(rng.integers(1, N + 1)) if rng.random() < .7 else float(rng.uniform(1, N)),
                'sigma': float(rng.choice([1, 2, .5])), 'method': str(rng.choice(['cme', 'chol'])), 'seed': int(rng.integers(1 << 30))}

    def check(c):
        from pymultifracs.simul import mrw, fgn, fbm, mrw_cumul
        N, R, m, lam, L, H, sg = (c[k] for k in ('N', 'R', 'method', 'lam', 'L', 'H', 'sigma'))
        kmax = int(L)
        cov = np.zeros(N)
        cov[:kmax] = lam ** 2 * np.log(L / (np.arange(kmax) + 1))
        if m == 'cme':
            if np.fft.fft(np.concatenate([cov, cov[1:-1][::-1]])).real.min() < -1e-12:
                m = 'chol'
        if m == 'chol' and lam == 0:
            m = 'cme'
        if m == 'chol' and np.linalg.eigvalsh(toep(cov)).min() < 1e-8:
            raise Skip
        rng = np.random.default_rng(c['seed'])
        M = 2 * N - 2

        def noise(R):
            if m == 'cme':
                return rng.standard_normal((M, R)) + 1j * rng.standard_normal((M, R))
            return rng.standard_normal((N, R))
        with quiet():
            ze = noise(R)
            e = fgn((N, R), H, sg, method=m, z0=ze.copy())
            if np.abs(e).min() < 1e-9:
                raise Skip

            def w_of(zw):
                x = mrw((N, R), H, lam, L, sg, method=m, z0=(ze.copy(), zw.copy()))
                need(x.shape == (N, R), f'shape {x.shape}')
                inc = np.diff(np.concatenate([np.zeros((1, R)), x]), axis=0)
                r = inc / e
                need((r > 0).all(), 'increments are not the noise times a positive factor')
                return np.log(r)
            off = -lam ** 2 * np.log(L) / 2
            A = lin_map(lambda z: w_of(z) - off, N, m, R)
            P = np.eye(N) - 1 / N
            close(A @ A.T, P @ toep(cov) @ P, 'covariance of the centred log-volatility', scale=1 + lam ** 2, rtol=1e-6)
            zw = noise(R)
            w = w_of(zw)
            zz = np.concatenate([zw.real, zw.imag]) if m == 'cme' else zw
            close(w, A @ zz + off, 'log-volatility as an affine function of its noise', scale=1, rtol=1e-6)
            close(w.mean(0), np.full(R, off), 'centring per realisation', rtol=1e-6, scale=1)
            x = mrw((N, R), H, lam, L, sigma=sg, method=m, z0=(ze.copy(), zw.copy()))
            close(x, np.cumsum(e * np.exp(w), 0), 'cumulative sum', rtol=1e-6, scale=np.abs(e * np.exp(w)).sum())
            x1 = mrw(N, H, lam, L, sg, method=m, z0=(ze[:, :1].copy(), zw[:, :1].copy()))
            close(x1, x[:, 0], 'integer shape', rtol=1e-8, scale=np.abs(x).max())
            if m == 'cme':
                x0 = mrw((N, R), H, 0, L, sigma=sg, method=m, z0=(ze.copy(), zw.copy()))
                close(x0, fbm((N, R), H, sg, method=m, z0=ze.copy()), 'lam = 0 is fbm', rtol=1e-8, scale=np.abs(x0).max())
            c2 = -lam ** 2
            c1 = H - c2
            y = mrw_cumul((N, R), c1, c2, L, sigma=sg, method=m, z0=(ze.copy(), zw.copy()))
            close(y, x, 'mrw_cumul', rtol=1e-6, scale=np.abs(x).max())
            need(mrw((N, R), H, .1, L).shape == (N, R) and mrw(N, H, .1, L).shape == (N,), 'shape')
            for a in ((-.1, .1, L, 'cme'), (1.1, .1, L, 'cme'), (H, .1, N + 1, 'cme'), (H, .1, N + .5, 'cme'), (H, .1, L, 'abc')):
                try:
                    mrw((N, R), a[0], a[1], a[2], method=a[3])
                except ValueError:
                    continue
                raise Fail(f'mrw with H, lam, L, method = {a}: no ValueError')


@prop('C20', .05)
class MRWNoise:
    """default noise: e and w independent"""
    def gen(rng, i):
        return {'N': int(rng.integers(6, 12)), 'seed': int(rng.integers(1 << 30))}

    def check(c):
        from pymultifracs.simul import mrw
        N, K, lam, L, H = c['N'], 20000, .3, c['N'] // 2, .5
        np.random.seed(c['seed'] & 0x7fffffff)
        with quiet():
            x = mrw((N, K), H, lam, L)
        inc = np.diff(np.concatenate([np.zeros((1, K)), x]), axis=0)
        # E[inc] = 0 and E[sign] = 0 when e and w are independent; log|inc| correlation = cov of w (H = 1/2)
        z = np.log(np.abs(inc))
        cov = np.zeros(N)
        cov[:L] = lam ** 2 * np.log(L / (np.arange(L) + 1))
        P = np.eye(N) - 1 / N
        want = P @ toep(cov) @ P + np.eye(N) * np.pi ** 2 / 8
        got = np.cov(z)
        need((np.abs(got - want) < 7 * 3.0 / np.sqrt(K)).all(), 'empirical covariance of the log increments')
        need((np.abs(inc.mean(1)) < 7 * inc.std(1) / np.sqrt(K)).all(), 'mean of the increments')
        sgn = np.sign(inc)
        cr = np.array([[np.corrcoef(sgn[a], z[b])[0, 1] for b in range(N)] for a in range(N)])
        need((np.abs(cr) < 7 / np.sqrt(K)).all(), 'sign of e correlated with w')


# ------------------------------------------------------------------ C21
def bi_case(rng):
    v1 = rand_mrq(rng, nrep=1)
    v2 = {}
    for j, a in v1.items():
        b = rng.standard_normal(a.shape) * 2.0 ** (.3 * j) + .5 * np.nan_to_num(a)
        b[np.abs(b) < 1e-3] = -.41
        b[np.isnan(a)] = np.nan
        v2[j] = b
    j1, j2 = rand_scales(rng, len(v1))
    return v1, v2, j1, j2


@prop('C21')
class Bivariate:
    def gen(rng, i):
        v1, v2, j1, j2 = bi_case(rng)
        qs = []
        for _ in range(2):
            q = [0, 1, 2] + [[.5], [], [3, -1], [1.5]][int(rng.integers(4))]
            q = [q[t] for t in rng.permutation(len(q))]
            qs.append(np.array(q, float) if any(x != int(x) for x in q) or rng.random() < .5 else np.array(q))
        c = {'v1': v1, 'v2': v2, 'j1': j1, 'e1': j2, 'e2': min(len(v1), j2 + int(rng.integers(0, 3))), 'q1': qs[0], 'q2': qs[1], 'n_cumul': int(rng.choice([2, 2, 3, 4])),
             'weighted': bool(rng.integers(2)), 'lead': [int(rng.integers(2)), int(rng.integers(2))] if rng.random() < .4 else [1, 1]}
        if rng.random() < .5:
            c['e1'], c['e2'] = c['e2'], c['e1']
        return c

    def check(c):
        from pymultifracs.wavelet import WaveletTransform
        from pymultifracs.bivariate import bivariate_analysis
        la, lb = c['lead']
        W = []
        for v, l, e in ((c['v1'], la, c['e1']), (c['v2'], lb, c['e2'])):
            W.append(WaveletTransform(make_mrq(v, 'wavelet coef'), make_mrq({j: np.abs(a) * 1.5 for j, a in v.items()}, 'wavelet leader') if l else None, e, None))
        j1, j2 = c['j1'], min(c['e1'], c['e2'])
        with quiet():
            r = bivariate_analysis(W[0], W[1], j1, c['weighted'], c['n_cumul'], c['q1'], c['q2'])
            t = bivariate_analysis(W[1], W[0], j1, c['weighted'], c['n_cumul'], c['q2'], c['q1'])
        need((r.lwt is None) == (not (la and lb)), 'leader part present/absent')
        for part, f in (('dwt', 1.0), ('lwt', 1.5)):
            p, s = getattr(r, part), getattr(t, part)
            if p is None:
                continue
            self_check(c, p, f, j1, j2, part)
            for nm in ('logvalues', 'zeta', 'intercept'):
                close(getattr(s.structure, nm), np.swapaxes(getattr(p.structure, nm), 0, 1), f'{part} exchange: structure.{nm}', rtol=1e-7, atol=1e-8)
            for nm in ('values', 'log_cumulants', 'slope', 'intercept'):
                a, b = getattr(s.cumulants, nm), np.swapaxes(getattr(p.cumulants, nm), 0, 1)
                close(a, b, f'{part} exchange: cumulants.{nm}', rtol=1e-6, atol=1e-7, scale=10.0 ** c['n_cumul'])


def self_check(c, p, f, j1, j2, part):
    js = sorted(c['v1'])
    x = np.arange(j1, j2 + 1)[:, None] * 1.0
    w = np.array([(~np.isnan(c['v1'][j])).sum(0) for j in range(j1, j2 + 1)]) * 1.0 if c['weighted'] else np.ones_like(x)
    A = {j: (np.abs(c['v1'][j][:, 0]) * f) for j in js}
    B = {j: (np.abs(c['v2'][j][:, 0]) * f) for j in js}
    ok = {j: ~np.isnan(A[j]) for j in js}
    nq = (len(c['q1']), len(c['q2']))
    L = np.array([[[np.log2(np.mean(A[j][ok[j]] ** float(a) * B[j][ok[j]] ** float(b))) for j in js] for b in c['q2']] for a in c['q1']])
    close(p.structure.logvalues, L, f'{part} joint structure function', scale=1)
    for a in range(nq[0]):
        for b in range(nq[1]):
            s, i = wls(x, L[a, b, j1 - 1:j2][:, None], w)
            close(p.structure.zeta[a, b], s[0], f'{part} joint exponent', scale=np.abs(L[a, b]).max() + 1)
            close(p.structure.intercept[a, b], i[0], f'{part} joint intercept', scale=np.abs(L[a, b]).max() + 1)
    from .props1 import ref_cumul
    M = c['n_cumul']
    k1, m1 = ref_cumul({j: A[j][:, None] for j in js}, M)
    k2, m2 = ref_cumul({j: B[j][:, None] for j in js}, M)
    V = p.cumulants.values
    need(V.shape == (M + 1, M + 1, len(js)), f'{part} cumulant table shape {V.shape}')
    k11 = np.array([np.mean((np.log(A[j][ok[j]]) - np.log(A[j][ok[j]]).mean()) * (np.log(B[j][ok[j]]) - np.log(B[j][ok[j]]).mean())) for j in js])
    exp = {(1, 1): (k11, np.full(len(js), m1[:2].max() + m2[:2].max()))}
    for m in range(1, M + 1):
        exp[(m, 0)] = (k1[m - 1, :, 0], m1[m - 1, :, 0])
        exp[(0, m)] = (k2[m - 1, :, 0], m2[m - 1, :, 0])
    lc = {}
    for (a, b), (k, mg) in exp.items():
        sc = mg.max() * 1e-3 * 2 ** M + 1
        close(V[a, b], k, f'{part} C{a}{b}(j)', scale=sc)
        s, i = wls(x, k[j1 - 1:j2][:, None], w)
        lc[(a, b)] = s[0] * np.log2(np.e)
        close(p.cumulants.log_cumulants[a, b], lc[(a, b)], f'{part} c{a}{b}', scale=sc)
        close(np.asarray(getattr(p.cumulants, f'c{a}{b}')).reshape(-1)[0], lc[(a, b)], f'{part} accessor c{a}{b}', scale=sc)
        close(np.asarray(getattr(p.cumulants, f'C{a}{b}')).reshape(-1), k, f'{part} accessor C{a}{b}', scale=sc)
    if part == 'lwt':
        d = lc[(0, 2)] * lc[(2, 0)]
        if d > 1e-6:
            close(np.asarray(p.cumulants.rho_mf).reshape(-1)[0], -lc[(1, 1)] / abs(np.sqrt(d)), 'rho_mf', rtol=1e-5, scale=10)


@prop('C22')
class Legendre:
    def gen(rng, i):
        v1, v2, j1, j2 = bi_case(rng)
        c20, c02 = -rng.uniform(.01, 1, 2)
        c11 = rng.uniform(-.9, .9) * np.sqrt(c20 * c02) if rng.random() < .8 else rng.uniform(-3, 3)
        lo, hi = np.sort(rng.uniform(-1, 2, 2))
        k = rng.random()
        return {'v1': v1, 'v2': v2, 'j1': j1, 'j2': j2, 'n': int(rng.choice([2, 2, 3])), 'c': [float(t) for t in (rng.uniform(.2, 1.2), rng.uniform(.2, 1.2), c20, c02, c11)],
                'h': None if k < .2 else (float(lo), float(hi)) if k < .8 else (0, 1), 'res': None if k < .1 else int(rng.choice([2, 3, 7, 12]))}

    def check(c):
        from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
        with quiet():
            b = BiCumulants(make_mrq(c['v1'], 'wavelet leader'), make_mrq(c['v2'], 'wavelet leader'), c['n'], c['j1'], c['j2'], True)
        c10, c01, c20, c02, c11 = c['c']
        D = c20 * c02 - c11 ** 2
        if abs(D) < 1e-3:
            raise Skip
        b.log_cumulants[1, 0], b.log_cumulants[0, 1], b.log_cumulants[2, 0], b.log_cumulants[0, 2], b.log_cumulants[1, 1] = c10, c01, c20, c02, c11

        def want(h1, h2):
            return 1 + (c02 * (h1 - c10) ** 2 + c20 * (h2 - c01) ** 2 - 2 * c11 * (h1 - c10) * (h2 - c01)) / (2 * D)
        kw = {}
        if c['h'] is not None:
            kw['h_support'] = c['h']
        if c['res'] is not None:
            kw['resolution'] = c['res']
        res = c['res'] or 100
        h, L = b.compute_legendre(**kw)
        hs = np.linspace(*(c['h'] or (0, 1.5)), res)
        close(h, hs, 'grid')
        W = want(hs[:, None], hs[None, :])
        close(L, W, 'joint spectrum', scale=np.abs(W).max())
        if c10 < c01:
            h, L = b.compute_legendre((c10, c01), 2)
            close(L[0, 1], 1.0, 'value at (c10, c01)', scale=np.abs(L).max())


@prop('C23')
class Container:
    weight = .5

    def gen(rng, i):
        R = int(rng.integers(1, 4))
        steps = []
        for _ in range(int(rng.integers(1, 9))):
            j = int(rng.integers(1, 8)) if rng.random() < .5 else len({s[0] for s in steps}) + 1
            x = rng.normal(size=(int(rng.integers(0 if rng.random() < .1 else 1, 12)), R))
            x[rng.random(x.shape) < rng.choice([0, .2, .7])] = np.nan
            if rng.random() < .15 and len(x):
                x[:, int(rng.integers(R))] = np.nan
            if rng.random() < .1 and len(x):
                x[int(rng.integers(len(x)))] = rng.choice([np.inf, 0, -np.inf])
            steps.append((j, x))
        return {'steps': steps, 'form': str(rng.choice(['wavelet coef', 'wavelet leader', 'wavelet p-leader'])), 'gamint': float(rng.normal()),
                'via': bool(rng.integers(2)), 'bad': str(rng.choice(['wavelet', 'Wavelet coef', 'wavelet leaders', '']))}

    def check(c):
        from pymultifracs.multiresquantity import MultiResolutionQuantity as M
        mk = lambda: M.from_dict({'formalism': c['form'], 'gamint': c['gamint'], 'n_cumul': 3, 'values': None}) if c['via'] else M(c['form'], c['gamint'])
        m, other = mk(), mk()
        need(m.formalism == c['form'] and m.gamint == c['gamint'], 'formalism or integration order')
        need(m.values == {} and m.nj == {}, 'a new container is not empty')
        for s in ('n_cumul', 'nosuch'):
            try:
                getattr(m, s)
            except AttributeError:
                continue
            raise Fail(f'attribute {s} exists')
        try:
            M(c['bad'], c['gamint'])
            raise Fail('unknown formalism accepted')
        except ValueError:
            pass
        ref, order = {}, []
        for j, x in c['steps']:
            x0 = x.copy()
            m.add_values(x, j)
            need(np.array_equal(x, x0, equal_nan=True), 'add_values changes the values it is given')
            if j not in ref:
                order.append(j)
            ref[j] = x0
            need(list(m.values) == order and list(m.nj) == order, f'scales {list(m.values)}, counts {list(m.nj)}, expected {order}')
            for k, v in ref.items():
                need(np.array_equal(m.values[k], v, equal_nan=True), f'values of scale {k}')
                need(np.shape(m.nj[k]) == (v.shape[1],), f'shape of the counts of scale {k}')
                close(m.nj[k], (v == v).sum(0), f'count of scale {k}', atol=0)
            need(m.nrep == x.shape[1], f'nrep = {m.nrep}')
            need(len(m.get_nj()) == len(order), 'get_nj: number of scales')
            for g, k in zip(m.get_nj(), order):
                close(g, (ref[k] == ref[k]).sum(0), 'get_nj', atol=0)
        J = sorted(ref)
        for a in J:
            b = a
            while b + 1 in ref:
                b += 1
            g = m.get_nj_interv(a, b)
            close(g, np.array([(ref[k] == ref[k]).sum(0) for k in range(a, b + 1)]), f'get_nj_interv({a}, {b})', atol=0)
        need(other.values == {} and other.nj == {}, 'another container was changed')
