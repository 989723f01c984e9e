"""Run-time evaluation of the contracts on the real code (replay oracle and bounded stand-in).

A property registers cases: gen(rng, size) -> dict of plain values; check(case) calls the real functions of
/repo and evaluates the postcondition, raising Fail when it does not hold and Skip when the precondition
does not hold for the generated input.
"""
import os
import sys
import json
import math
import warnings
import numpy as np

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')


class Fail(Exception):
    pass


class Skip(Exception):
    pass


def enc(o):
    if isinstance(o, np.ndarray):
        if o.dtype.kind == 'c':
            return {'__nd__': [enc(o.real), enc(o.imag)], 'c': True}
        return {'__nd__': o.tolist(), 'dtype': str(o.dtype), 'shape': list(o.shape)}
    if isinstance(o, tuple):
        return {'__tuple__': [enc(x) for x in o]}
    if isinstance(o, list):
        return [enc(x) for x in o]
    if isinstance(o, dict):
        return {'__dict__': [[enc(k), enc(v)] for k, v in o.items()]}
    if isinstance(o, np.generic):
        return {'__np__': str(o.dtype), 'v': o.item()}
    return o


def dec(o):
    if isinstance(o, dict):
        if '__nd__' in o:
            if o.get('c'):
                return dec(o['__nd__'][0]) + 1j * dec(o['__nd__'][1])
            return np.array(o['__nd__'], dtype=o['dtype']).reshape(o['shape'])
        if '__tuple__' in o:
            return tuple(dec(x) for x in o['__tuple__'])
        if '__dict__' in o:
            return {dec(k): dec(v) for k, v in o['__dict__']}
        if '__np__' in o:
            return np.dtype(o['__np__']).type(o['v'])
        return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list):
        return [dec(x) for x in o]
    return o


def brief(o, n=400):
    s = json.dumps(enc(o), default=str)
    return s if len(s) <= n else s[:n] + '...'


def need(c, msg):
    if not c:
        raise Fail(msg)


def close(got, want, what, rtol=1e-7, atol=1e-9, scale=None):
    """elementwise comparison, NaN equal NaN; scale: extra absolute magnitude of the intermediate terms"""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.dtype.kind == 'b':
        got = got.astype(float)
    if want.dtype.kind == 'b':
        want = want.astype(float)
    if got.shape != want.shape:
        raise Fail(f'{what}: shape {got.shape}, expected {want.shape}')
    if got.size == 0:
        return
    if got.dtype.kind not in 'fiubc':
        raise Fail(f'{what}: dtype {got.dtype}')
    with np.errstate(all='ignore'):
        gn, wn = np.isnan(got), np.isnan(want)
        bad = gn != wn
        tol = atol + rtol * np.abs(want)
        if scale is not None:
            tol = tol + rtol * np.abs(scale)
        d = np.abs(got - want)
        same = (got == want)
        bad = bad | (~gn & ~wn & ~same & ~(d <= tol))
    if bad.any():
        i = tuple(int(v[0]) for v in np.nonzero(np.atleast_1d(bad)))
        g, w = np.atleast_1d(got)[i], np.atleast_1d(want)[i]
        raise Fail(f'{what}: at index {i} got {g!r}, expected {w!r} ({int(bad.sum())} of {bad.size} differ)')


class quiet:
    """run with warnings recorded and floating point warnings off"""
    def __enter__(self):
        self.cm = warnings.catch_warnings(record=True)
        self.rec = self.cm.__enter__()
        warnings.simplefilter('always')
        self.es = np.errstate(all='ignore')
        self.es.__enter__()
        return self

    def __exit__(self, *a):
        self.es.__exit__(*a)
        self.cm.__exit__(*a)

    def user(self):
        return [str(w.message) for w in self.rec if issubclass(w.category, UserWarning)]


def snapshot(o):
    """deep immutable picture of the numbers an object holds"""
    if isinstance(o, np.ndarray):
        return ('nd', o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, dict):
        return ('d',) + tuple((snapshot(k), snapshot(v)) for k, v in o.items())
    if isinstance(o, tuple) and hasattr(o, '_fields'):
        return ('nt', type(o).__name__) + tuple(snapshot(v) for v in o)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(snapshot(v) for v in o)
    if hasattr(o, '__dict__') and not callable(o) and type(o).__module__.startswith('pymultifracs'):
        return ('o', type(o).__name__) + tuple((k, snapshot(v)) for k, v in sorted(o.__dict__.items()))
    return ('v', repr(o))


# ------------------------------------------------------------------ oracles shared by several properties
def wls(x, y, w):
    """slope, intercept per column; centred formulas"""
    x, y, w = (np.asarray(v, float) for v in (x, y, w))
    W = w.sum(0)
    xm, ym = (w * x).sum(0) / W, (w * y).sum(0) / W
    a = (w * (x - xm) * (y - ym)).sum(0) / (w * (x - xm) ** 2).sum(0)
    return a, ym - a * xm


def nmean(a):
    a = np.asarray(a, float)
    m = ~np.isnan(a)
    with np.errstate(all='ignore'):
        return np.where(m, a, 0).sum(0) / m.sum(0)


def nsum(a):
    return np.where(np.isnan(a), 0, a).sum(0)


def make_mrq(vals, formalism='wavelet coef', gamint=0.0):
    from pymultifracs.multiresquantity import MultiResolutionQuantity
    m = MultiResolutionQuantity(formalism, gamint)
    for j, v in vals.items():
        m.add_values(np.array(v, float), j)
    return m


def rand_mrq(rng, nrep=None, J=None, nmin=4, positive=False, nan=True, nmax=60):
    """dict j -> array (n_j, nrep) of non-zero values with a missing pattern leaving >= 3 valid per column"""
    nrep = nrep or int(rng.choice([1, 1, 2, 3, 4]))
    J = J or int(rng.integers(3, 9))
    n = int(rng.integers(max(nmin, 20), nmax)) if rng.random() < .8 else int(rng.integers(nmin + 4, 30))
    out = {}
    heavy = rng.random() < .3
    for j in range(1, J + 1):
        a = rng.standard_normal((n, nrep)) * 2.0 ** (j * rng.uniform(-1, 1))
        if heavy:
            a = a * np.exp(rng.standard_normal((n, nrep)))
        a[np.abs(a) < 1e-3] = .37
        if positive:
            a = np.abs(a)
        if nan:
            b = int(rng.integers(0, max(1, min(3, (n - 3) // 2 + 1))))
            if b:
                a[:b] = np.nan
                a[n - b:] = np.nan
            if rng.random() < .5:
                for r in range(nrep):
                    ok = np.flatnonzero(~np.isnan(a[:, r]))
                    k = int(rng.integers(0, max(1, len(ok) - 3 + 1)))
                    k = min(k, len(ok) - 3)
                    if k > 0:
                        a[rng.choice(ok, k, replace=False), r] = np.nan
        out[j] = a
        n = max(nmin + 2 if nan else nmin, int(n * rng.uniform(.45, .95)))
    return out


QPOOL = [0, 1, 2, -1, .5, 3, 4, 5, 7, 10, 11, 12, -2, -.5, 1.5, 2.5, -3, .25, 6, 8, 9, -5, .1]


def rand_q(rng, must=(), lists=False):
    k = rng.random()
    if k < .15:
        from pymultifracs.utils import build_q_log
        return np.array(build_q_log(.01 + rng.random(), 1 + 4 * rng.random(), int(rng.integers(2, 6))))
    m = int(rng.integers(1, 6))
    q = [QPOOL[i] for i in rng.choice(len(QPOOL), m, replace=False)]
    for v in must:
        if v not in q:
            q.append(v)
    if lists and rng.random() < .2:      # a plain list of integers
        q = [int(v) for v in rng.choice(16, m, replace=False) - 3]
        return q + [v for v in must if v not in q]
    if rng.random() < .5 and all(float(v).is_integer() for v in q):
        return np.array([int(v) for v in q])
    if rng.random() < .2:
        q = sorted(q)
    return np.array(q, float)


def rand_scales(rng, J):
    j1 = int(rng.integers(1, J))
    j2 = int(rng.integers(j1 + 1, J + 1))
    return j1, j2


def apow(a, q):
    """|a|**q with missing values staying missing"""
    a = np.abs(a)
    with np.errstate(all='ignore'):
        r = np.exp(q * np.log(a))
    r[np.isnan(a)] = np.nan
    return r


# ------------------------------------------------------------------ wavelet oracle
WAVES = ['db3', 'db1', 'db2', 'db3', 'db4', 'db5', 'db6', 'db8', 'sym4', 'sym5', 'coif1', 'haar', 'bior2.2', 'db10']


def filters(wt):
    import pywt
    w = pywt.Wavelet(wt)
    return np.array(w.dec_lo, float), np.array(w.dec_hi, float)


def conv_same(x, h):
    """centred part of the full linear convolution, x (n, R)"""
    n, F = len(x), len(h)
    o = (F - 1) // 2
    xp = np.zeros((n + 2 * F, x.shape[1]))
    xp[F:F + n] = x
    out = np.zeros((n, x.shape[1]))
    for m in range(F):
        s = F + o - m
        out = out + xp[s:s + n] * h[m]
    return out


def step(x, lo, hi):
    n, F = len(x), len(lo)
    a, d = conv_same(x, lo), conv_same(x, -hi)
    for v in (a, d):
        v[:F - 1] = np.nan
        v[max(0, n - F + 1):] = np.nan
    return d[1::2], a[1::2]


def max_level(N, F):
    # largest s with 2**s <= N / (F + 1)
    s = 0
    while 2 ** (s + 1) * (F + 1) <= N:
        s += 1
    return s if N >= F + 1 else -1


def ref_wavelet(x, p_exp, wt, gamint, norm):
    """coefficients (all scales with >= 3 per realisation), leaders (uncorrected), retained"""
    lo, hi = filters(wt)
    x = np.asarray(x, float)
    if x.ndim == 1:
        x = x[:, None]
    ml = max_level(len(x), len(lo))
    coefs, leads = {}, {}
    approx = x
    sv = None
    okc = okl = True
    for s in range(1, ml + 1):
        d, approx = step(approx, lo, hi)
        d = d * 2.0 ** (s * (.5 - 1 / norm)) * 2.0 ** (gamint * s)
        if (~np.isnan(d)).sum(0).min() < 3:
            break
        coefs[s] = d
        if p_exp is None or not okl:
            continue
        a = np.abs(d)
        if not np.isinf(p_exp):
            a = 2.0 ** s * apow(a, p_exp)
        red = (lambda st: red_max(st)) if np.isinf(p_exp) else (lambda st: red_sum(st))
        if s == 1:
            sv = a
        else:
            m = len(sv) // 2
            sv = red(np.stack([a[:m], sv[0:2 * m:2], sv[1:2 * m:2]]))
        n = len(sv)
        l = red(np.stack([sv[0:n - 2], sv[1:n - 1], sv[2:n]]))
        if not np.isinf(p_exp):
            l = (2.0 ** -s * l) ** (1 / p_exp)
        if (~np.isnan(l)).sum(0).min() < 3:
            okl = False
            continue
        leads[s] = l
    return coefs, leads, ml


def red_max(st):
    m = np.isnan(st)
    r = np.where(m, -np.inf, st).max(0)
    r[m.all(0)] = np.nan
    return r


def red_sum(st):
    m = np.isnan(st)
    r = np.where(m, 0, st).sum(0)
    r[m.all(0)] = np.nan
    return r


def rand_signal(rng, N, R=None, nan=False):
    """R None: one-dimensional"""
    shp = (N,) if R is None else (N, R)
    k = rng.random()
    x = rng.standard_normal(shp)
    if k < .6:
        x = np.cumsum(x, axis=0)
    if k < .15:
        x = np.cumsum(x, axis=0)
    x = x * 10.0 ** rng.uniform(-3, 3)
    if nan:
        x2 = x if x.ndim == 2 else x[:, None]
        for r in range(x2.shape[1]):
            for _ in range(int(rng.integers(0, 3))):
                i = int(rng.integers(0, N))
                x2[i:i + int(rng.integers(1, 4)), r] = np.nan
    return x


def rand_wt_case(rng, leaders=None, big=False, nan_ok=True):
    wt = WAVES[int(rng.integers(len(WAVES)))]
    lo, _ = filters(wt)
    F = len(lo)
    mx = 14 if big else 9
    N = int((F + 1) * 2 ** rng.uniform(2, 5.5))
    if rng.random() < .25:
        N = int(2 ** rng.integers(6, 11))
    if rng.random() < .1:
        N = (F + 1) * 2 ** int(rng.integers(3, 6))
    if big:
        N = int(2 ** rng.uniform(11, mx))
    R = [None, 1, 2, 3][int(rng.integers(4))]
    if leaders is None:
        leaders = int(rng.integers(3))
    p = [None, np.inf, float(rng.choice([.5, 1, 1.5, 2, 3, 4, .8, 5, 6, 8, 10, 12]))][leaders]
    if leaders == 2 and rng.random() < .5 and float(p).is_integer():
        p = int(p)
    return {
        'signal': rand_signal(rng, N, R, nan=nan_ok and rng.random() < .3),
        'p_exp': p, 'wt_name': wt, 'j1': int(rng.choice([1, 1, 2, 3])),
        'j2': [10, 3, 4, 5, None, 7, 6][int(rng.integers(7))],
        'gamint': float(rng.choice([0, 0, .5, 1, -.5, .3])),
        'normalization': [1, 1, 2, 1.5, 0.5][int(rng.integers(5))],
        'weighted': bool(rng.integers(2)),
    }


def ref_counts(vals):
    return {j: (~np.isnan(v)).sum(0) for j, v in vals.items()}


def ref_sf(vals, q, j1, j2, weighted):
    """values (nq, nj, R), zeta, intercept"""
    js = sorted(vals)
    R = vals[js[0]].shape[1]
    S = np.array([[nmean(apow(vals[j], float(qq))) for j in js] for qq in q]).reshape(len(q), len(js), R)
    x = np.arange(j1, j2 + 1)[:, None] * np.ones((1, R))
    w = np.array([ref_counts(vals)[j] for j in range(j1, j2 + 1)]) if weighted else np.ones_like(x)
    with np.errstate(all='ignore'):
        L = np.log2(S)
    zb = [wls(x, L[i, j1 - 1:j2], w) for i in range(len(q))]
    return S, L, np.array([z for z, _ in zb]), np.array([b for _, b in zb])
