"""Gaussian synthesis: the linear map from white noise to the process."""
from pyvc.spec import *
from .common import *
from . import lemmas

CME, CHOL = 'pymultifracs.simul.pzutils:gaussian_cme', 'pymultifracs.simul.pzutils:gaussian_chol'
IU = var('iu')


def declare_sim():
    declare('N', 'I', lo=3)
    declare('R', 'I', lo=1)
    declare('H', 'R')
    declare('sigma', 'R')
    declare('dt', 'R', sign='!')
    for z in ('ze', 'zw'):
        declare(z + 'r', 'R', 2)
        declare(z + 'i', 'R', 2)


def noise(I, method, R, z='ze', given=True):
    """initial noise given by the caller: complex for the embedding, real for the factorisation"""
    if z == 'ze':
        I.draws, I.ndraws, I.chol = [], 0, []
    if not given:
        return None
    if method == 'cme':
        a = A((sub(mul(2, var('N')), 2), R), lambda k, r: add(app(z + 'r', k, r), mul(IU, app(z + 'i', k, r))), 'c', I=I, label='noise')
    else:
        a = A((var('N'), R), lambda k, r: app(z + 'r', k, r), I=I, label='noise')
    return a


def znoise(I, method, z='ze', given=True, draws=None):
    """the noise the process is made of: (obligation on its shape, element)"""
    if given:
        return lambda k, r: add(app(z + 'r', k, r), mul(IU, app(z + 'i', k, r))) if method == 'cme' else app(z + 'r', k, r)
    d = draws
    return lambda k, r: add(app(d[0][0], k, r), mul(IU, app(d[1][0], k, r))) if method == 'cme' else app(d[0][0], k, r)


def circulant(n, cov):
    """periodised covariance of length 2 n - 2 (even)"""
    M = sub(mul(2, n), 2)
    return M, lambda m: ite(lt(m, n), cov(m), cov(sub(M, m)))


def process(I, method, n, cov, z, chol=None):
    """element (t, r) of the process with covariance cov synthesised from the noise z"""
    if method == 'cme':
        M, c = circulant(n, cov)
        lam = lambda k: bsum(M, lambda m: mul(c(m), wroot(M, mul(m, k))))
        return lambda t, r: re_(bsum(M, lambda k: mul(z(k, r), csqrt(div(lam(k), M)), wroot(M, mul(k, t)))))
    return lambda t, r: bsum(n, lambda k: mul(app(chol[0], t, k), z(k, r)))


def chol_ob(I, ob, lab, ch, n, cov):
    """the factorised matrix is the Toeplitz matrix of the covariance"""
    nm, m, f = ch
    k = fresh('k', 'I', sign='0+')
    nn, v = f((k,))
    ob(lab + 'factorised matrix: size', eq(m, n))
    ob(lab + 'factorised matrix: Toeplitz matrix of the covariance', and_(not_(nn), eq(v, cov(k))), [lt(k, n)])


def facts(S):
    lemmas.lemmas(S, 'Circulant.lean', {
        'circulant_covariance': 'for c real and even on Z/M with non-negative transform lam, the coefficients of Re(sum_k z_k sqrt(lam_k/M) w^(k t)) in the real '
                                'and imaginary parts of z have inner products c(t - s): it is the covariance for standard normal parts',
        'char_eq_exp': 'w = exp(-2 pi i / M)',
        'factor_covariance': 'L z has covariance L L^T'})
    S.assume('numpy.random.randn: independent standard normal numbers, independent of all earlier ones')
