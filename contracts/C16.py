"""Spectral density estimates pair power with the right frequencies."""
from pyvc.spec import *
from .common import *

WA = 'pymultifracs.wavelet:wavelet_analysis'
PSDM = 'pymultifracs.psd:'
PARAMS = ['signal', 'p_exp', 'wt_name', 'j1', 'j2', 'gamint', 'j2_reg', 'weighted', 'normalization']


def contract(S):
    S.functions |= {PSDM + 'wavelet_estimation', PSDM + 'welch_estimation'}
    S.assume('wavelet_analysis is used through its contract (C06, C09): retained scales 1..J, the coefficients of scale j are '
             '2**(j(1/2 - 1/normalization)) 2**(gamint j) times the detail coefficients of the named wavelet')
    S.trusted.add('scipy.signal.welch: density of the segments and window requested at nfft // 2 + 1 frequencies for real signals; for the sampling '
                  'frequency f it is 2 pi / f times the density per radian; the overlap is truncated to an integer')
    declare('fs', 'R', sign='+')
    declare('n', 'I', lo=1)
    declare('sig', 'R', 1)
    declare('J2', 'I', lo=1)
    fs, n, PI = var('fs'), var('n'), var('pi')
    mrq = SymMRQ('w')
    R = mrq.R
    D = lambda j, k, r: app('DWT', j, k, r)
    declare('DWT', 'R', 3)

    def wavelet_contract(calls, name):
        def wa(I, args, kw):
            sigp = ['signal', 'p_exp', 'wt_name', 'j1', 'j2', 'gamint', 'weighted', 'normalization']
            f = I.get(WA)
            names = [a.arg for a in f.node.args.args]
            d = dict(zip(names, args))
            d.update(kw)
            dfl = dict(zip(names[-len(f.node.args.defaults):], f.node.args.defaults)) if f.node.args.defaults else {}
            for k, e in dfl.items():
                if k not in d:
                    d[k] = I.ev(e, None)
            calls.append(d)
            norm, gam = sc(I.force(d['normalization'])).t, sc(I.force(d['gamint'])).t
            m = mrq.build(I, 'wavelet coef')
            vals = I.force(m.attrs['values'])
            lo_, J, _, fl = vals.segs[0]
            fac = lambda j: mul(power(TWO, mul(j, sub(div(ONE, TWO), inv(norm)))), power(TWO, mul(gam, j)))
            vals.segs[0] = (lo_, J, lambda o: A((mrq.L(add(o, 1)), R), lambda k, r: (mrq.M(add(o, 1), k, r), mul(fac(add(o, 1)), D(add(o, 1), k, r)))), fl)
            nt = I.get('pymultifracs.wavelet:WaveletTransform')
            return NTInst(nt, [{'wt_coefs': m, 'wt_leaders': None, 'j2_eff': Sc(mrq.J, 'int'), 'eta_p': None}[f] for f in nt.fields])
        return wa

    def cases(cls):
        def g():
            yield from rtcases('C16', cls, 40)
        return g

    def wav(I, ob, nm, given):
        calls = []
        I.contracts[WA] = wavelet_contract(calls, nm)
        s = A((n,), lambda k: app('sig', k), I=I, label='signal')
        r = I.call(I.get(PSDM + 'wavelet_estimation'), [s, Sc(fs, 'float'), nm], {'j2': Sc(var('J2'), 'int')} if given else {})
        if len(calls) != 1:
            raise Unsupported('not a single call of wavelet_analysis')
        d = calls[0]
        ob('Daubechies wavelet with the requested number of vanishing moments', const(I.force(d['wt_name']) == f'db{nm}'))
        x = I.force(d['signal'])
        k = fresh('k', 'I', sign='0+')
        ob('transform of the signal itself', and_(const(isinstance(x, Arr) and x.ndim in (1, 2)), eq(x.shape[0], n), const(True)))
        m, v = x.at([k] + [ZERO] * (x.ndim - 1))
        ob('transform of the signal values', and_(not_(m), eq(v, app('sig', k))), [lt(k, n)])
        psd, freq = I.force(I.getattr(r, 'psd')), I.force(I.getattr(r, 'freq'))
        # L1-normalised coefficients integrated by order one half: 2**(-j/2) 2**(j/2) detail
        X = lambda j, k, r: D(j, k, r)
        L1 = lambda j, k, r: mul(power(TWO, mul(j, sub(div(ONE, TWO), ONE))), power(TWO, div(j, TWO)), D(j, k, r))
        eqarr(I, ob, 'power: mean square of the available coefficients of each scale', psd, (mrq.J, R),
              lambda o, r: div(bsum(mrq.L(add(o, 1)), lambda k: mul(ind(mrq.V(add(o, 1), k, r)), power(L1(add(o, 1), k, r), 2))), mrq.cnt(add(o, 1), r)))
        eqarr(I, ob, 'frequency of each scale: 3/4 of the sampling frequency over 2**j', freq, (mrq.J,),
              lambda o: div(mul(const(Fr(3, 4)), fs), power(TWO, add(o, 1))))
        ob('signal untouched', const(not I.written))
    for nm in range(1, 39):
        for given in ((False, True) if nm in (2, 3) else (False,)):
            S.scenario(f'wavelet_estimation(n_moments={nm}{", j2 given" if given else ""})', lambda I, ob, nm=nm, given=given: wav(I, ob, nm, given))

    declare('nf', 'I', lo=1)
    declare('sg', 'I', lo=1)
    declare('POW', 'R', 1)

    def welch(I, ob, fft, seg):
        calls = []
        names = ['x', 'fs', 'window', 'nperseg', 'noverlap', 'nfft', 'detrend', 'return_onesided', 'scaling', 'axis', 'average']
        dflt = dict(fs=1.0, window='hann', nperseg=None, noverlap=None, nfft=None, detrend='constant', return_onesided=True, scaling='density',
                    axis=-1, average='mean')

        def w(I_, args, kw):
            d = dict(dflt)
            d.update(zip(names, args))
            d.update(kw)
            if set(d) != set(names):
                raise Unsupported('arguments of welch')
            d = {k: I.force(v) for k, v in d.items()}
            calls.append(d)
            m = add(floor(div(sc(d['nfft']).t, TWO)), 1) if d['nfft'] is not None else fresh('m', 'I', sign='0+')
            fr = (lambda k: mul(sc(d['fs']).t, div(k, sc(d['nfft']).t))) if d['nfft'] is not None else (lambda k: app('WF', k))
            return PyList([A((m,), fr), A((m,), lambda k: div(mul(2, PI, app('POW', k)), sc(d['fs']).t))], 'tuple')
        I.contracts['ext:scipy.signal.welch'] = w
        s = A((n,), lambda k: app('sig', k), I=I, label='signal')
        kw = {}
        if fft:
            kw['n_fft'] = Sc(var('nf'), 'int')
        if seg:
            kw['seg_size'] = Sc(var('sg'), 'int')
        r = I.call(I.get(PSDM + 'welch_estimation'), [s, Sc(fs, 'float')], kw)
        nf = var('nf') if fft else const(4096)
        sg = var('sg') if seg else nf
        if len(calls) != 1:
            raise Unsupported('not a single call of scipy.signal.welch')
        d = calls[0]
        num = lambda k: sc(d[k]).t if d[k] is not None else None
        ob('Hamming window', const(d['window'] == 'hamming'))
        ob('segments of the requested size', eq(num('nperseg'), sg) if d['nperseg'] is not None else FALSE)
        # scipy truncates the overlap to an integer
        ob('half-overlapping segments', eq(floor(num('noverlap')), floor(div(sg, TWO))) if d['noverlap'] is not None else eq(floor(div(num('nperseg'), TWO)), floor(div(sg, TWO))))
        ob('FFT of the requested length, at least as long as the segments', and_(eq(num('nfft'), ite(lt(nf, sg), sg, nf)), le(sg, num('nfft'))) if d['nfft'] is not None else eq(ite(lt(nf, sg), sg, nf), sg))
        ob('no detrending', const(d['detrend'] is False))
        ob('one-sided averaged density', const(d['return_onesided'] is True and d['scaling'] == 'density' and d['average'] == 'mean'))
        x = d['x']
        k = fresh('k', 'I', sign='0+')
        ob('of the signal', and_(const(isinstance(x, Arr) and x.ndim == 1), eq(x.shape[0], n)))
        ob('of the signal values', eq(x.at([k])[1], app('sig', k)), [lt(k, n)])
        psd, freq = I.force(I.getattr(r, 'psd')), I.force(I.getattr(r, 'freq'))
        m = add(floor(div(ite(lt(nf, sg), sg, nf), TWO)), 1)
        eqarr(I, ob, 'power: four times the density per radian', psd, (m,), lambda k: mul(4, app('POW', k)))
        eqarr(I, ob, 'frequencies: k times the sampling frequency over the FFT length', freq, (m,),
              lambda k: mul(fs, div(k, ite(lt(nf, sg), sg, nf))))
        ob('frequency axis: one entry per power value', eq(freq.shape[0], psd.shape[0]))
        ob('signal untouched', const(not I.written))
    declare('WF', 'R', 1)
    for fft in (False, True):
        for seg in (False, True):
            S.scenario(f'welch_estimation({"n_fft" if fft else ""} {"seg_size" if seg else ""})', lambda I, ob, fft=fft, seg=seg: welch(I, ob, fft, seg))
