"""estimate_beta: ordinary least squares of log power against log frequency inside the band."""
from pyvc.spec import *
from .common import *

FA = 'pymultifracs.fractal_analysis:fractal_analysis'
WE = 'pymultifracs.psd:wavelet_estimation'
FN = 'pymultifracs.fractal_analysis:estimate_beta'


def contract(S):
    S.functions |= {FN, 'pymultifracs.psd:_log_psd'}
    S.assume('exact real arithmetic')
    S.assume('preconditions: frequencies are non-negative, powers at positive frequencies are positive, at least two distinct frequencies in the band')
    declare('n', 'I', lo=1)
    declare('F', 'R', 1, sign='0+')
    declare('P', 'R', 1, sign='+')
    declare('lo', 'R')
    declare('hi', 'R')
    declare('C', 'R', sign='+')
    declare('b', 'R')
    n, lo, hi = var('n'), var('lo'), var('hi')
    F, Pw = (lambda k: app('F', k)), (lambda k: app('P', k))

    def cases():
        yield from rtcases('C17', 'Beta', 300)

    def interp(c):
        f, p = c['freq'], c['psd']
        if len(f) > 40:
            return None
        law = c['law'] or (1.5, -.7)
        return Env({'n': len(f), 'lo': float(c['band'][0]), 'hi': float(c['band'][1]), 'C': law[0], 'b': law[1]},
                   {'F': lambda k: float(f[k]) if k < len(f) else 1., 'P': lambda k: float(p[k]) if k < len(p) else 1.})

    for log in ('log2', 'log', None):
        for kind in ('tuple', 'list'):
            def run(I, ob, log=log, kind=kind):
                I.pc += [le(lo, hi)]
                f = A((n,), F, I=I, label='freq')
                p = A((n,), Pw, I=I, label='psd')
                kw = {'freq_band': PyList([Sc(lo, 'float'), Sc(hi, 'float')], kind)}
                if log:
                    kw['log'] = log
                r = I.call(I.get(FN), [f, p], kw)
                lg = ln if log == 'log' else log2
                inb = lambda k: and_(le(lo, F(k)), le(F(k), hi), lt(0, F(k)))
                w = lambda k: ind(inb(k))
                # the frequency under the mask is positive: 1 elsewhere keeps the logarithm defined
                x = lambda k: lg(F(k))
                y = lambda k: lg(Pw(k))
                s, t = NP.ols(n, x, y, w)
                beta, logc, fr = sc(I.getattr(r, 'beta')), sc(I.getattr(r, 'log_C')), I.force(I.getattr(r, 'freq'))
                ob('slope: least squares over exactly the positive frequencies of the closed band', and_(not_(beta.nan), eq(beta.t, s)))
                ob('intercept', and_(not_(logc.nan), eq(logc.t, t)))
                k = fresh('k', 'I', sign='0+')
                ob('fitted log-frequencies: vector over the same positions', const(isinstance(fr, Arr) and fr.ndim in (1, 2)))
                idx = [k] if fr.ndim == 1 else [k, ZERO]
                hy = [lt(k, n)]
                ob('fitted log-frequencies: length', eq(fr.shape[0], n))
                ob('fitted log-frequencies: positions', iff(fr.guard(0, k), inb(k)), hy)
                ob('fitted log-frequencies: values', and_(not_(fr.at(idx)[0]), eq(fr.at(idx)[1], x(k))), hy + [inb(k)])
                C, b = var('C'), var('b')
                law = {'P': lambda k: mul(C, power(F(k), b))}
                sub_ = lambda z: subst(z, {}, amap={'P': lambda k: exp(add(ln(C), mul(b, ln(F(k)))))})
                ob('power law: slope b', eq(sub_(beta.t), b))
                ob('power law: intercept log C', eq(sub_(logc.t), lg(C)))
                ob('inputs untouched', const(not I.written))
            S.scenario(f'estimate_beta(log={log}, band={kind})', run, cases, interp)
    # the analysis of a signal: the same fit, applied to its wavelet spectral density
    S.functions.add(FA)
    S.assume('fractal_analysis calls wavelet_estimation (specified by C16) and estimate_beta (above) through their contracts')
    declare('sig', 'R', 1)
    declare('fs', 'R', sign='+')
    declare('nm', 'I', lo=1)
    declare('Jw', 'I', lo=2)
    declare('WF', 'R', 1, sign='+')
    declare('WP', 'R', 1, sign='0+')
    for given in ('all', 'no band', 'no log', 'defaults'):
        def fra(I, ob, given=given):
            est, fit = [], []

            def we(I, args, kw):
                est.append(bound(I, I.get(WE), args, kw))
                nt = I.get('pymultifracs.psd:PSD')
                v = {'freq': A((var('Jw'),), lambda k: app('WF', k)), 'psd': A((var('Jw'), ONE), lambda k, r: app('WP', k))}
                return NTInst(nt, [v[f] for f in nt.fields])

            def eb(I, args, kw):
                fit.append(bound(I, I.get(FN), args, kw))
                nt = I.get('pymultifracs.fractal_analysis:FractalValues')
                return NTInst(nt, [OVal(obj('fit:' + f)) for f in nt.fields])
            I.contracts[WE], I.contracts[FN] = we, eb
            x = A((n,), lambda k: app('sig', k), I=I, label='signal')
            kw = {} if given == 'defaults' else {'n_moments': Sc(var('nm'), 'int')}
            if given in ('all', 'no log'):
                kw['freq_band'] = PyList([Sc(lo, 'float'), Sc(hi, 'float')], 'tuple')
            if given in ('all', 'no band'):
                kw['log'] = 'log'
            r = I.call(I.get(FA), [x, Sc(var('fs'), 'float')], kw)
            if len(est) != 1 or len(fit) != 1:
                raise Unsupported('not one spectral density and one fit')
            e, f = est[0], fit[0]
            k = fresh('k', 'I', sign='0+')
            z = I.force(e['signal'])
            ob('density of the signal', and_(const(isinstance(z, Arr) and z.ndim == 1), eq(z.shape[0], n)))
            ob('density of the signal: values', eq(z.at([k])[1], app('sig', k)), [lt(k, n)])
            ob('sampling frequency', eq(sc(I.force(e['fs'])).t, var('fs')))
            ob('vanishing moments', eq(sc(I.force(e['n_moments'])).t, const(2) if given == 'defaults' else var('nm')))
            for nme, fn in (('freq', 'WF'), ('psd', 'WP')):
                y = I.force(f[nme])
                ob('fit of all scales: ' + nme, and_(const(isinstance(y, Arr) and y.ndim in (1, 2)), eq(y.shape[0], var('Jw'))))
                m, v = y.at([k] + [ZERO] * (y.ndim - 1))
                ob('fit of the density: ' + nme, and_(not_(m), eq(v, app(fn, k))), [lt(k, var('Jw'))])
            b = I.elems(f['freq_band'])
            bl = (lo, hi) if given in ('all', 'no log') else (const(Fr(1, 100)), TWO)
            ob('band', and_(const(len(b) == 2), *[eq(sc(u).t, w) for u, w in zip(b, bl)]))
            ob('logarithm', const(I.force(f['log']) == ('log' if given in ('all', 'no band') else 'log2')))
            for c in ('beta', 'log_C', 'freq'):
                g = I.force(I.getattr(r, c))
                ob('result of the fit: ' + c, const(isinstance(g, OVal) and I.oterm(g) is obj('fit:' + c)))
            ob('inputs untouched', const(not I.written))
        S.scenario(f'fractal_analysis({given})', fra)
