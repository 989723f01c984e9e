"""Scale / frequency conversions."""
from pyvc.spec import *
from .common import *
from . import lemmas

U = 'pymultifracs.utils:'


def contract(S):
    S.functions |= {U + f for f in ('scale2freq', 'freq2scale', 'fband2scale')}
    S.assume('exact real arithmetic: 2**x and log2 are the real functions')
    S.assume('precondition: sampling frequency and frequencies are positive')
    lemmas.facts(S, 'log2_strict_mono')
    declare('fs', 'R', sign='+')
    declare('f', 'R', sign='+')
    declare('f1', 'R', sign='+')
    declare('f2', 'R', sign='+')
    declare('s', 'R')
    declare('si', 'I')
    declare('n', 'I', lo=1)
    declare('S', 'R', 1)
    declare('T', 'I', 1)
    declare('F', 'R', 1, sign='+')
    fs, f, f1, f2, s, si, n = map(var, ('fs', 'f', 'f1', 'f2', 's', 'si', 'n'))
    freq = lambda x: mul(const(Fr(3, 4)), fs, power(TWO, neg(x)))
    scale = lambda x: log2(div(mul(const(Fr(3, 4)), fs), x))

    def cases():
        yield from rtcases('C14', 'Scale', 300)

    def interp(c):
        a = c['arr']
        return Env({'fs': float(c['sfreq']), 'f': c['freq'], 's': float(c['scale']), 'si': int(c['scale']), 'f1': c['band'][0], 'f2': c['band'][1],
                    'n': len(a)}, {'S': lambda i: float(a[i]) if i < len(a) else 0., 'T': lambda i: int(a[i]) if i < len(a) else 0,
                                   'F': lambda i: 2. ** float(a[i]) if i < len(a) else 1.})

    kinds = {'float': (Sc(s, 'float'), s), 'int': (Sc(si, 'int'), si), 'numpy integer': (Sc(si, 'npint'), si), 'numpy float': (Sc(s, 'npfloat'), s)}
    for k, (v, t) in kinds.items():
        for fk in ('float', 'int'):
            def scalar(I, ob, v=v, t=t, fk=fk):
                F = Sc(fs, fk)
                r = I.call(I.get(U + 'scale2freq'), [v, F], {})
                ob('3/4 fs 2**-scale', and_(not_(sc(r).nan), eq(sc(r).t, freq(t))))
                b = I.call(I.get(U + 'freq2scale'), [r, F], {})
                ob('scale -> frequency -> scale', and_(not_(sc(b).nan), eq(sc(b).t, t)))
            S.scenario(f'scale2freq({k}), {fk} sampling frequency', scalar, cases, interp)

    def back(I, ob):
        r = I.call(I.get(U + 'freq2scale'), [Sc(f, 'float'), Sc(fs, 'float')], {})
        ob('log2(3/4 fs / f)', and_(not_(sc(r).nan), eq(sc(r).t, scale(f))))
        b = I.call(I.get(U + 'scale2freq'), [r, Sc(fs, 'float')], {})
        ob('frequency -> scale -> frequency', and_(not_(sc(b).nan), eq(sc(b).t, f)))
    S.scenario('freq2scale', back, cases, interp)

    for nm, dt in (('S', 'f'), ('T', 'i')):
        def arr(I, ob, nm=nm, dt=dt):
            a = A((n,), lambda i: app(nm, i), dt, I=I, label='scale')
            r = I.call(I.get(U + 'scale2freq'), [a, Sc(fs, 'float')], {})
            eqarr(I, ob, 'element-wise 3/4 fs 2**-scale', r, (n,), lambda i: freq(app(nm, i)))
            b = I.call(I.get(U + 'freq2scale'), [r, Sc(fs, 'float')], {})
            eqarr(I, ob, 'scales -> frequencies -> scales', b, (n,), lambda i: app(nm, i))
            ob('input untouched', const(not I.written))
        S.scenario(f'arrays of scales ({"float" if dt == "f" else "integer"})', arr, cases, interp)

    def arr2(I, ob):
        a = A((n,), lambda i: app('F', i), 'f', I=I, label='freq')
        r = I.call(I.get(U + 'freq2scale'), [a, Sc(fs, 'float')], {})
        eqarr(I, ob, 'element-wise log2(3/4 fs / f)', r, (n,), lambda i: scale(app('F', i)))
        b = I.call(I.get(U + 'scale2freq'), [r, Sc(fs, 'float')], {})
        eqarr(I, ob, 'frequencies -> scales -> frequencies', b, (n,), lambda i: app('F', i))
        ob('input untouched', const(not I.written))
    S.scenario('arrays of frequencies', arr2, cases, interp)

    for kind in ('tuple', 'list'):
        def band(I, ob, kind=kind):
            r = I.elems(I.call(I.get(U + 'fband2scale'), [PyList([Sc(f1, 'float'), Sc(f2, 'float')], kind), Sc(fs, 'float')], {}))
            ob('a pair', const(len(r) == 2))
            lo, hi = sc(r[0]), sc(r[1])
            ob('integers', const(lo.kind in ('int', 'npint') and hi.kind in ('int', 'npint')))
            ob('lowest scale: ceiling of the scale of the highest frequency', eq(lo.t, ceil(scale(f2))))
            ob('highest scale: floor of the scale of the lowest frequency', eq(hi.t, floor(scale(f1))))
            j = fresh('j', 'I')
            # j in [lo, hi] <=> scale(f2) <= j <= scale(f1) <=> f1 <= freq(j) <= f2 (both logarithms taken)
            inside = and_(le(ln(f1), ln(freq(j))), le(ln(freq(j)), ln(f2)))
            got = and_(le(lo.t, j), le(j, hi.t))
            ob('scales in the range have frequencies inside the closed band', inside, [got])
            ob('scales whose frequency is inside the closed band are in the range', got, [inside])
        S.scenario(f'fband2scale({kind})', band, cases, interp)
