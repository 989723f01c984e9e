"""A signal session never returns stale or mismatched results."""
from pyvc.spec import *
from .common import *

SG = 'pymultifracs.signal:'
FNS = {'wavelet_analysis': 'pymultifracs.wavelet:wavelet_analysis', 'mf_analysis': 'pymultifracs.mfa:mf_analysis',
       'wavelet_estimation': 'pymultifracs.psd:wavelet_estimation', 'welch_estimation': 'pymultifracs.psd:welch_estimation',
       'estimate_beta': 'pymultifracs.fractal_analysis:estimate_beta', 'compute_hurst': 'pymultifracs.estimation:compute_hurst',
       'estimate_hmin': 'pymultifracs.estimation:estimate_hmin'}
declare('fails', 'B', 1)


def contract(S):
    S.functions |= {SG + 'Signal.' + m for m in ('estimate_wavelet_psd', 'estimate_welch_psd', 'fractal_analysis', '_wavelet_analysis', 'wavelet_analysis',
                                               '_check_wt_transform', 'mf_analysis', 'hurst', 'hmin', 'mf_analysis_full')} | {SG + 'same_params'}
    S.assume('the stand-alone functions are functions of the values of their arguments, or raise (C01-C17 say which)')
    S.assume('parameters that compare equal are interchangeable; the session data are those given at construction')
    S.assume('results are not modified by the caller')

    reg = []

    def term(I, name, args, kw):
        return reg[0].term(name, bound(I, I.get(FNS[name]), args, kw))

    def value(I, name, t):
        """the object a stand-alone call returns"""
        if name == 'wavelet_analysis':
            nt = I.get('pymultifracs.wavelet:WaveletTransform')
            return NTInst(nt, [OVal(obj('field:' + f, t)) for f in nt.fields])
        if name in ('wavelet_estimation', 'welch_estimation'):
            nt = I.get('pymultifracs.psd:PSD')
            return NTInst(nt, [OVal(obj('field:' + f, t)) for f in nt.fields])
        return OVal(t)

    def hook(name):
        def fn(I, args, kw):
            t = term(I, name, args, kw)
            if I.decide(app('fails', t)):
                raise PyRaise('ValueError', 'refused by ' + name)
            return value(I, name, t)
        return fn

    def rterm(I, r):
        """term of a returned object"""
        r = I.force(r)
        if isinstance(r, NTInst) and all(isinstance(v, OVal) and v.t.op == 'obj' and v.t.args[0] == 'field:' + f for v, f in zip(r.vals, r.cls.fields)):
            ts = {v.t.args[1] for v in r.vals}
            if len(ts) == 1:
                return ts.pop()
            return obj('mixed', *[v.t for v in r.vals])
        if isinstance(r, OVal):
            return r.t
        return obj('other', I.oterm(r))

    # ---- parameters: arbitrary objects, compared by ==
    def param(name, i):
        n = f'{name}.{i}'
        declare(n, 'O')
        return OVal(var(n))

    def qvec(I, i, kind, const_=False):
        declare(f'q{i}', 'R', 1)
        declare(f'nq{i}', 'I', lo=1)
        n = var(f'nq{i}')
        if kind == 'array':
            return A((n,), lambda k: app(f'q{i}', k))
        return PyList([Seg(n, lambda k: Sc(app(f'q{i}', lift(k)), 'float'))], 'list')

    WP = ('j1', 'j2', 'normalization', 'gamint', 'weighted', 'wt_name', 'p_exp')

    class H:
        """ghost state of one session"""

        def __init__(self, I):
            self.I = I
            reg[:] = [Calls(I)]
            for n in FNS:
                I.contracts[FNS[n]] = hook(n)
            self.data = A((var('n'),), lambda k: app('data', k), I=I, label='session data')
            self.fs = param('fs', 0)
            self.log = param('log', 0)
            self.s = I.call(I.get(SG + 'Signal'), [self.data, self.fs], {'log': self.log})
            self.wt = None           # (parameters, value) of the latest successful wavelet analysis

        def expect(self, name, args, kw):
            return term(self.I, name, args, kw)

        def call(self, m, kw, args=()):
            try:
                return 'ok', self.I.call(self.I.getattr(self.s, m), list(args), kw)
            except PyRaise as e:
                return 'raise', e.etype

        def check(self, ob, lab, got, t):
            """the call gave what the stand-alone call described by t gives"""
            I = self.I
            if got[0] == 'raise':
                ob(lab + ': refused only when the stand-alone function refuses', app('fails', t))
                return False
            ob(lab + ': result of the stand-alone function for the parameters in force', same(rterm(I, got[1]), t))
            return True

        # one operation; i tells the parameters of different calls apart
        def op(self, ob, name, i, lab, kind='array', save=True):
            I = self.I
            lab = f'{lab} {name}'
            if name == 'wavelet psd':
                p = {k: param('w' + k, i) for k in ('n_moments', 'j2')}
                self.check(ob, lab, self.call('estimate_wavelet_psd', p), self.expect('wavelet_estimation', [self.data, self.fs], p))
            elif name == 'welch psd':
                p = {k: param('h' + k, i) for k in ('n_fft', 'seg_size')}
                self.check(ob, lab, self.call('estimate_welch_psd', p), self.expect('welch_estimation', [self.data, self.fs], p))
            elif name == 'spectral slope':
                p = {'n_moments': param('wn_moments', i), 'freq_band': param('band', i)}
                psd = self.expect('wavelet_estimation', [self.data, self.fs], {'n_moments': p['n_moments'], 'j2': None})
                got = self.call('fractal_analysis', p)
                if got[0] == 'raise' and I.decide(app('fails', psd)):
                    return
                v = value(I, 'wavelet_estimation', psd)
                self.check(ob, lab, got, self.expect('estimate_beta', [v.get('freq'), v.get('psd')], {'log': self.log, 'freq_band': p['freq_band']}))
            elif name == 'wavelet analysis':
                p = {k: param(k, i) for k in WP}
                t = self.expect('wavelet_analysis', [self.data], p)
                if self.check(ob, lab, self.call('wavelet_analysis', p), t):
                    self.wt = (p, value(I, 'wavelet_analysis', t))
            elif name == 'full analysis':
                p = {k: param(k, i) for k in WP}
                q = None if kind == 'none' else qvec(I, i, kind)
                c = param('n_cumul', i)
                t = self.expect('wavelet_analysis', [self.data], p)
                got = self.call('mf_analysis_full', {**p, 'q': q, 'n_cumul': c, 'save': save})
                if got[0] == 'raise' and I.decide(app('fails', t)):
                    return
                self.wt = (p, value(I, 'wavelet_analysis', t))
                if q is None:
                    q = PyList([2], 'list')
                self.check(ob, lab, got, self.mf(q, c))
                return q
            else:
                if self.wt is None:
                    kw = {'q': qvec(I, i, kind), 'n_cumul': param('n_cumul', i)} if name == 'multifractal analysis' else {}
                    got = self.call({'multifractal analysis': 'mf_analysis'}.get(name, name), kw)
                    ob(lab + ': AttributeError before any wavelet analysis', const(got == ('raise', 'AttributeError')))
                    return
                p, v = self.wt
                if name == 'multifractal analysis':
                    q, c = qvec(I, i, kind), param('n_cumul', i)
                    t = self.mf(q, c)
                    self.check(ob, lab, self.call('mf_analysis', {'q': q, 'n_cumul': c, 'save': save}), t)
                    return q
                if name == 'hurst':
                    self.check(ob, lab, self.call('hurst', {}), self.expect('compute_hurst', [v.get('wt_coefs'), p['j1'], v.get('j2_eff'), p['weighted']], {}))
                if name == 'hmin':
                    self.check(ob, lab, self.call('hmin', {}), self.expect('estimate_hmin', [v.get('wt_coefs'), p['j1'], v.get('j2_eff'), p['weighted']], {}))

        def mf(self, q, c):
            p, v = self.wt
            return self.expect('mf_analysis', [], {'wt_coefs': v.get('wt_coefs'), 'wt_leaders': v.get('wt_leaders'), 'j2_eff': v.get('j2_eff'),
                                                   'j1': p['j1'], 'weighted': p['weighted'], 'q': q, 'n_cumul': c})

        def done(self, ob):
            ob('session data untouched', const(not self.I.written and self.I.force(self.I.getattr(self.s, 'data')) is self.data and
                                              self.I.force(self.I.getattr(self.s, 'fs')) is self.fs))
        # ---- the representation invariant
        FIELDS = ('wt_psd_param', 'wt_psd', 'welch_param', 'welch_psd', 'wt_param', 'wt_transform', 'mf_param', 'multi_fractal')

        def attr(self, n):
            if n not in self.s.attrs and self.s.cls.find(n) is None:
                raise Unsupported(f'the session has no attribute {n}: the representation invariant does not apply')
            return self.I.force(self.I.getattr(self.s, n))

        def nt(self, n, d):
            c = self.I.get(SG + n)
            if not isinstance(c, NTClass) or set(c.fields) != set(d):
                raise Unsupported(f'{n} is not the tuple the representation invariant is written for')
            return NTInst(c, [d[f] for f in c.fields])

        def assume(self, psd, welch, wt, mf, kind):
            """any state that satisfies the invariant"""
            I = self.I
            st = {}
            for n in self.FIELDS:
                if self.attr(n) is not None:
                    raise Unsupported('initial state')

            def ok(name, args, kw):
                t = self.expect(name, args, kw)
                I.pc.append(not_(app('fails', t)))
                return value(I, name, t)
            if psd:
                p = {k: param('w' + k, 0) for k in ('n_moments', 'j2')}
                st['wt_psd_param'], st['wt_psd'] = self.nt('WTParametersPSD', p), ok('wavelet_estimation', [self.data, self.fs], p)
            if welch:
                p = {k: param('h' + k, 0) for k in ('n_fft', 'seg_size')}
                st['welch_param'], st['welch_psd'] = self.nt('WelchParameters', p), ok('welch_estimation', [self.data, self.fs], p)
            if wt:
                p = {k: param(k, 0) for k in WP}
                st['wt_param'], st['wt_transform'] = self.nt('WaveletParameters', p), ok('wavelet_analysis', [self.data], p)
                self.wt = (p, st['wt_transform'])
            if mf:
                q, c = qvec(I, 0, kind), param('n_cumul', 0)
                st['mf_param'] = self.nt('MFParameters', {'q': q, 'n_cumul': c})
                t = self.mf(q, c)
                I.pc.append(not_(app('fails', t)))
                st['multi_fractal'] = value(I, 'mf_analysis', t)
            for n, v in st.items():
                I.setattr(self.s, n, v)

        def ensure(self, ob, q=None):
            I = self.I

            def params(n, cls, keys):
                v = self.attr(n)
                if not (isinstance(v, NTInst) and set(v.cls.fields) == set(keys)):
                    raise Unsupported(f'{n} is not the tuple the representation invariant is written for')
                return {k: v.get(k) for k in keys}
            for pn, vn, fn, keys in (('wt_psd_param', 'wt_psd', 'wavelet_estimation', ('n_moments', 'j2')),
                                     ('welch_param', 'welch_psd', 'welch_estimation', ('n_fft', 'seg_size'))):
                v = self.attr(vn)
                if v is not None:
                    ob(f'invariant: {vn} belongs to {pn}', same(rterm(I, v), self.expect(fn, [self.data, self.fs], params(pn, None, keys))))
            v = self.attr('wt_transform')
            if v is not None:
                p = params('wt_param', None, WP)
                ob('invariant: wt_transform belongs to wt_param', same(rterm(I, v), self.expect('wavelet_analysis', [self.data], p)))
                ob('invariant: it is the latest wavelet analysis', same(rterm(I, v), rterm(I, self.wt[1])) if self.wt else FALSE)
            else:
                ob('invariant: the latest wavelet analysis is kept', const(self.wt is None))
            m = self.attr('multi_fractal')
            if m is not None:
                p = params('mf_param', None, ('q', 'n_cumul'))
                ob('invariant: multifractal results belong to mf_param and the latest wavelet analysis', same(rterm(I, m), self.mf(p['q'], p['n_cumul'])) if self.wt else FALSE)
                pq = I.force(p['q'])
                ob('invariant: the exponents kept are not shared with the caller', const(q is None or not shared(pq, I.force(q))))
    declare('data', 'R', 1)
    declare('n', 'I', lo=1)

    def shared(a, b):
        return a is b or (isinstance(a, Arr) and isinstance(b, Arr) and a.cell is b.cell)

    def hist(ops, kind='array', save=True):
        def run(I, ob):
            h = H(I)
            for i, o in enumerate(ops):
                h.op(ob, o, i, f'call {i + 1}:', kind, save if i == 0 else True)
            h.done(ob)
        return run
    W, Q = 'wavelet analysis', 'multifractal analysis'
    for o in (Q, 'hurst', 'hmin'):
        S.scenario(f'history: {o} first', hist([o]))
    for o in ('wavelet psd', 'welch psd', W, 'spectral slope'):
        S.scenario(f'history: {o} twice', hist([o, o]))
    for kind in ('array', 'list'):
        S.scenario(f'history: wavelet analysis, multifractal analysis twice ({kind})', hist([W, Q, Q], kind))
        S.scenario(f'history: full analysis twice ({kind})', hist(['full analysis', 'full analysis'], kind))

    # every call preserves the invariant and returns the right result from any state that satisfies it
    states = {'empty': (0, 0, 0, 0), 'spectra and transform': (1, 1, 1, 0), 'everything': (1, 1, 1, 1)}
    for sn, st in states.items():
        for o in ('wavelet psd', 'welch psd', 'spectral slope', W, Q, 'full analysis', 'hurst', 'hmin'):
            variants = [(k0, k, sv) for k0 in (('array', 'list') if st[3] else ('array',)) for k in (('array', 'list') + (('none',) if o != Q else ())) for sv in (True, False)] \
                if o in (Q, 'full analysis') else [('array', 'array', True)]
            for k0, k, sv in variants:
                def step(I, ob, o=o, st=st, k0=k0, k=k, sv=sv):
                    h = H(I)
                    h.assume(*st, k0)
                    q = h.op(ob, o, 1, 'call:', k, sv)
                    h.done(ob)
                    h.ensure(ob, q)
                S.scenario(f'from any state ({sn}, {k0}): {o}' + (f' ({k}{"" if sv else ", not saved"})' if o in (Q, 'full analysis') else ''), step)
