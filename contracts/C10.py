"""The full analysis is the composition of its documented stages."""
from pyvc.spec import *
from .common import *

MF = 'pymultifracs.mfa:'
WA = 'pymultifracs.wavelet:wavelet_analysis'
HM = 'pymultifracs.estimation:estimate_hmin'
CLS = {'structure': 'pymultifracs.structurefunction:StructureFunction', 'cumulants': 'pymultifracs.cumulants:Cumulants',
       'spectrum': 'pymultifracs.mfspectrum:MultifractalSpectrum'}
PAR = {'structure': ('q', 'j1', 'j2', 'weighted'), 'cumulants': ('n_cumul', 'j1', 'j2', 'weighted'), 'spectrum': ('q', 'j1', 'j2', 'weighted')}


def contract(S):
    S.functions |= {MF + 'mf_analysis', MF + 'minimal_mf_analysis', MF + 'mf_analysis_full',
                    'pymultifracs.multiresquantity:MultiResolutionQuantityBase.from_dict'}
    S.assume('transform and estimators are functions of the values of their arguments, or raise (C02-C09 say what they return); the exponents passed stay as they are (C13)')
    S.assume('leaders are None exactly when p_exp is None (C06)')
    declare('fails', 'B', 1)
    declare('s', 'R', 1)
    declare('n', 'I', lo=1)

    def param(name):
        declare('p.' + name, 'O')
        return OVal(var('p.' + name))

    def qvec(kind):
        declare('q', 'R', 1)
        declare('nq', 'I', lo=1)
        n = var('nq')
        if kind == 'none':
            return None
        if kind == 'array':
            return A((n,), lambda k: app('q', k))
        return PyList([Seg(n, lambda k: Sc(app('q', lift(k)), 'float'))], 'list')

    class G:
        def __init__(self, I, leaders):
            self.I, self.C, self.leaders = I, Calls(I), leaders
            for f, q in CLS.items():
                I.class_contracts[q] = self.cls(f, q)
            I.contracts[HM] = self.hmin
            I.contracts[WA] = self.wa
            self.made = []

        def go(self, t):
            if self.I.decide(app('fails', t)):
                raise PyRaise('ValueError', 'refused')

        def cls(self, f, q):
            def fn(I, args, kw):
                t = self.C.term(f, self.part(cbound(I, I.get(q), args, kw), ('mrq',) + PAR[f]))
                self.go(t)
                return OVal(t)
            return fn

        def part(self, d, keys):
            if set(d) != set(keys):
                # parameters added since: they have to keep their defaults, whatever those are
                raise Unsupported(f'the parameters are {sorted(d)} where the contract names {sorted(keys)}')
            return d

        def hmin(self, I, args, kw):
            d = self.part(bound(I, I.get(HM), args, kw), ('wt_coefs', 'j1', 'j2_eff', 'weighted', 'warn', 'return_y'))
            d.pop('warn')       # has no influence on the value
            if I.force(d.pop('return_y')) is not False:
                raise Unsupported('estimate_hmin with return_y')
            t = self.C.term('hmin', d)
            self.go(t)
            return PyList([OVal(obj('hmin[0]', t)), OVal(obj('hmin[1]', t))], 'tuple')

        def wa(self, I, args, kw):
            t = self.C.term('wavelet_analysis', self.part(bound(I, I.get(WA), args, kw), ('signal', 'p_exp', 'wt_name', 'j1', 'j2', 'gamint', 'normalization', 'weighted')))
            self.go(t)
            return self.wt(t)

        def wt(self, t):
            nt = self.I.get('pymultifracs.wavelet:WaveletTransform')
            return NTInst(nt, [None if f == 'wt_leaders' and not self.leaders else OVal(obj('field:' + f, t)) for f in nt.fields])

        def est(self, f, mrq, p):
            return self.C.term(f, {'mrq': mrq, **{k: p[k] for k in PAR[f]}})

        def hm(self, mrq, p):
            return self.C.term('hmin', {'wt_coefs': mrq, 'j1': p['j1'], 'j2_eff': p['j2'], 'weighted': p['weighted']})

        def check(self, ob, r, mrq, lead, p, minimal, pre=()):
            """r: ('ok', value) or ('raise', type)"""
            I = self.I
            want = {}
            for part, m in (('dwt', mrq), ('lwt', lead)):
                if m is None:
                    continue
                for f in CLS:
                    if not minimal or (part, f) in (('dwt', 'structure'), ('lwt', 'cumulants')):
                        want[part, f] = self.est(f, m, p)
                if not minimal:
                    want[part, 'hmin'] = self.hm(m, p)
            if r[0] == 'raise':
                ob('refused only when a stage refuses', or_(*[app('fails', t) for t in list(pre) + list(want.values())]))
                return
            d = I.force(r[1])
            for part, m in (('dwt', mrq), ('lwt', lead)):
                v = I.force(I.getattr(d, part))
                if m is None:
                    ob(f'{part} is None without leaders', const(v is None))
                    continue
                for f in ('structure', 'cumulants', 'spectrum', 'hmin'):
                    if (part, f) not in want:
                        continue
                    x = I.force(I.getattr(v, f))
                    t = want[part, f]
                    if f == 'hmin':
                        t = obj('hmin[0]', t)
                    ob(f'{part}.{f} is the estimate of this stage with the same parameters', same(x.t, t) if isinstance(x, OVal) else FALSE)

    def run(I, f, args, kw):
        try:
            return 'ok', I.call(f, args, kw)
        except PyRaise as e:
            return 'raise', e.etype

    for minimal in (False, True):
        fn = 'minimal_mf_analysis' if minimal else 'mf_analysis'
        for leaders in (True, False):
            for kind in ('array', 'list', 'none'):
                def body(I, ob, fn=fn, leaders=leaders, kind=kind, minimal=minimal):
                    g = G(I, leaders)
                    c, l = param('coefs'), (param('leaders') if leaders else None)
                    q = qvec(kind)
                    p = {k: param(k) for k in ('j1', 'j2', 'weighted', 'n_cumul')}
                    r = run(I, I.get(MF + fn), [c, l], {'j2_eff': p['j2'], 'j1': p['j1'], 'weighted': p['weighted'], 'n_cumul': p['n_cumul'], 'q': q})
                    p['q'] = q if q is not None else PyList([2], 'list')
                    g.check(ob, r, c, l, p, minimal)
                S.scenario(f'{fn} ({"coefficients and leaders" if leaders else "coefficients"}, q {kind})', body)

    WP = ('j1', 'j2', 'normalization', 'gamint', 'weighted', 'wt_name', 'p_exp')
    for minimal in (False, True):
        for leaders in (True, False):
            for kind in ('array', 'list', 'none'):
                def body(I, ob, leaders=leaders, kind=kind, minimal=minimal):
                    g = G(I, leaders)
                    sig = A((var('n'),), lambda k: app('s', k), I=I, label='signal')
                    q = qvec(kind)
                    p = {k: param(k) for k in WP + ('n_cumul',)}
                    if not leaders:
                        p['p_exp'] = None
                    r = run(I, I.get(MF + 'mf_analysis_full'), [sig], {**p, 'q': q, 'minimal': minimal})
                    t = g.C.term('wavelet_analysis', {'signal': sig, **{k: p[k] for k in WP}})
                    w = g.wt(t)
                    p['q'] = q if q is not None else PyList([2], 'list')
                    p['j2'] = w.get('j2_eff')
                    g.check(ob, r, w.get('wt_coefs'), w.get('wt_leaders'), p, minimal, [t])
                    ob('the signal is untouched', const(not I.written))
                S.scenario(f'mf_analysis_full ({"minimal" if minimal else "full"}, {"with" if leaders else "without"} leaders, q {kind})', body)

    def defaults(I, ob):
        g = G(I, False)
        sig = A((var('n'),), lambda k: app('s', k), I=I, label='signal')
        p = {k: param(k) for k in ('j1', 'j2')}
        r = run(I, I.get(MF + 'mf_analysis_full'), [sig, p['j1'], p['j2']], {})
        p.update(normalization=1, gamint=0.0, weighted=True, wt_name='db3', p_exp=None, n_cumul=3)
        t = g.C.term('wavelet_analysis', {'signal': sig, **{k: p[k] for k in WP}})
        w = g.wt(t)
        p['q'] = PyList([2], 'list')
        p['j2'] = w.get('j2_eff')
        g.check(ob, r, w.get('wt_coefs'), None, p, False, [t])
    S.scenario('mf_analysis_full with the documented defaults', defaults)
