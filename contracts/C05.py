"""estimate_hmin and compute_hurst."""
from pyvc.spec import *
from .common import *

HM = 'pymultifracs.estimation:estimate_hmin'
HU = 'pymultifracs.estimation:compute_hurst'


def contract(S):
    S.functions |= {HM, HU, MRQ + 'Base.get_nj_interv'}
    S.assume('exact real arithmetic; coefficients are finite')
    S.assume('preconditions: 1 <= j1 < j2 <= number of scales; every scale and realisation has a valid coefficient; valid coefficients are non-zero')
    S.assume('the obligation "a warning is issued whenever some hmin is negative" is the recorded finding of known-findings.txt: '
             'it is not discharged; "no warning when warnings are disabled" is')
    m = SymMRQ(sign='!')
    declare('j1', 'I', lo=1)
    declare('j2', 'I', lo=1)
    declare('g', 'R')
    j1, j2, g = var('j1'), var('j2'), var('g')

    def cases():
        yield from rtcases('C05', 'Hmin', 300)

    def interp(c):
        if not small(c['vals']):
            return None
        v, f = m.env(c['vals'])
        v.update({'j1': c['j1'], 'j2': c['j2'], 'g': c['gamint']})
        return Env(v, f)

    def y(j, r):
        return log2(max_over(m.L(j), lambda k: m.V(j, k, r), lambda k: abs_(m.X(j, k, r))))

    def log2S(j, r):
        return log2(Smean(m, j, r, lambda x: power(abs_(x), 2)))

    n = add(sub(j2, j1), 1)

    def wcond(I):
        """on this path: has a warning been issued"""
        return or_(FALSE, *[e[2] if len(e) > 2 else TRUE for e in I.effects if e[0] == 'warn'])
    prove_fast_power(S)
    for weighted in (True, False):
        for warn, ry in ((True, False), (False, True), (True, True), (False, False)):
            def run(I, ob, weighted=weighted, warn=warn, ry=ry):
                use(I, 'linreg')
                I.pc += [lt(j1, j2), le(j2, m.J)]
                mrq = m.build(I)
                kw = {}
                if not warn:
                    kw['warn'] = False
                if ry:
                    kw['return_y'] = True
                out = I.elems(I.call(I.get(HM), [mrq, Sc(j1, 'int'), Sc(j2, 'int'), weighted], kw))
                ob('number of results', const(len(out) == (3 if ry else 2)))
                reg = lambda r: reg_scales(m, j1, j2, weighted, y, r)
                eqarr(I, ob, 'hmin', out[0], (m.R,), lambda r: reg(r)[0])
                eqarr(I, ob, 'intercept', out[1], (m.R,), lambda r: reg(r)[1])
                if ry:
                    eqarr(I, ob, 'fitted ordinates', out[2], (n, m.R), lambda k, r: y(add(j1, k), r))
                if not warn:
                    ob('no warning when disabled', const(not I.effects))
                else:
                    warned = wcond(I)
                    h = lambda r: I.force(out[0]).at([lift(r)])[1]      # equal to reg(r)[0]: obligation 'hmin' above
                    some = lambda o: bany(m.R, lambda r: o(h(r), 0))
                    valid = [implies(some(lt), some(le)), implies(some(eq), some(le))]      # tautologies, for the prover
                    ob('a warning when some hmin is negative and some is exactly zero',
                       implies(and_(some(lt), some(eq)), warned), valid)
                    ob('a warning only when some hmin is not positive',
                       or_(not_(warned), some(lt), some(eq), some(le)))
                ob('inputs untouched', const(not I.written))
            S.scenario(f'estimate_hmin(weighted={weighted}, warn={warn}, return_y={ry})', run, cases, interp)

        def runh(I, ob, weighted=weighted):
            use(I, 'linreg')
            I.contracts[FASTPOW] = fast_power_contract
            I.pc += [lt(j1, j2), le(j2, m.J)]
            mrq = m.build(I, gamint=Sc(g, 'float'))
            out = I.elems(I.call(I.get(HU), [mrq, Sc(j1, 'int'), Sc(j2, 'int'), weighted], {}))
            ob('three results', const(len(out) == 3))
            reg = lambda r: reg_scales(m, j1, j2, weighted, log2S, r)
            eqarr(I, ob, 'Hurst is zeta(2)/2', out[0], (m.R,), lambda r: div(reg(r)[0], 2))
            st = I.force(out[1])
            eqarr(I, ob, 'returned structure function', I.getattr(st, 'logvalues'), (ONE, m.J, m.R), lambda i, j, r: log2S(add(j, 1), r))
            eqarr(I, ob, 'its zeta', I.getattr(st, 'zeta'), (ONE, m.R), lambda i, r: reg(r)[0])
            eqarr(I, ob, 'log2 S(j,2)', out[2], (m.J, m.R), lambda j, r: log2S(add(j, 1), r))
            ob('inputs untouched', const(not I.written))
        S.scenario(f'compute_hurst(weighted={weighted})', runh, cases, interp)
