"""StructureFunction: S(j, q), log2 S, zeta, intercept, H."""
from pyvc.spec import *
from .common import *

CLS = 'pymultifracs.structurefunction:StructureFunction'


def nj_at(I, nj, j, hyps):
    """the value stored under scale j, None when there is none"""
    n = len(I.pc)
    I.pc += hyps
    try:
        return I.force(I.getitem(nj, Sc(j, 'int')))
    except PyRaise:
        return None
    finally:
        del I.pc[n:]


def contract(S):
    S.functions |= {CLS + m for m in ('.__post_init__', '._compute', '._compute_zeta', '._get_H', '.get_intercept')} | {'pymultifracs.utils:fast_power', MRQ + 'Base.get_nj_interv', MRQ + '.__getattr__'}
    S.assume('exact real arithmetic; coefficients are finite')
    S.assume('preconditions: 1 <= j1 < j2 <= number of scales; every scale and realisation has a valid coefficient; valid coefficients are non-zero')
    m = SymMRQ(sign='!')
    declare('Q', 'I', lo=1)
    declare('q', 'R', 1)
    declare('j1', 'I', lo=1)
    declare('j2', 'I', lo=1)
    declare('g', 'R')
    Q, j1, j2, g = var('Q'), var('j1'), var('j2'), var('g')
    q = lambda i: app('q', i)

    def cases():
        yield from rtcases('C02', 'SF', 300)

    def interp(c):
        if not small(c['vals']):
            return None
        v, f = m.env(c['vals'])
        v.update({'Q': len(c['q']), 'j1': c['j1'], 'j2': c['j2'], 'g': c['gamint']})
        f['q'] = lambda i: float(c['q'][i]) if i < len(c['q']) else 0.5
        return Env(v, f)

    def Sq(qq, j, r):
        return div(bsum(m.L(j), lambda k: mul(ind(m.V(j, k, r)), absq(m.X(j, k, r), qq))), m.cnt(j, r))

    def log2S(qq, j, r):
        return div(ln(Sq(qq, j, r)), LN2)

    def pre(I):
        j = fresh('j', 'I')
        I.pc += [lt(j1, j2), le(j2, m.J)]

    prove_fast_power(S)
    for weighted in (True, False):
        for formalism in ('wavelet coef',):
            def run(I, ob, weighted=weighted, formalism=formalism):
                use(I, 'linreg')
                I.contracts[FASTPOW] = fast_power_contract
                pre(I)
                mrq = m.build(I, formalism, Sc(g, 'float'))
                qa = A((Q,), lambda i: q(i), I=I, label='q')
                s = I.call(I.get(CLS), [mrq, qa, Sc(j1, 'int'), Sc(j2, 'int'), weighted], {})
                T = lambda n: I.getattr(s, n)
                eqarr(I, ob, 'S(j,q)', T('values'), (Q, m.J, m.R), lambda i, j, r: Sq(q(i), add(j, 1), r))
                eqarr(I, ob, 'log2 S(j,q)', T('logvalues'), (Q, m.J, m.R), lambda i, j, r: log2S(q(i), add(j, 1), r))
                n = add(sub(j2, j1), 1)

                def reg(qq, r):
                    w = (lambda k: m.cnt(add(j1, k), r)) if weighted else (lambda k: ONE)
                    return wls(n, lambda k: add(j1, k), lambda k: log2S(qq, add(j1, k), r), w)
                eqarr(I, ob, 'zeta(q)', T('zeta'), (Q, m.R), lambda i, r: reg(q(i), r)[0])
                eqarr(I, ob, 'intercept', T('intercept'), (Q, m.R), lambda i, r: reg(q(i), r)[1])
                eqarr(I, ob, 'j', T('j'), (m.J,), lambda i: add(i, 1))
                H = I.force(T('H'))
                has2 = bany(Q, lambda i: eq(q(i), 2))
                if H is None:
                    ob('H is None only without q = 2', not_(has2))
                else:
                    ob('H only with q = 2', has2)
                    eqarr(I, ob, 'H', H, (m.R,), lambda r: sub(div(reg(TWO, r)[0], 2), g))
                ob('formalism', const(T('formalism') == formalism))
                nj = I.force(T('nj'))
                jk = fresh('j', 'I')
                hj = [le(ONE, jk), le(jk, m.J)]
                cnt = nj_at(I, nj, jk, hj)
                ob('number of values: an entry for every scale', const(cnt is not None))
                if cnt is not None:
                    eqarr(I, ob, 'number of values', cnt, (m.R,), lambda r: m.cnt(jk, r), hyps=hj)
                ic = I.force(I.call(I.getattr(s, 'get_intercept'), [], {}))
                if ic is None:
                    ob('the intercept is None only without q = 2', not_(has2))
                else:
                    ob('intercept only with q = 2', has2)
                    eqarr(I, ob, 'intercept at q = 2', ic, (m.R,), lambda r: reg(TWO, r)[1])
                nr = T('nrep')
                ob('nrep', eq(sc(nr).t, m.R))
                ob('j1, j2', and_(eq(sc(T('j1')).t, j1), eq(sc(T('j2')).t, j2)))
                ob('inputs untouched', const(not I.written))
            S.scenario(f'StructureFunction(weighted={weighted})', run, cases, interp)
