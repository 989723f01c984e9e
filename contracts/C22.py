"""BiCumulants.compute_legendre: the quadratic Legendre transform."""
from pyvc.spec import *
from .common import *

CLS = 'pymultifracs.bivariate.bivariate_cumulants:BiCumulants'


def contract(S):
    S.functions |= {CLS + '.compute_legendre', CLS + '.__getattr__'}
    S.assume('exact real arithmetic')
    S.assume('preconditions: c20*c02 - c11**2 is non-zero; resolution >= 1')
    declare('n', 'I', lo=1)
    declare('LC', 'R', 2)
    declare('lo', 'R')
    declare('hi', 'R')
    n, lo, hi = var('n'), var('lo'), var('hi')
    lc = lambda a, b: app('LC', const(a), const(b))
    c10, c01, c20, c02, c11 = lc(1, 0), lc(0, 1), lc(2, 0), lc(0, 2), lc(1, 1)
    det = sub(mul(c20, c02), mul(c11, c11))

    def spec(h1, h2):
        u, v = sub(h1, c10), sub(h2, c01)
        return add(1, div(add(mul(c02, u, u), mul(c20, v, v), mul(-2, c11, u, v)), mul(2, det)))

    def cases():
        yield from rtcases('C22', 'Legendre', 200)

    def interp(c):
        v = dict(zip([(1, 0), (0, 1), (2, 0), (0, 2), (1, 1)], c['c']))
        h = c['h'] or (0, 1.5)
        return Env({'n': c['res'] or 100, 'lo': float(h[0]), 'hi': float(h[1])}, {'LC': lambda a, b: v.get((a, b), 0.37 * a - .21 * b + .1)})

    def make(I, M):
        o = Inst(I.get(CLS))
        o.attrs['m'] = mk((const(M + 1),), lambda ix: (FALSE, ix[0]), 'i')
        o.attrs['n_cumul'] = M
        o.attrs['log_cumulants'] = A((M + 1, M + 1), lambda a, b: app('LC', a, b), I=I, label='log_cumulants')
        return o

    for M in (2, 3, 4) if S.tier == 'quick' else (2, 3, 4, 5, 6, 8):
        for form in ('keywords', 'positional', 'default support', 'default resolution', 'defaults'):
            def run(I, ob, M=M, form=form):
                I.pc.append(ne(det, 0))
                o = make(I, M)
                f = I.getattr(o, 'compute_legendre')
                sup = PyList([Sc(lo, 'float'), Sc(hi, 'float')], 'tuple')
                L0, H0, N = lo, hi, n
                if form == 'keywords':
                    r = I.call(f, [], {'h_support': sup, 'resolution': Sc(n, 'int')})
                elif form == 'positional':
                    r = I.call(f, [sup, Sc(n, 'int')], {})
                elif form == 'default support':
                    r = I.call(f, [], {'resolution': Sc(n, 'int')})
                    L0, H0 = ZERO, const(Fr(3, 2))
                elif form == 'default resolution':
                    r = I.call(f, [], {'h_support': sup})
                    N = const(100)
                else:
                    r = I.call(f, [], {})
                    L0, H0, N = ZERO, const(Fr(3, 2)), const(100)
                r = I.elems(r)
                ob('a pair (grid, spectrum)', const(len(r) == 2))
                one = I.decide(eq(N, 1))
                g = lambda k: L0 if one else add(L0, mul(k, div(sub(H0, L0), sub(N, 1))))
                eqarr(I, ob, 'grid: evenly spaced from the first to the last bound', r[0], (N,), g)
                eqarr(I, ob, 'quadratic Legendre transform, first axis for the first component', r[1], (N, N), lambda i, j: spec(g(i), g(j)))
                # value at (c10, c01)
                i, j = fresh('i', 'I', sign='0+'), fresh('j', 'I', sign='0+')
                v = r[1].at([i, j])[1]
                ob('value 1 at (c10, c01)', eq(v, 1), [lt(i, N), lt(j, N), eq(g(i), c10), eq(g(j), c01)])
                ob('log-cumulants untouched', const(not I.written))
            S.scenario(f'compute_legendre({form}, n_cumul={M})', run, cases, interp)
