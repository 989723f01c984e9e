"""build_q_log: the set of exponents, sorted and distinct."""
from pyvc.spec import *
from .common import *

FN = 'pymultifracs.utils:build_q_log'


def contract(S):
    S.functions.add(FN)
    S.assume('exact real arithmetic: log-spaced values that coincide mathematically are the same floating point number')
    declare('a', 'R', sign='+')
    declare('b', 'R', sign='+')
    declare('a0', 'R')
    declare('b0', 'R')
    declare('n', 'I', lo=0)
    a, b, n = var('a'), var('b'), var('n')

    def cases():
        yield from rtcases('C15', 'QLog', 300)

    def interp(c):
        e = Env({'a0': float(c['a']), 'b0': float(c['b']), 'n': c['n']}, {})
        if c['a'] > 0 and c['b'] > 0:
            e.vals.update({'a': float(c['a']), 'b': float(c['b']), 'x': 1.0})
        return e

    for kind in ('float', 'int'):
        def run(I, ob, kind=kind):
            r = I.call(I.get(FN), [Sc(a, kind), Sc(b, kind), Sc(n, 'int')], {})
            r = I.force(r)
            ok = isinstance(r, Arr) and r.tag and r.tag[0] == 'unique' and r.tag[1] is r.cell.content
            ob('strictly increasing vector (numpy.unique)', const(bool(ok)))
            if not ok:
                return
            m, f = r.tag[2], r.tag[3]
            x = fresh('x', 'R')
            one = I.decide(eq(n, 1))
            seg = pieces(I, m, lambda k: f((lift(k),))[1])
            got = or_(*[bany(l, lambda k: eq(g(k), x)) for l, g in seg])
            # a (b/a)^(k/(n-1)), or a alone when n = 1
            g = (lambda k: a) if one else (lambda k: mul(a, power(div(b, a), div(k, sub(n, 1)))))
            spec = lambda y: or_(*[eq(y, v) for v in (0, 1, 2)], bany(n, lambda k: eq(y, g(k))))
            ob('elements are never missing', not_(bany(m, lambda k: f((k,))[0])))
            ob('the set of exponents is {0, 1, 2, log-spaced} and its opposite', iff(got, or_(spec(x), spec(neg(x)))))
            ob('non-negative part is exactly {0, 1, 2, log-spaced}', iff(and_(got, le(0, x)), spec(x)))
            ob('symmetric about zero', iff(got, subst(got, {x: neg(x)})))
        S.scenario(f'build_q_log({kind} bounds)', run, cases, interp)

    for kind in ('float', 'int'):
        def bad(I, ob, kind=kind):
            u, v = var('a0'), var('b0')
            I.pc.append(or_(le(u, 0), le(v, 0)))
            try:
                I.call(I.get(FN), [Sc(u, kind), Sc(v, kind), Sc(n, 'int')], {})
                ob('non-positive bounds are rejected', FALSE)
            except PyRaise as e:
                ob('non-positive bounds are rejected with a ValueError', const(e.etype == 'ValueError'))
        S.scenario(f'build_q_log(non-positive {kind} bounds)', bad, cases, interp)
