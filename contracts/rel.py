"""Two runs of the same code, compared."""
from pyvc.spec import *
from .common import *


__all__ = ["View", "column", "scaled", "fields", "same_column", "changed", "changed_mrq"]


class View(SymMRQ):
    """a quantity derived from another one: value and validity given elementwise, same scales and positions"""

    def __init__(self, m, R, X, V=None):
        self.m, self.R, self.J, self.tag = m, R, m.J, m.tag
        self.X, self.V = X, V or m.V
        self.L = m.L


def column(m, r0):
    """realisation r0 alone"""
    return View(m, ONE, lambda j, k, r: m.X(j, k, r0), lambda j, k, r: m.V(j, k, r0))


def scaled(m, c):
    return View(m, m.R, lambda j, k, r: mul(c, m.X(j, k, r)))


def fields(I, o, names):
    return [(n, I.force(I.getattr(o, n))) for n in names]


def same_column(I, ob, lab, a, b, R, r0, hyps):
    """a: result for R realisations (last axis); b: result for realisation r0 alone"""
    a, b = I.force(a), I.force(b)
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        if a is None or b is None:
            ob(lab + ': both absent', const(a is None and b is None))
            return
        if isnum(a) and isnum(b):
            x, y = sc(a), sc(b)
            ob(lab + ': the same', and_(iff(x.nan, y.nan), eq(x.t, y.t)), hyps)
            return
        raise Unsupported(f'{lab}: {type(a).__name__} and {type(b).__name__}')
    if a.ndim != b.ndim or a.ndim == 0:
        ob(lab + ': dimensions', FALSE)
        return
    ob(lab + ': shape', and_(*[eq(x, y) for x, y in zip(a.shape[:-1], b.shape[:-1])], eq(a.shape[-1], R), eq(b.shape[-1], ONE)), hyps)
    import itertools
    dims = []
    for n in a.shape[:-1]:
        n = I.simp(n)
        dims.append([const(i) for i in range(int(n.args[0]))] if n.op == 'const' and n.args[0] <= 12 else [None])
    for combo in itertools.product(*dims):
        ix = [c if c is not None else fresh('i', 'I', sign='0+') for c in combo]
        hy = hyps + [lt(i, n) for i, n in zip(ix, a.shape[:-1])]
        (na, va), (nb, vb) = a.at(ix + [r0]), b.at(ix + [ZERO])
        ob(lab + ': missing alike', iff(na, nb), hy)
        ob(lab + ': value of the realisation alone', eq(va, vb), hy + [not_(na)])


def changed(I, ob, lab, a, b, rule, hyps=()):
    """b: result for the changed input; every value is rule(value in a, indices), missing values alike"""
    import itertools
    hyps = list(hyps)
    a, b = I.force(a), I.force(b)
    if a is None or b is None:
        ob(lab + ': both absent', const(a is None and b is None))
        return
    if isnum(a) and isnum(b):
        x, y = sc(a), sc(b)
        ob(lab + ': missing alike', iff(x.nan, y.nan), hyps)
        ob(lab + ': value', eq(y.t, rule(x.t, [])), hyps + [not_(x.nan)])
        return
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        raise Unsupported(f'{lab}: {type(a).__name__} and {type(b).__name__}')
    if a.ndim != b.ndim:
        ob(lab + ': dimensions', FALSE)
        return
    ob(lab + ': shape', and_(*[eq(x, y) for x, y in zip(a.shape, b.shape)]), hyps)
    dims = []
    for n in a.shape[:-1]:
        n = I.simp(n)
        dims.append([const(i) for i in range(int(n.args[0]))] if n.op == 'const' and n.args[0] <= 12 else [None])
    for combo in itertools.product(*dims, [None]):
        ix = [x if x is not None else fresh('i', 'I', sign='0+') for x in combo]
        hy = hyps + [lt(i, n) for i, n in zip(ix, a.shape)]
        (na, va), (nb, vb) = a.at(ix), b.at(ix)
        ob(lab + ': missing alike', iff(na, nb), hy)
        ob(lab + ': value', eq(vb, rule(va, ix)), hy + [not_(na)])


def changed_mrq(I, ob, lab, a, b, rule, hyps=()):
    from .wt import dict_range, entries
    hyps = list(hyps)
    va, vb = (I.force(I.getattr(x, 'values')) for x in (a, b))
    na, nb = (I.force(I.getattr(x, 'nj')) for x in (a, b))
    n1, n2 = dict_range(I, ob, va, lab + ': '), dict_range(I, ob, vb, lab + ' scaled: ')
    if n1 is None or n2 is None:
        return
    ob(lab + ': same scales', eq(n1, n2), hyps)
    for key, fn, hy in entries(I, va):
        m0 = len(I.pc)
        I.pc += hy
        changed(I, ob, lab, fn(), I.dget(vb, Sc(key, 'int')), rule, hyps)
        changed(I, ob, lab + ' counts', I.dget(na, Sc(key, 'int')), I.dget(nb, Sc(key, 'int')), lambda v, ix: v, hyps)
        del I.pc[m0:]
