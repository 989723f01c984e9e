"""Numeric evaluation of terms under an environment (falsification, engine cross-check)."""
import math
import cmath
from .terms import *


class NoValue(Exception):
    pass


class Env:
    """vals: var name -> number/bool; fns: app name -> python function of the evaluated arguments"""

    def __init__(self, vals=None, fns=None, default=None):
        self.vals, self.fns, self.default = vals or {}, fns or {}, default
        self.memo = {}

    def ev(self, t):
        if not t.fv:
            pass
        r = self.memo.get(t)
        if r is None:
            r = self._ev(t, self.memo, ())
            self.memo[t] = r
        return r

    def _e(self, t, memo, bound):
        key = t
        if any(x.op == 'bv' for x in t.fv):
            r = memo.get((t, bound))
            if r is None:
                r = self._ev(t, memo, bound)
                memo[(t, bound)] = r
            return r
        r = memo.get(t)
        if r is None:
            r = self._ev(t, memo, bound)
            memo[t] = r
        return r

    def _ev(self, t, memo, bound):
        op = t.op
        E = lambda u: self._e(u, memo, bound)
        if op == 'const':
            c = t.args[0]
            if isinstance(c, bool) or t.sort == 'O':
                return c
            return int(c) if c.denominator == 1 else float(c)
        if op == 'bv':
            for h, v in bound:
                if h == t.args[0]:
                    return v
            raise NoValue('bv')
        if op == 'var':
            n = t.args[0]
            if n in self.vals:
                return self.vals[n]
            if n in self.fns:
                return self.fns[n]()
            d = DECL[n]
            if d.conc:
                return d.conc(self)
            if self.default:
                v = self.vals[n] = self.default(self, n, ())
                return v
            raise NoValue(n)
        if op == 'app':
            n = t.args[0]
            a = tuple(E(u) for u in t.args[1:])
            f = self.fns.get(n)
            if f is not None:
                return f(*a)
            d = DECL[n]
            if d.conc:
                return d.conc(self, *a)
            if d.unfold:
                key = (n,) + a
                r = memo.get(key)
                if r is None:
                    r = self._ev_closed(d.unfold(*[const(v) for v in a]))
                    memo[key] = r
                return r
            if self.default:
                key = (n,) + a
                r = memo.get(key)
                if r is None:
                    r = memo[key] = self.default(self, n, a)
                return r
            raise NoValue(n)
        if op == 'poly':
            r = 0
            for m, c in t.args:
                v = int(c) if c.denominator == 1 else float(c)
                zero = False
                for a, e in m:
                    if a.op == 'ind' and e > 0:
                        if not E(a.args[0]):
                            zero = True
                            break
                if zero:
                    continue
                for a, e in m:
                    if a.op == 'ind' and e > 0:
                        continue
                    x = E(a)
                    if e < 0 and x == 0:
                        raise NoValue('1/0')
                    v = v * x ** e
                r += v
            return r
        if op == 'inv0':
            raise NoValue('1/0')
        if op == 'ln':
            x = E(t.args[0])
            if x == 0:
                raise NoValue('ln 0')
            return math.log(abs(x))
        if op == 'exp':
            x = E(t.args[0])
            if x > 600:
                raise NoValue('overflow')
            return math.exp(x)
        if op == 'abs':
            return abs(E(t.args[0]))
        if op == 'pow':
            x, y = E(t.args[0]), E(t.args[1])
            if x < 0 and y != int(y) or (x == 0 and y < 0):
                raise NoValue('pow')
            return x ** y
        if op == 'csqrt':
            return cmath.sqrt(E(t.args[0]))
        if op == 're':
            return complex(E(t.args[0])).real
        if op == 'w':
            return cmath.exp(-2j * math.pi * E(t.args[1]) / E(t.args[0]))
        if op == 'floor':
            x = E(t.args[0])
            r = round(x)
            if abs(x - r) < 1e-9:
                return int(r)
            return math.floor(x)
        if op == 'ind':
            return 1 if E(t.args[0]) else 0
        if op == 'le0':
            x = E(t.args[0])
            return x <= (0 if isinstance(x, int) else 1e-11)
        if op == 'lt0':
            x = E(t.args[0])
            return x < (0 if isinstance(x, int) else -1e-11)
        if op == 'eq0':
            x = E(t.args[0])
            return x == 0 if isinstance(x, int) else abs(x) < 1e-9
        if op == 'oeq':
            return E(t.args[0]) == E(t.args[1])
        if op == 'oite':
            return E(t.args[1]) if E(t.args[0]) else E(t.args[2])
        if op == 'not':
            return not E(t.args[0])
        if op == 'and':
            return all(E(u) for u in t.args)
        if op == 'or':
            return any(E(u) for u in t.args)
        if op == 'iff':
            return bool(E(t.args[0])) == bool(E(t.args[1]))
        if op in ('sum', 'any'):
            n, b = t.args
            n = int(E(n))
            if n > 5000:
                raise NoValue('big')
            h = b.h + 1
            if op == 'sum':
                r = 0
                for k in range(n):
                    r += self._e(b, memo, self._bind(b, bound, h, k))
                return r
            return any(self._e(b, memo, self._bind(b, bound, h, k)) for k in range(n))
        if op == 'smax':
            best = None
            for n, g, v in t.args:
                if n is None:
                    if E(g):
                        x = E(v)
                        best = x if best is None else max(best, x)
                    continue
                h = max(g.h, v.h) + 1
                for k in range(int(E(n))):
                    bb = self._bind(None, bound, h, k)
                    if self._e(g, memo, bb):
                        x = self._e(v, memo, bb)
                        best = x if best is None else max(best, x)
            if best is None:
                raise NoValue('max of nothing')
            return best
        if op == 'obj':
            return (t.args[0],) + tuple(E(u) for u in t.args[1:])
        raise NotImplementedError(op)

    def _bind(self, b, bound, h, k):
        return ((h, k),) + tuple(x for x in bound if x[0] != h)

    def _ev_closed(self, t):
        return self._e(t, self.memo, ())
