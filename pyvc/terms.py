"""Hash-consed terms and their normal form.

Sorts: 'I' (int), 'R' (real; also used for complex field elements), 'B' (bool), 'O' (opaque object).
Every term handed out by a constructor is already in normal form:

* arithmetic terms are polynomials with rational coefficients over atoms (integer exponents; a negative
  exponent on a multi-term polynomial stands for its inverse);
* at most one EXP atom per monomial, integer multiples of LN(a) pulled out of it;
* LN stands for ln|x| (so it is additive over products); NaN/sign conditions of numpy's log are tracked
  separately, in the NaN flag of array elements;
* IND(c) is the 0/1 indicator of a literal, idempotent; ite(c,a,b) is IND(c)*(a-b)+b;
* SUM(n, body) binds a variable written ('bv', h) with h the binder height of the body, so that alpha
  equivalent sums are the same object; SUM is linear and factors that do not depend on the bound variable
  are pulled out.
"""
from fractions import Fraction as Fr
from math import gcd
import sys
sys.setrecursionlimit(20000)

_TAB = {}
_CNT = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'h', 'fv', '_hash')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def _mk(op, args, sort, h=0, fv=frozenset()):
    key = (op, args, sort)
    t = _TAB.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.sort, t.h, t.fv = op, args, sort, h, fv
        _CNT[0] += 1
        t.id = _CNT[0]
        t._hash = hash(t.id)
        _TAB[key] = t
    return t


def _fv(ts):
    s = frozenset()
    for t in ts:
        s = s | t.fv
    return s


def _h(ts):
    return max([t.h for t in ts], default=0)


# ---------------------------------------------------------------- symbols
class Decl:
    """Declared symbol: sort, sign ('+', '0+', '!', None), arity, integer bounds"""
    def __init__(self, name, sort, arity=0, sign=None, lo=None, hi=None, conc=None, unfold=None):
        self.name, self.sort, self.arity, self.sign = name, sort, arity, sign
        self.lo, self.hi, self.conc, self.unfold = lo, hi, conc, unfold


DECL = {}


def declare(name, sort, arity=0, sign=None, lo=None, hi=None, conc=None, unfold=None):
    if sort == 'I' and sign is None and lo is not None:
        sign = '+' if lo > 0 else ('0+' if lo >= 0 else None)
    d = DECL[name] = Decl(name, sort, arity, sign, lo, hi, conc, unfold)
    return d


declare('iu', 'R', 0, conc=lambda env: 1j).cplx = True      # the imaginary unit
_fresh = [0]


def fresh_name(base):
    _fresh[0] += 1
    return f'{base}!{_fresh[0]}'


def fresh(base, sort='I', **kw):
    n = fresh_name(base)
    declare(n, sort, **kw)
    return var(n)


def var(name):
    d = DECL[name]
    t = _mk('var', (name,), d.sort)
    if not t.fv:
        t.fv = frozenset([t])
    return t


def app(name, *args):
    d = DECL[name]
    args = tuple(lift(a) for a in args)
    assert len(args) == d.arity, (name, args)
    if d.arity == 0:
        return var(name)
    return _mk('app', (name,) + args, d.sort, _h(args), _fv(args))


def bv(h):
    t = _mk('bv', (h,), 'I', 0)
    if not t.fv:
        t.fv = frozenset([t])
    return t


# ---------------------------------------------------------------- constants
def const(c, sort=None):
    if isinstance(c, bool):
        return _mk('const', (c,), 'B')
    if isinstance(c, float):
        c = Fr(repr(c))
    c = Fr(c)
    return _mk('const', (c,), 'I' if c.denominator == 1 else 'R')


TRUE = const(True)
FALSE = const(False)


def lift(x):
    if isinstance(x, T):
        return x
    return const(x)


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


ZERO = const(0)
ONE = const(1)
TWO = const(2)

# ---------------------------------------------------------------- polynomials
# poly dict: {mono: coef}; mono: tuple of (atom T, exp) sorted by atom id; atoms are non-poly terms, or
# 'poly' terms with a negative exponent.


def to_poly(t):
    if t.op == 'const':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.args)
    return {((t, 1),): Fr(1)}


def _mono_sort(m):
    for a, e in m:
        if a.sort != 'I' or e < 0:
            return 'R'
    return 'I'


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda x: tuple((a.id, e) for a, e in x[0])))
    sort = 'I'
    fv = frozenset()
    h = 0
    for m, c in items:
        if c.denominator != 1 or _mono_sort(m) != 'I':
            sort = 'R'
        for a, _ in m:
            fv = fv | a.fv
            if a.h > h:
                h = a.h
    return _mk('poly', items, sort, h, fv)


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def _fix_mono(d, c):
    """d: {atom: exp}. Returns a poly dict (usually one monomial) applying atom-specific rules."""
    extra = None
    expo = None
    out = {}
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == 'ind':
            if e > 0:
                e = 1
            out[a] = e
        elif a.op == 'exp':
            expo = pmul_c(to_poly(a.args[0]), e) if expo is None else padd(expo, to_poly(a.args[0]), e)
        elif a.op == 'abs' and e % 2 == 0:
            out[a.args[0]] = out.get(a.args[0], 0) + e if a.args[0].op != 'poly' else None
            if out[a.args[0]] is None:
                out.pop(a.args[0])
                q = ppow(to_poly(a.args[0]), e) if e > 0 else to_poly(inv(from_poly(ppow(to_poly(a.args[0]), -e))))
                extra = q if extra is None else pmul(extra, q)
        elif a.op == 'abs' and abs(e) > 1:
            # abs(a)^e = abs(a)^s * a^(e-s), s = +-1
            s = 1 if e > 0 else -1
            out[a] = s
            if a.args[0].op != 'poly':
                out[a.args[0]] = out.get(a.args[0], 0) + e - s
            else:
                q = ppow(to_poly(a.args[0]), abs(e - s))
                if e < 0:
                    q = to_poly(inv(from_poly(q)))
                extra = q if extra is None else pmul(extra, q)
        elif a.op == 'poly' and e > 0:
            q = ppow(to_poly(a), e)
            extra = q if extra is None else pmul(extra, q)
        elif a.op == 'csqrt' and abs(e) >= 2:
            s = (abs(e) // 2) * (1 if e > 0 else -1)
            b = from_poly(ppow(to_poly(a.args[0]), abs(s)))
            if s < 0:
                b = inv(b)
            q = to_poly(b)
            extra = q if extra is None else pmul(extra, q)
            if e - 2 * s:
                out[a] = e - 2 * s
        else:
            out[a] = out.get(a, 0) + e
    out = {a: e for a, e in out.items() if e}
    res = {tuple(sorted(out.items(), key=lambda x: x[0].id)): c}
    if expo is not None:
        ex = to_poly(exp(from_poly(expo)))
        # ex is mono * EXP(rest)
        if len(ex) == 1:
            (m2, c2), = ex.items()
            d2 = dict(out)
            again = False
            hasexp = None
            for a, e in m2:
                if a.op == 'exp':
                    hasexp = (a, e)
                    continue
                if a in d2 or a.op in ('abs', 'poly'):
                    again = True
                d2[a] = d2.get(a, 0) + e
            if again:
                r = _fix_mono(d2, c * c2)
                if hasexp:
                    r = {tuple(sorted(m + (hasexp,), key=lambda x: x[0].id)): cc for m, cc in r.items()}
                res = r
            else:
                if hasexp:
                    d2[hasexp[0]] = hasexp[1]
                d2 = {a: e for a, e in d2.items() if e}
                res = {tuple(sorted(d2.items(), key=lambda x: x[0].id)): c * c2}
        else:
            res = pmul(res, ex)
    if extra is not None:
        res = pmul(res, extra)
    return res


def pmul_c(p, c):
    if c == 0:
        return {}
    return {m: v * c for m, v in p.items()}


def _special(a):
    return a.op in ('ind', 'exp', 'abs', 'poly', 'csqrt')


def pmul(p, q):
    if len(p) == 1 and () in p:
        return pmul_c(q, p[()])
    if len(q) == 1 and () in q:
        return pmul_c(p, q[()])
    # whole-polynomial cancellation  P * (Q^-1 ...)
    p, q = _cancel(p, q)
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            if not m1 or not m2:
                m = m1 or m2
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
                continue
            d = dict(m1)
            special = False
            for a, e in m2:
                if a in d:
                    d[a] += e
                    if _special(a):
                        special = True
                else:
                    d[a] = e
                if a.op == 'exp':
                    special = True
            if special or (any(a.op in ('exp', 'csqrt') for a, _ in m1) and any(a.op in ('exp', 'csqrt') for a, _ in m2)):
                for m, c in _fix_mono(d, c1 * c2).items():
                    v = r.get(m, 0) + c
                    if v == 0:
                        r.pop(m, None)
                    else:
                        r[m] = v
                continue
            if any(a.op == 'abs' and (a.args[0] in d) for a in d):
                # normal: abs(a)*a kept
                pass
            m = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


def _cancel(p, q):
    for x, y in ((p, q), (q, p)):
        if len(x) > 1:
            lead, lc = _lead(x)
            xn = from_poly(pmul_c(x, 1 / lc))
            # does every monomial of y contain (xn, -k)?
            if y and all(any(a is xn and e < 0 for a, e in m) for m in y):
                y2 = {}
                for m, c in y.items():
                    m2 = []
                    for a, e in m:
                        if a is xn:
                            e += 1
                        if e:
                            m2.append((a, e))
                    y2[tuple(m2)] = c * lc
                return ({(): Fr(1)}, y2)
    return p, q


def _lead(p):
    m = min(p, key=lambda m: tuple((a.id, e) for a, e in m))
    return m, p[m]


def ppow(p, n):
    r = {(): Fr(1)}
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def add(*ts):
    r = {}
    for t in ts:
        r = padd(r, to_poly(lift(t)))
    return from_poly(r)


def sub(a, b):
    return from_poly(padd(to_poly(lift(a)), to_poly(lift(b)), -1))


def neg(a):
    return from_poly(pmul_c(to_poly(lift(a)), -1))


def mul(*ts):
    r = {(): Fr(1)}
    for t in ts:
        r = pmul(r, to_poly(lift(t)))
    return from_poly(r)


def _content(p):
    """poly -> (coef, mono dict of common factors, primitive poly)"""
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: e for a, e in common.items() if a in d}
    # negative exponents: for e<0 common must be the max magnitude present in all -> take max (closest to zero)
    if common:
        for a in list(common):
            es = [dict(m)[a] for m in p]
            if all(e > 0 for e in es):
                common[a] = min(es)
            elif all(e < 0 for e in es):
                common[a] = max(es)
            else:
                del common[a]
        # indicators are idempotent and EXP is merged: both still divide exactly
    common = common or {}
    if common:
        p = {tuple((a, e - common.get(a, 0)) for a, e in m if e != common.get(a, 0)): c for m, c in p.items()}
    _, lc = _lead(p)
    p = pmul_c(p, 1 / lc)
    return lc, common, p


def inv(x):
    x = lift(x)
    p = to_poly(x)
    if not p:
        return _mk('inv0', (), 'R')      # 1/0: an unspecified value
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly(_fix_mono({a: -e for a, e in m}, 1 / c)) if m else const(1 / c)
    lc, common, prim = _content(p)
    d = {a: -e for a, e in common.items()}
    pt = from_poly(prim)
    if pt.op == 'poly':
        d[pt] = d.get(pt, 0) - 1
        return from_poly(_fix_mono(d, 1 / lc))
    return mul(from_poly(_fix_mono(d, 1 / lc)), inv(pt))


def div(a, b):
    return mul(a, inv(b))


# ---------------------------------------------------------------- signs
_sgn = {}
# result: set of possible signs encoded as bits 1: neg, 2: zero, 4: pos
NEG, ZER, POS = 1, 2, 4


def signs(t):
    s = _sgn.get(t)
    if s is None:
        s = _sgn[t] = _signs(t)
    return s


def _sgn_attr(sign):
    return {None: 7, '+': 4, '0+': 6, '!': 5, '-': 1}[sign]


def _smul(a, b):
    r = 0
    for x in (1, 2, 4):
        if a & x:
            for y in (1, 2, 4):
                if b & y:
                    if x == 2 or y == 2:
                        r |= 2
                    elif x == y:
                        r |= 4
                    else:
                        r |= 1
    return r


def _sadd(a, b):
    r = 0
    for x in (1, 2, 4):
        if a & x:
            for y in (1, 2, 4):
                if b & y:
                    if x == 2:
                        r |= y
                    elif y == 2:
                        r |= x
                    elif x == y:
                        r |= x
                    else:
                        r |= 7
    return r


def _spow(s, e):
    if e < 0:
        # inverse keeps the sign; zero -> unspecified
        r = 0
        if s & 2:
            return 7
        r = s
        e = -e
    else:
        r = s
    if e % 2 == 0:
        out = 0
        if r & 5:
            out |= 4
        if r & 2:
            out |= 2
        return out
    return r


def _signs(t):
    op = t.op
    if op == 'const':
        c = t.args[0]
        return 4 if c > 0 else (2 if c == 0 else 1)
    if op == 'var' or op == 'app':
        return _sgn_attr(DECL[t.args[0]].sign)
    if op == 'bv':
        return 6
    if op == 'exp':
        return 4
    if op == 'ln':
        a = t.args[0]
        if a.op == 'const':
            return 4 if abs(a.args[0]) > 1 else (2 if abs(a.args[0]) == 1 else 1)
        return 7
    if op == 'abs':
        s = signs(t.args[0])
        return (4 if s & 5 else 0) | (2 if s & 2 else 0)
    if op == 'ind':
        return 6
    if op == 'pow':
        return 6
    if op == 'poly':
        r = None
        for m, c in t.args:
            s = 4 if c > 0 else 1
            for a, e in m:
                s = _smul(s, _spow(signs(a), e))
            r = s if r is None else _sadd(r, s)
        if r == 7:
            r = _poly_sign_special(t)
        return r
    if op == 'sum':
        n, b = t.args
        s = signs(b)
        r = 2
        if s & 4:
            r |= 4
        if s & 1:
            r |= 1
        if r == 7 or (s & 1 and s & 4):
            return 7
        if not s & 2 and signs(n) == 4:
            r &= ~2
        elif COUNTS and r & 2:
            x = _strip_count(n, b)
            if x is not None and not signs(x) & 2 and signs(x) in (1, 4):
                r &= ~2
        return r
    if op == 'floor':
        s = signs(t.args[0])
        if not s & 1:
            return 6
        return 7
    if op == 'smax':
        r = 0
        for (n, g, v) in t.args:
            r |= signs(v)
        return r
    return 7


def _strip_count(n, b):
    """body = IND(V) * rest, V a validity symbol with at least one true position: rest"""
    p = to_poly(b)
    lit = None
    for m in p:
        ls = [a for a, e in m if a.op == 'ind' and _count_pat(n, a.args[0]) is not None]
        if not ls or (lit is not None and lit not in ls):
            return None
        lit = ls[0]
    if lit is None:
        return None
    return from_poly({tuple(z for z in m if z[0] is not lit): c for m, c in p.items()})


def _poly_sign_special(t):
    # 1 - IND, products thereof: multilinear in indicators only -> evaluate extremes
    inds = set()
    for m, c in t.args:
        for a, e in m:
            if a.op == 'ind' and e == 1:
                inds.add(a)
    if not inds:
        return 7
    if len(inds) > 6:
        return _group_signs(t)
    inds = list(inds)
    r = 0
    for k in range(2 ** len(inds)):
        p = {}
        for m, c in t.args:
            ok = True
            mm = []
            for a, e in m:
                if a in inds:
                    if not (k >> inds.index(a)) & 1:
                        ok = False
                else:
                    mm.append((a, e))
            if ok:
                mm = tuple(mm)
                p[mm] = p.get(mm, 0) + c
        q = from_poly(p)
        if q.op == 'poly' and any(a.op == 'ind' for m, _ in q.args for a, _ in m):
            return 7
        r |= signs(q)
    return r


def _group_signs(t):
    """sum over the non-indicator monomials of (multilinear form in indicators) * monomial, each form bounded at its corners"""
    groups = {}
    for m, c in t.args:
        mm, ii = [], set()
        for a, e in m:
            if a.op == 'ind':
                ii.add(a)
            else:
                mm.append((a, e))
        groups.setdefault(tuple(mm), []).append((ii, c))
    pos = neg = False
    for mm, cs in groups.items():
        inds = list(set().union(*[ii for ii, c in cs]))
        if len(inds) > 8:
            return 7
        s = signs(from_poly({mm: 1}))
        for k in range(2 ** len(inds)):
            v = sum(c for ii, c in cs if all((k >> inds.index(a)) & 1 for a in ii))
            if v and ((s & 4 and v > 0) or (s & 1 and v < 0)):
                pos = True
            if v and ((s & 4 and v < 0) or (s & 1 and v > 0)):
                neg = True
        if pos and neg:
            return 7
    return 2 | (4 if pos else 0) | (1 if neg else 0)


def is_pos(t):
    return signs(t) == 4


def is_nonneg(t):
    return not signs(t) & 1


def is_nonzero(t):
    return not signs(t) & 2


# ---------------------------------------------------------------- transcendental
def _primes(n):
    r = {}
    d = 2
    while d * d <= n and d < 100000:
        while n % d == 0:
            r[d] = r.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        r[n] = r.get(n, 0) + 1
    return r


def _lnatom(a):
    return _mk('ln', (a,), 'R', a.h, a.fv)


def ln(x):
    """ln|x|"""
    x = lift(x)
    p = to_poly(x)
    if not p:
        return _mk('ln', (ZERO,), 'R')
    if len(p) > 1:
        inds = sorted({a for m in p for a, e in m if a.op == 'ind'}, key=lambda a: a.id)
        if 0 < len(inds) <= 4:      # by cases
            i = inds[0]
            one = ZERO
            for m, c in p.items():
                one = add(one, from_poly({tuple((a, e) for a, e in m if a is not i): c}))
            zero = from_poly({m: c for m, c in p.items() if all(a is not i for a, e in m)})
            return add(mul(i, ln(one)), mul(sub(ONE, i), ln(zero)))
    if len(p) == 1:
        (m, c), = p.items()
        r = {}
        for pr, e in _primes(abs(c.numerator)).items():
            r = padd(r, to_poly(_lnatom(const(pr))), e)
        for pr, e in _primes(c.denominator).items():
            r = padd(r, to_poly(_lnatom(const(pr))), -e)
        for a, e in m:
            if a.op == 'exp':
                r = padd(r, to_poly(a.args[0]), e)
            elif a.op == 'abs':
                r = padd(r, to_poly(ln(a.args[0])), e)
            elif a.op == 'csqrt':
                r = padd(r, to_poly(ln(a.args[0])), Fr(e, 2))
            elif a.op == 'pow':
                r = padd(r, to_poly(mul(a.args[1], ln(a.args[0]))), e)
            elif a.op == 'poly':
                r = padd(r, to_poly(_lnatom(a)), e)
            else:
                r = padd(r, to_poly(_lnatom(a)), e)
        return from_poly(r)
    lc, common, prim = _content(p)
    pt = from_poly(prim)
    if not common and lc == 1:
        return _lnatom(pt)
    r = to_poly(ln(const(lc)))
    for a, e in common.items():
        r = padd(r, to_poly(ln(a if a.op != 'poly' else a)), e)
    r = padd(r, to_poly(ln(pt)))
    return from_poly(r)


def exp(x):
    x = lift(x)
    p = to_poly(x)
    outd = []
    rest = {}
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ln':
            a = m[0][0].args[0]
            k = c.numerator // c.denominator
            fr = c - k
            if k:
                outd.append((a, k))
            if fr:
                rest[m] = fr
        else:
            rest[m] = c
    r = {(): Fr(1)}
    if rest:
        rt = from_poly(rest)
        e = _mk('exp', (rt,), 'R', rt.h, rt.fv)
        r = {((e, 1),): Fr(1)}
    for a, k in outd:
        b = a if not (signs(a) & 1) else abs_(a)
        q = ppow(to_poly(b), k) if k > 0 else to_poly(inv(from_poly(ppow(to_poly(b), -k))))
        r = pmul(r, q)
    return from_poly(r)


def abs_(x):
    x = lift(x)
    p = to_poly(x)
    if not p:
        return ZERO
    s = signs(x)
    if not s & 1:
        return x
    if not s & 4:
        return neg(x)
    if len(p) == 1:
        (m, c), = p.items()
        d = {}
        mulx = {(): abs(c)}
        for a, e in m:
            if a.op == 'poly':
                b = abs_(a)
                if b is a:
                    q = {((a, e),): Fr(1)}
                else:
                    q = to_poly(inv(from_poly(ppow(to_poly(b), -e))))
                mulx = pmul(mulx, q)
                continue
            if is_nonneg(a):
                d[a] = d.get(a, 0) + e
            elif e % 2 == 0:
                d[a] = d.get(a, 0) + e
            else:
                b = _mk('abs', (a,), a.sort, a.h, a.fv)
                # abs(a)^e
                d[b] = d.get(b, 0) + e
        return from_poly(pmul(_fix_mono(d, Fr(1)), mulx))
    lc, common, prim = _content(p)
    pt = from_poly(prim)
    if common or lc != 1:
        return mul(abs_(from_poly(_fix_mono(dict(common), Fr(1)))) if common else ONE, const(abs(lc)), abs_(pt))
    n = neg(pt)
    # canonical sign: leading coefficient is already 1
    return _mk('abs', (pt,), pt.sort, pt.h, pt.fv)


def power(x, y):
    """real power; x**y for integer y, exp(y ln x) for x > 0"""
    x, y = lift(x), lift(y)
    if y.op == 'const' and y.args[0].denominator == 1:
        n = int(y.args[0])
        if n == 0:
            return ONE
        if abs(n) > 64:
            return _mk('pow', (x, y), 'R', _h((x, y)), _fv((x, y)))
        if n > 0 and x.op == 'pow' and not signs(x.args[0]) & 1 and x.args[1].op == 'const' and x.args[1].args[0] > 0:
            return power(x.args[0], mul(x.args[1], n))
        r = from_poly(ppow(to_poly(x), abs(n)))
        return r if n > 0 else inv(r)
    if is_pos(x) or (x.op in ('abs',) and False):
        return exp(mul(y, ln(x)))
    if x.op == 'const' and x.args[0] == 0 and is_pos(y):
        return ZERO
    # (k x)^y = k^y x^y for k > 0 (also where x vanishes, whatever 0^y is for y < 0 taken as 0)
    if x.op == 'poly':
        k0 = _exp_content(to_poly(x))
        if k0 is not None:
            return mul(exp(mul(y, k0)), power(mul(x, exp(neg(k0))), y))
        lc, common, prim = _content(to_poly(x))
        k, rest = (const(lc) if lc > 0 else ONE), (ONE if lc > 0 else const(lc))
        for a, e in common.items():
            b = from_poly(_fix_mono({a: e}, Fr(1)))
            if is_pos(a):
                k = mul(k, b)
            else:
                rest = mul(rest, b)
        if k is not ONE:
            return mul(exp(mul(y, ln(k))), power(mul(rest, from_poly(prim)), y))
    # sqrt-like powers of squares etc.: |x|^y for nonnegative base that may vanish
    return _mk('pow', (x, y), 'R', _h((x, y)), _fv((x, y)))


def _exp_content(p):
    """exponents common to all monomials of a sum: e with sum = exp(e) * (...), or None"""
    common = None
    for m in p:
        es = [a.args[0] for a, e in m if a.op == 'exp' and e == 1]
        if len(es) != 1:
            return None
        q = to_poly(es[0])
        common = q if common is None else {t: c for t, c in common.items() if q.get(t) == c}
        if not common:
            return None
    return from_poly(common)


def csqrt(x):
    """principal square root of a complex field element; nonnegative real constants/squares pulled out"""
    x = lift(x)
    p = to_poly(x)
    if not p:
        return ZERO
    lc, common, prim = _content(p)
    out = ONE
    inner = from_poly(prim)
    if lc < 0:
        inner, lc = mul(inner, -1), -lc
    if lc > 0:
        # sqrt(n/d) = sqrt(n*d)/d ; pull the integer square part
        n, d = lc.numerator * lc.denominator, lc.denominator
        sq, rest = 1, 1
        for pr, e in _primes(n).items():
            sq *= pr ** (e // 2)
            rest *= pr ** (e % 2)
        out = const(Fr(sq, d))
        if rest != 1:
            out = mul(out, exp(mul(Fr(1, 2), ln(rest))))
    for a, e in common.items():
        if e % 2 == 0 and a.op != 'poly' and a.sort in 'IR' and not iscomplex(a):
            out = mul(out, abs_(from_poly({((a, e // 2),): Fr(1)}) if e > 0 else inv(from_poly({((a, -e // 2),): Fr(1)}))))
        elif is_pos(a):
            out = mul(out, exp(mul(Fr(e, 2), ln(a))))
        else:
            inner = mul(inner, from_poly(_fix_mono({a: e}, Fr(1))))
    if inner is ONE:
        return out
    s = _mk('csqrt', (inner,), 'R', inner.h, inner.fv)
    return mul(out, s)


_cplx = {}


def iscomplex(t):
    r = _cplx.get(t)
    if r is None:
        r = _cplx[t] = _iscomplex(t)
    return r


def _iscomplex(t):
    if t.op in ('var', 'app'):
        return getattr(DECL[t.args[0]], 'cplx', False)
    if t.op == 'w':
        return True
    if t.op in ('re', 'im', 'ind', 'const', 'bv', 'floor', 'abs'):
        return False
    if t.op == 'poly':
        return any(iscomplex(a) for m, _ in t.args for a, _ in m)
    if t.op == 'smax':
        return False
    return any(iscomplex(a) for a in t.args if isinstance(a, T))


def wroot(M, e):
    """exp(-2 pi i e / M), e an integer term"""
    M, e = lift(M), lift(e)
    if e is ZERO:
        return ONE
    return _mk('w', (M, e), 'R', _h((M, e)), _fv((M, e)))


def re_(x):
    x = lift(x)
    if not iscomplex(x):
        return x
    p = to_poly(x)
    r = {}
    for m, c in p.items():
        realp = tuple((a, e) for a, e in m if not iscomplex(a))
        cp = tuple((a, e) for a, e in m if iscomplex(a))
        if not cp:
            r = padd(r, {realp: c})
            continue
        ct = from_poly({cp: Fr(1)})
        if ct.op == 'sum':
            n, b = ct.args
            rt = mksum_raw(n, re_(b))
        else:
            rt = _mk('re', (ct,), 'R', ct.h, ct.fv)
        r = padd(r, pmul({realp: c}, to_poly(rt)))
    return from_poly(r)


# ---------------------------------------------------------------- integers
def floor(x):
    x = lift(x)
    if x.sort == 'I':
        return x
    p = to_poly(x)
    out, rest = {}, {}
    for m, c in p.items():
        if _mono_sort(m) == 'I':
            k = c.numerator // c.denominator
            if k:
                out[m] = Fr(k)
            if c - k:
                rest[m] = c - k
        else:
            rest[m] = c
    r = from_poly(rest)
    if r.op == 'const':
        f = const(r.args[0].numerator // r.args[0].denominator)
    else:
        f = _mk('floor', (r,), 'I', r.h, r.fv)
    return add(from_poly(out), f)


def ceil(x):
    x = lift(x)
    if x.sort == 'I':
        return x
    p = to_poly(x)
    if all(_mono_sort(m) == 'I' for m in p):
        d = 1
        for c in p.values():
            d = d * c.denominator // gcd(d, c.denominator)
        return floor(add(x, const(Fr(d - 1, d))))
    return neg(floor(neg(x)))


def floordiv(a, b):
    return floor(div(a, b))


def mod(a, b):
    return sub(a, mul(b, floordiv(a, b)))


# ---------------------------------------------------------------- booleans
def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return not_(le(b, a))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def _prim(p):
    _, lc = _lead(p)
    # scale by positive factor: for int polys use gcd of coefs, else |lc|
    return abs(lc)


def _le_smax(d):
    """c*max + rest <= 0 as a quantified comparison of the elements"""
    hit = None
    for m, c in d.items():
        if any(a.op == 'smax' for a, _ in m):
            if hit is not None:
                return None
            hit = (m, c)
    if hit is None:
        return None
    m, c = hit
    sm = [a for a, e in m if a.op == 'smax' and e == 1]
    if len(sm) != 1 or any(a is not sm[0] and not (is_pos(a) and a.op != 'smax') for a, _ in m):
        return None
    s = sm[0]
    f = from_poly({tuple((a, e) for a, e in m if a is not s): abs(c)})
    rest = from_poly({k: x for k, x in d.items() if k != m})
    b = mul(rest, inv(f))              # c > 0: max <= -b; c < 0: max >= b
    out = []
    for n, g, v in s.args:
        if n is None:
            cond = le0(add(v, b)) if c > 0 else le0(sub(b, v))
            out.append(and_(g, not_(cond) if c > 0 else cond))
            continue
        x = fresh('s', 'I', sign='0+')
        h = max(g.h, v.h) + 1
        g2, v2 = subst(g, {bv(h): x}), subst(v, {bv(h): x})
        cond = le0(add(v2, b)) if c > 0 else le0(sub(b, v2))
        out.append(mkany(n, x, and_(g2, not_(cond) if c > 0 else cond)))
    r = or_(*out)
    return not_(r) if c > 0 else r


def le0(p):
    """p <= 0"""
    if p.op == 'const':
        return const(p.args[0] <= 0)
    s = signs(p)
    if not s & 4:
        return TRUE
    if s == 4:
        return FALSE
    d = to_poly(p)
    if p.sort == 'R':
        r = _le_smax(d)
        if r is not None:
            return r
    if p.sort == 'I' or all(_mono_sort(m) == 'I' for m in d):
        # integer: clear denominators, divide by gcd of non constant coefs, tighten
        den = 1
        for c in d.values():
            den = den * c.denominator // gcd(den, c.denominator)
        d = {m: c * den for m, c in d.items()}
        g = 0
        for m, c in d.items():
            if m:
                g = gcd(g, int(abs(c)))
        c0 = d.get((), Fr(0))
        d = {m: c / g for m, c in d.items() if m}
        c0 = c0 / g
        c0 = -((-c0).numerator // (-c0).denominator)   # sum <= -c0  -> sum <= floor(-c0)
        if len(d) == 1 and c0 in (0, 1):
            r = _count0(d, c0)
            if r is not None:
                return r
        fl = [m for m in d if any(a.op == 'floor' for a, _ in m)]
        if len(fl) == 1 and len(fl[0]) == 1 and fl[0][0][1] == 1 and abs(d[fl[0]]) == 1:
            # n <= floor(x) iff n <= x; floor(x) <= n iff x < n + 1
            x = fl[0][0][0].args[0]
            rest = from_poly({**{m: c for m, c in d.items() if m != fl[0]}, (): Fr(c0)})
            return le(rest, x) if d[fl[0]] < 0 else lt(x, sub(1, rest))
        _, lc = _lead(d)
        if lc < 0:
            # canonical orientation: not( -sum - c0 + 1 <= 0 )
            nd = pmul_c(d, -1)
            nd = padd(nd, {(): Fr(-c0 + 1)})
            return _mk('not', (_lit('le0', from_poly(nd)),), 'B', p.h, p.fv)
        d = padd(d, {(): Fr(c0)})
        return _lit('le0', from_poly(d))
    _, lc = _lead(d)
    d = pmul_c(d, 1 / abs(lc))
    if lc < 0:
        nd = from_poly(pmul_c(d, -1))
        return _mk('not', (_lit('lt0', nd),), 'B', p.h, p.fv)
    return _lit('le0', from_poly(d))


def _count0(d, c0):
    """a count of positions is 0 (at least 1) exactly when there is none (some)"""
    (m, c), = d.items()
    if len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'sum' or (c, c0) not in ((1, 0), (-1, 1)):
        return None
    n, cb = m[0][0].args
    q = to_poly(cb)
    if len(q) != 1:
        return None
    (k, e), = q.items()
    if e != 1 or not k or any(a.op != 'ind' or x != 1 for a, x in k):
        return None
    x = fresh('s', 'I', sign='0+')
    r = mkany(n, x, and_(*[subst(a.args[0], {bv(cb.h + 1): x}) for a, _ in k]))
    return not_(r) if c == 1 else r


def _lit(op, p):
    return _mk(op, (p,), 'B', p.h, p.fv)


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.sort == 'B' or b.sort == 'B':
        return iff(a, b)
    if a.sort == 'O' or b.sort == 'O':
        if a.op == 'const' and b.op == 'const':
            return const(a is b)
        x, y = (a, b) if a.id < b.id else (b, a)
        return _mk('oeq', (x, y), 'B', _h((a, b)), _fv((a, b)))
    return eq0(sub(a, b))


def ne(a, b):
    return not_(eq(a, b))


def eq0(p):
    if p.op == 'const':
        return const(p.args[0] == 0)
    if not signs(p) & 2:
        return FALSE
    if p.sort == 'R':
        if is_nonneg(p):
            return le0(p)
        if is_nonneg(neg(p)):
            return le0(neg(p))
    d = to_poly(p)
    lc, _, _ = (_lead(d)[1], 0, 0)
    d = pmul_c(d, 1 / lc)
    if all(_mono_sort(m) == 'I' for m in d):
        den = 1
        for c in d.values():
            den = den * c.denominator // gcd(den, c.denominator)
        d = pmul_c(d, den)
        g = 0
        for m, c in d.items():
            if m:
                g = gcd(g, int(abs(c)))
        if g > 1:
            if d.get((), Fr(0)) % g != 0:
                return FALSE
            d = {m: c / g for m, c in d.items()}
        if len(d) == 1 and () not in d:
            (m, c), = d.items()
            r = _count0({m: Fr(1)}, 0)
            if r is not None:
                return r
    return _lit('eq0', from_poly(d))


def not_(a):
    a = lift(a)
    if a.op == 'const':
        return const(not a.args[0])
    if a.op == 'not':
        return a.args[0]
    return _mk('not', (a,), 'B', a.h, a.fv)


def _nary(op, ts):
    unit, absorb = (TRUE, FALSE) if op == 'and' else (FALSE, TRUE)
    s = []
    seen = set()
    for t in ts:
        t = lift(t)
        if t is unit:
            continue
        if t is absorb:
            return absorb
        for u in (t.args if t.op == op else (t,)):
            if u not in seen:
                seen.add(u)
                s.append(u)
    dual = 'or' if op == 'and' else 'and'
    for u in s:
        if not_(u) in seen:
            return absorb
    # absorption: a & (a|b) = a ; and simplification a & (!a | b) = a & b
    out = []
    changed = False
    for u in s:
        if u.op == dual or (u.op == 'not' and u.args[0].op == op):
            parts = u.args if u.op == dual else tuple(not_(x) for x in u.args[0].args)
            if any(x in seen and x is not u for x in parts):
                changed = True
                continue
            keep = [x for x in parts if not_(x) not in seen]
            if len(keep) != len(parts):
                changed = True
                out.append(_nary(dual, keep))
                continue
        out.append(u)
    if changed:
        return _nary(op, out)
    s = sorted(s, key=lambda x: x.id)
    if not s:
        return unit
    if len(s) == 1:
        return s[0]
    s = tuple(s)
    return _mk(op, s, 'B', _h(s), _fv(s))


def and_(*ts):
    return _nary('and', ts)


def or_(*ts):
    # represent as 'or' node
    return _nary('or', ts)


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.op == 'const':
        return b if a.args[0] else not_(b)
    if b.op == 'const':
        return a if b.args[0] else not_(a)
    if a is not_(b):
        return FALSE
    x, y = (a, b) if a.id < b.id else (b, a)
    return _mk('iff', (x, y), 'B', _h((a, b)), _fv((a, b)))


def ind(c):
    """0/1 indicator"""
    c = lift(c)
    if c.op == 'const':
        return ONE if c.args[0] else ZERO
    if c.op == 'not':
        return sub(ONE, ind(c.args[0]))
    if c.op == 'and':
        return mul(*[ind(x) for x in c.args])
    if c.op == 'or':
        return sub(ONE, mul(*[sub(ONE, ind(x)) for x in c.args]))
    if c.op == 'iff':
        a, b = ind(c.args[0]), ind(c.args[1])
        return add(mul(a, b), mul(sub(ONE, a), sub(ONE, b)))
    return _mk('ind', (c,), 'I', c.h, c.fv)


def ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    if c.op == 'const':
        return a if c.args[0] else b
    if a is b:
        return a
    if a.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    if a.sort == 'O' or b.sort == 'O':
        return _mk('oite', (c, a, b), 'O', _h((c, a, b)), _fv((c, a, b)))
    i = ind(c)
    return add(mul(i, a), mul(sub(ONE, i), b))


# ---------------------------------------------------------------- binders
def _bind(body_fn, heightof):
    """Call body_fn(x) with a fresh variable; return (h, instantiate) ready to close."""


def close(x, body):
    """replace variable x (T var) in body by the canonical bound variable of the body"""
    h = body.h + 1
    return subst(body, {x: bv(h)}), h


def opn(body, h, val):
    return subst(body, {bv(h): val})


def bsum(n, fn):
    """sum_{k=0}^{n-1} fn(k)"""
    n = lift(n)
    if n.op == 'const':
        c = int(n.args[0])
        if c <= 0:
            return ZERO
        if c <= 16:
            return add(*[fn(const(k)) for k in range(c)])
    x = fresh('s', 'I', sign='0+')
    return mksum(n, x, fn(x))


def mksum(n, x, body):
    """sum over x in [0,n) of body (an already normal term containing var x)"""
    n = lift(n)
    if n.op == 'const' and int(n.args[0]) <= 16:
        return add(*[subst(body, {x: const(k)}) for k in range(int(n.args[0]))]) if int(n.args[0]) > 0 else ZERO
    p = to_poly(body)
    r = {}
    for m, c in p.items():
        free, dep = [], []
        for a, e in m:
            if x not in a.fv:
                free.append((a, e))
            elif a.op == 'exp':
                q = to_poly(a.args[0])
                qf = {mm: cc for mm, cc in q.items() if all(x not in b.fv for b, _ in mm)}
                qd = {mm: cc for mm, cc in q.items() if mm not in qf}
                if qf:
                    for mm in to_poly(exp(from_poly(qf))).items():
                        pass
                    fpoly = to_poly(exp(from_poly(qf)))
                    (m0, c0), = fpoly.items() if len(fpoly) == 1 else (((), None),)
                    if c0 is not None:
                        free += list(m0)
                        c = c * c0
                        ed = to_poly(exp(from_poly(qd)))
                        (m1, c1), = ed.items()
                        dep += list(m1)
                        c = c * c1
                    else:
                        dep.append((a, e))
                else:
                    dep.append((a, e))
            elif a.op == 'w' and x not in a.args[0].fv:
                # w^(ef + ed) split
                q = to_poly(a.args[1])
                qf = {mm: cc for mm, cc in q.items() if all(x not in b.fv for b, _ in mm)}
                qd = {mm: cc for mm, cc in q.items() if mm not in qf}
                if qf:
                    free.append((wroot(a.args[0], from_poly(qf)), e))
                    dep.append((wroot(a.args[0], from_poly(qd)), e))
                else:
                    dep.append((a, e))
            else:
                dep.append((a, e))
        fpart = _fix_mono(_acc(free), c)
        if not dep:
            r = padd(r, pmul(fpart, to_poly(n)))
            continue
        dpoly = _fix_mono(_acc(dep), Fr(1))
        for dm, dc in dpoly.items():
            s = _sum_mono(n, x, dm)
            r = padd(r, pmul(pmul_c(fpart, dc), to_poly(s)))
    return from_poly(r)


def _acc(l):
    d = {}
    for a, e in l:
        d[a] = d.get(a, 0) + e
    return d


def _unit(q, cx, x):
    """q = cx x + t with t an integer free of x"""
    if cx is None or abs(cx) != 1:
        return False
    return all(c.denominator == 1 and all(x not in bb.fv and bb.sort == 'I' and (isinstance(e, int) and e > 0) for bb, e in mm)
               for mm, c in q.items() if mm != ((x, 1),))


def _sum_mono(n, x, dm):
    b = from_poly({dm: Fr(1)})
    # Kronecker delta: IND(x == t) * f(x)
    for a, e in dm:
        if a.op == 'ind' and a.args[0].op == 'eq0':
            q = to_poly(a.args[0].args[0])
            cx = q.get(((x, 1),))
            if _unit(q, cx, x):
                t = from_poly(pmul_c({mm: cc for mm, cc in q.items() if mm != ((x, 1),)}, -1 / cx))
                rest = from_poly({tuple(z for z in dm if z[0] is not a): Fr(1)})
                return mul(ind(and_(le(0, t), lt(t, n))), subst(rest, {x: t}))
    cb, h = close(x, b)
    return mksum_raw(n, cb, h)


# (length symbol, validity symbol) -> count symbol: sum over k < L(args) of IND(V(args, k, rest)) is N(args, rest), known
# to be positive
COUNTS = {}


def _count_pat(n, a):
    """a = IND literal V(.., bv, ..) over n = L(..): the count symbol's term, or None"""
    if n.op not in ('app', 'var') or a.op != 'app':
        return None
    for (L, V, kpos), N in COUNTS.items():
        if n.args[0] == L and a.args[0] == V:
            va = a.args[1:]
            if va[kpos].op == 'bv' and tuple(va[:kpos]) == tuple(n.args[1:]) and all(va[kpos] not in z.fv for i, z in enumerate(va) if i != kpos):
                return app(N, *[z for i, z in enumerate(va) if i != kpos])
    return None


def mksum_raw(n, cb, h=None):
    if h is None:
        h = cb.h + 1
    if COUNTS and cb.op == 'ind' and cb.args[0].op == 'app' and bv(h) in cb.args[0].args:
        r = _count_pat(n, cb.args[0])
        if r is not None:
            return r
    fvs = (cb.fv - {bv(h)}) | n.fv
    return _mk('sum', (n, cb), 'I' if cb.sort == 'I' else 'R', max(h, n.h), fvs)


def sum_h(t):
    """index of the variable bound by a sum/any atom"""
    return t.args[1].h + 1


def bany(n, fn):
    n = lift(n)
    if n.op == 'const':
        c = int(n.args[0])
        if c <= 16:
            return or_(*[fn(const(k)) for k in range(max(c, 0))])
    x = fresh('s', 'I', sign='0+')
    return mkany(n, x, fn(x))


def mkany(n, x, body):
    n = lift(n)
    if body is FALSE:
        return FALSE
    if x not in body.fv:
        return and_(body, lt(0, n))
    if n.op == 'const' and int(n.args[0]) <= 16:
        return or_(*[subst(body, {x: const(k)}) for k in range(int(n.args[0]))])
    if body.op == 'or':
        return or_(*[mkany(n, x, b) for b in body.args])
    if body.op == 'and':
        free = [b for b in body.args if x not in b.fv]
        dep = [b for b in body.args if x in b.fv]
        if free:
            return and_(*free, mkany(n, x, and_(*dep)))
    # delta
    parts = body.args if body.op == 'and' else (body,)
    for a in parts:
        if a.op == 'eq0':
            q = to_poly(a.args[0])
            cx = q.get(((x, 1),))
            if _unit(q, cx, x):
                t = from_poly(pmul_c({mm: cc for mm, cc in q.items() if mm != ((x, 1),)}, -1 / cx))
                return and_(le(0, t), lt(t, n), *[subst(b, {x: t}) for b in parts if b is not a])
    cb, h = close(x, body)
    if COUNTS and cb.op == 'app' and _count_pat(n, cb) is not None:
        return TRUE
    return _mk('any', (n, cb), 'B', max(h, n.h), (cb.fv - {bv(h)}) | n.fv)


def ball(n, fn):
    return not_(bany(n, lambda k: not_(fn(k))))


def bsmax(entries):
    """entries: list of (n or None, guard, val) closed entries -> the largest val with a true guard"""
    es = set()
    for n, g, v in entries:
        if g is FALSE:
            continue
        if n is None and v.op == 'smax':
            for (n2, g2, v2) in v.args:
                es.add((n2, _gand(g, n2, g2, v2), v2))
            continue
        es.add((n, g, v))
    es2 = set()
    for n, g, v in es:
        if n is not None and n.op == 'const' and int(n.args[0]) <= 16:
            h = max(g.h, v.h) + 1
            for k in range(int(n.args[0])):
                es2.add((None, opn(g, h, const(k)), opn(v, h, const(k))))
        else:
            es2.add((n, g, v))
    es = sorted(es2, key=lambda e: (e[0].id if e[0] is not None else 0, e[1].id, e[2].id))
    if not es:
        return _mk('smax0', (), 'R')
    if len(es) == 1 and es[0][0] is None:
        return es[0][2]
    # common positive factor
    if True:
        f = _common_pos(es)
        if f is not None:
            fi = inv(f)
            return mul(f, bsmax([(n, g, mul(fi, v)) for n, g, v in es]))
    h = 0
    fv = frozenset()
    for n, g, v in es:
        hh = max(g.h, v.h)
        f = g.fv | v.fv
        if n is not None:
            hh += 1
            f = f - {bv(hh)}
            f = f | n.fv
            hh = max(hh, n.h)
        h = max(h, hh)
        fv = fv | f
    return _mk('smax', tuple(es), 'R', h, fv)


def _gand(g, n2, g2, v2):
    if n2 is None:
        return and_(g, g2)
    # g implied by (any n2 g2) is dropped; otherwise conjoin under the binder
    if g.op == 'any' and g.args[0] is n2 and g.args[1] is g2:
        return g2
    return and_(g, g2)


def _common_pos(es):
    """a positive monomial factor shared by every value and free of bound variables"""
    common = None
    for n, g, v in es:
        p = to_poly(v)
        if len(p) != 1:
            return None
        (m, c), = p.items()
        if c <= 0:
            return None
        hh = max(g.h, v.h) + 1
        d = {}
        for a, e in m:
            if n is not None and bv(hh) in a.fv:
                continue
            if is_pos(a):
                d[a] = e
        cc = {'c': c}
        if common is None:
            common = d
            coef = c
        else:
            common = {a: e for a, e in common.items() if d.get(a) == e}
            if coef != c:
                coef = Fr(1)
    if not common and coef == 1:
        return None
    r = mul(const(coef), from_poly({tuple(sorted(common.items(), key=lambda x: x[0].id)): Fr(1)}))
    if r is ONE:
        return None
    return r


def max_over(n, guard_fn, val_fn):
    n = lift(n)
    if n.op == 'const' and int(n.args[0]) <= 16:
        return bsmax([(None, guard_fn(const(k)), val_fn(const(k))) for k in range(int(n.args[0]))])
    x = fresh('s', 'I', sign='0+')
    return mkmax(n, x, guard_fn(x), val_fn(x))


def mkmax(n, x, g, v):
    if g is FALSE:
        return bsmax([])
    if v.op == 'smax' and all(e[0] is None for e in v.args):
        return bsmax([(None, TRUE, mkmax(n, x, and_(g, g2), v2)) for (_, g2, v2) in v.args if and_(g, g2) is not FALSE])
    if x not in v.fv and x not in g.fv:
        return bsmax([(None, and_(g, lt(0, n)), v)])
    h = max(g.h, v.h) + 1
    b = bv(h)
    return bsmax([(n, subst(g, {x: b}), subst(v, {x: b}))])


# ---------------------------------------------------------------- substitution
def subst(t, m, amap=None, memo=None):
    """m: {var/bv T: T}; amap: {app name: fn(args)->T}"""
    if memo is None:
        memo = {}
    return _subst(t, m, amap, memo, frozenset(m))


def _subst(t, m, amap, memo, keys):
    if amap is None and not (t.fv & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = _subst1(t, m, amap, memo, keys)
    memo[t] = r
    return r


def _subst1(t, m, amap, memo, keys):
    op = t.op
    S = lambda u: _subst(u, m, amap, memo, keys)
    if op == 'const':
        return t
    if op in ('var', 'bv'):
        r = m.get(t)
        if r is not None:
            return r
        if amap and op == 'var' and t.args[0] in amap:
            return amap[t.args[0]]()
        return t
    if op == 'app':
        a = [S(u) for u in t.args[1:]]
        if amap and t.args[0] in amap:
            return amap[t.args[0]](*a)
        return app(t.args[0], *a)
    if op == 'poly':
        r = {}
        for mono, c in t.args:
            p = {(): c}
            d = []
            for a, e in mono:
                if amap is None and not (a.fv & keys):
                    d.append((a, e))
                    continue
                b = S(a)
                if e > 0:
                    q = to_poly(power(b, e)) if e > 1 else to_poly(b)
                else:
                    q = to_poly(inv(from_poly(ppow(to_poly(b), -e))))
                p = pmul(p, q)
            if d:
                p = pmul(p, {tuple(d): Fr(1)})
            r = padd(r, p)
        return from_poly(r)
    if op == 'ln':
        return ln(S(t.args[0]))
    if op == 'exp':
        return exp(S(t.args[0]))
    if op == 'abs':
        return abs_(S(t.args[0]))
    if op == 'pow':
        return power(S(t.args[0]), S(t.args[1]))
    if op == 'csqrt':
        return csqrt(S(t.args[0]))
    if op == 're':
        return re_(S(t.args[0]))
    if op == 'w':
        return wroot(S(t.args[0]), S(t.args[1]))
    if op == 'floor':
        return floor(S(t.args[0]))
    if op == 'ind':
        return ind(S(t.args[0]))
    if op == 'le0':
        return le0(S(t.args[0]))
    if op == 'lt0':
        p = S(t.args[0])
        return not_(le0(neg(p)))
    if op == 'eq0':
        return eq0(S(t.args[0]))
    if op == 'oeq':
        return eq(S(t.args[0]), S(t.args[1]))
    if op == 'oite':
        return ite(S(t.args[0]), S(t.args[1]), S(t.args[2]))
    if op == 'not':
        return not_(S(t.args[0]))
    if op == 'and':
        return and_(*[S(u) for u in t.args])
    if op == 'or':
        return or_(*[S(u) for u in t.args])
    if op == 'iff':
        return iff(S(t.args[0]), S(t.args[1]))
    if op in ('sum', 'any'):
        n, b = t.args
        h = b.h + 1
        x = fresh('s', 'I', sign='0+')
        nb = subst(b, {bv(h): x})
        nb = subst(nb, {k: v for k, v in m.items() if k is not bv(h)}, amap)
        n2 = S(n)
        return mksum(n2, x, nb) if op == 'sum' else mkany(n2, x, nb)
    if op == 'smax':
        es = []
        for n, g, v in t.args:
            if n is None:
                es.append((None, S(g), S(v)))
                continue
            h = max(g.h, v.h) + 1
            x = fresh('s', 'I', sign='0+')
            mm = {k: w for k, w in m.items() if k is not bv(h)}
            g2 = subst(subst(g, {bv(h): x}), mm, amap)
            v2 = subst(subst(v, {bv(h): x}), mm, amap)
            r = mkmax(S(n), x, g2, v2)
            es.append((None, mkany(S(n), x, g2), r))
        return bsmax(es)
    if op in ('inv0', 'smax0'):
        return t
    if op == 'obj':
        return obj(t.args[0], *[S(u) for u in t.args[1:]])
    raise NotImplementedError(op)


def obj(tag, *args):
    """opaque (uninterpreted) object term"""
    args = tuple(lift_o(a) for a in args)
    return _mk('obj', (tag,) + args, 'O', _h(args), _fv(args))


def lift_o(a):
    if isinstance(a, T):
        return a
    if isinstance(a, (int, float, Fr)) and not isinstance(a, bool):
        if isinstance(a, float) and (a != a or a in (float('inf'), float('-inf'))):
            return _mk('const', (str(a),), 'O')
        return const(a)
    if isinstance(a, bool):
        return const(a)
    return _mk('const', (a,), 'O')


# ---------------------------------------------------------------- printing
def show(t, d=0):
    op = t.op
    if d > 30:
        return '...'
    s = lambda u: show(u, d + 1)
    if op == 'const':
        return str(t.args[0])
    if op == 'var':
        return t.args[0]
    if op == 'bv':
        return f'${t.args[0]}'
    if op == 'app':
        return f"{t.args[0]}({', '.join(s(a) for a in t.args[1:])})"
    if op == 'poly':
        out = []
        for m, c in t.args:
            ms = '*'.join((f'({s(a)})' if a.op == 'poly' else s(a)) + (f'^{e}' if e != 1 else '') for a, e in m)
            if c == 1 and ms:
                out.append(ms)
            else:
                out.append(f'{c}*{ms}' if ms else f'{c}')
        return ' + '.join(out)
    if op in ('sum', 'any'):
        return f'{op}[{t.args[1].h + 1}]({s(t.args[0])}; {s(t.args[1])})'
    if op == 'smax':
        return 'max{' + ', '.join((f'[{max(g.h, v.h) + 1}<{s(n)}] ' if n is not None else '') + f'{s(g)}: {s(v)}' for n, g, v in t.args) + '}'
    if op == 'le0':
        return f'({s(t.args[0])} <= 0)'
    if op == 'lt0':
        return f'({s(t.args[0])} < 0)'
    if op == 'eq0':
        return f'({s(t.args[0])} = 0)'
    return f"{op}({', '.join(s(a) if isinstance(a, T) else str(a) for a in t.args)})"


# ---------------------------------------------------------------- rewriting of arbitrary subterms
def rewrite(t, m, memo=None):
    """replace every occurrence of the (closed) terms in m"""
    if not m:
        return t
    if memo is None:
        memo = {}
    return _rewrite(t, m, memo, [k.fv for k in m])


def _rewrite(t, m, memo, fvs):
    r = memo.get(t)
    if r is not None:
        return r
    r = m.get(t)
    if r is None:
        tf = t.fv
        if not any(f <= tf for f in fvs):
            r = t
        else:
            r = rebuild(t, lambda u: _rewrite(u, m, memo, fvs))
    memo[t] = r
    return r


def rebuild(t, S):
    """rebuild t with S applied to its immediate subterms (binders opened with a fresh variable)"""
    op = t.op
    if op in ('const', 'var', 'bv', 'inv0', 'smax0'):
        return t
    if op == 'app':
        return app(t.args[0], *[S(u) for u in t.args[1:]])
    if op == 'poly':
        r = {}
        for mono, c in t.args:
            p = {(): c}
            for a, e in mono:
                b = S(a)
                if b is a:
                    q = _fix_mono({a: e}, Fr(1)) if a.op == 'poly' and e > 0 else {((a, e),): Fr(1)}
                elif e > 0:
                    q = to_poly(power(b, e)) if e > 1 else to_poly(b)
                else:
                    q = to_poly(inv(from_poly(ppow(to_poly(b), -e))))
                p = pmul(p, q)
            r = padd(r, p)
        return from_poly(r)
    if op in ('sum', 'any'):
        n, b = t.args
        h = b.h + 1
        x = fresh('s', 'I', sign='0+')
        nb = S(subst(b, {bv(h): x}))
        n2 = S(n)
        return mksum(n2, x, nb) if op == 'sum' else mkany(n2, x, nb)
    if op == 'smax':
        es = []
        for n, g, v in t.args:
            if n is None:
                es.append((None, S(g), S(v)))
                continue
            h = max(g.h, v.h) + 1
            x = fresh('s', 'I', sign='0+')
            g2 = S(subst(g, {bv(h): x}))
            v2 = S(subst(v, {bv(h): x}))
            n2 = S(n)
            es.append((None, mkany(n2, x, g2), mkmax(n2, x, g2, v2)))
        return bsmax(es)
    one = {'ln': ln, 'exp': exp, 'abs': abs_, 'csqrt': csqrt, 're': re_, 'floor': floor, 'ind': ind, 'le0': le0,
           'lt0': lambda p: not_(le0(neg(p))), 'eq0': eq0, 'not': not_}
    if op in one:
        return one[op](S(t.args[0]))
    a = [S(u) if isinstance(u, T) else u for u in t.args]
    return {'pow': power, 'w': wroot, 'oeq': eq, 'oite': ite, 'and': and_, 'or': or_, 'iff': iff, 'obj': obj}[op](*a)


def subterms(t, seen=None, out=None):
    """all subterms, not entering binders' bodies"""
    if seen is None:
        seen, out = set(), []
    if t in seen:
        return out
    seen.add(t)
    out.append(t)
    if t.op == 'poly':
        for m, _ in t.args:
            for a, _ in m:
                subterms(a, seen, out)
    elif t.op in ('sum', 'any'):
        subterms(t.args[0], seen, out)
    elif t.op == 'smax':
        for n, g, v in t.args:
            if n is None:
                subterms(g, seen, out)
                subterms(v, seen, out)
    else:
        for u in t.args:
            if isinstance(u, T):
                subterms(u, seen, out)
    return out


def all_apps(t, acc=None, seen=None):
    """names of applied symbols and variables anywhere, including under binders"""
    if acc is None:
        acc, seen = set(), set()
    if t in seen:
        return acc
    seen.add(t)
    if t.op in ('var', 'app'):
        acc.add(t.args[0])
    if t.op == 'poly':
        for m, _ in t.args:
            for a, _ in m:
                all_apps(a, acc, seen)
    elif t.op == 'smax':
        for e in t.args:
            for u in e:
                if u is not None:
                    all_apps(u, acc, seen)
    else:
        for u in t.args:
            if isinstance(u, T):
                all_apps(u, acc, seen)
    return acc
