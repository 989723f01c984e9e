"""Obligation prover: normal forms, rewriting with hypotheses, case splits, cross multiplication, then z3 / cvc5."""
import sys
import time
try:
    import z3
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import z3
from .terms import *

STATS = {'normal form': 0, 'hypotheses': 0, 'case split': 0, 'cross multiplication': 0, 'congruence': 0, 'z3': 0, 'cvc5': 0,
         'z3_time': 0.0, 'z3_calls': 0, 'entail': 0}
ASSUMED_NONZERO = set()
_z3memo = {}


class Tr:
    """term -> z3 translation with side facts; translations are kept for the whole run"""
    store = {}

    def __init__(self, quant=True, lin=False):
        self.quant, self.lin = quant, lin
        self.nonlin = False
        self.m, self.inv = Tr.store.setdefault((quant, lin), ({}, {}))
        self.fx = {}

    @property
    def facts(self):
        return list(self.fx.values())

    def fact(self, f):
        self.fx[f.get_id()] = f

    def sgn(self, t, e):
        s = signs(t)
        if s == 4:
            self.fact(e > 0)
        elif s == 6:
            self.fact(e >= 0)
        elif s == 5:
            self.fact(e != 0)
        elif s == 1:
            self.fact(e < 0)
        elif s == 3:
            self.fact(e <= 0)

    def __call__(self, t):
        r = self.m.get(t)
        if r is None:
            saved, self.fx = self.fx, {}
            try:
                r = (self.tr(t), self.fx)
            finally:
                self.fx = saved
            self.m[t] = r
        self.fx.update(r[1])
        return r[0]

    def real(self, t):
        e = self(t)
        return z3.ToReal(e) if z3.is_int(e) else e

    def tr(self, t):
        op = t.op
        if op == 'const':
            c = t.args[0]
            if t.sort == 'O':
                return z3.Int('obj:' + repr(c))
            if isinstance(c, bool):
                return z3.BoolVal(c)
            if t.sort == 'I':
                return z3.IntVal(int(c))
            return z3.RealVal(str(c))
        if op == 'var' or op == 'app':
            n = t.args[0]
            d = DECL[n]
            srt = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort(), 'O': z3.IntSort()}
            if op == 'var':
                e = z3.Const(n, srt[d.sort])
            else:
                ars = [self(u) for u in t.args[1:]]
                f = z3.Function(n, *[a.sort() for a in ars], srt[d.sort])
                e = f(*ars)
            if d.sort in 'IR' and not self.hasbound(t):
                self.sgn(t, e)
                if d.lo is not None:
                    self.fact(e >= d.lo)
                if d.hi is not None:
                    self.fact(e <= d.hi)
            return e
        if op == 'bv':
            return z3.Int(f'bv{t.args[0]}')
        if op == 'poly':
            tot = None
            isint = t.sort == 'I'
            for m, c in t.args:
                parts = []
                if self.lin and (len(m) > 1 or m and m[0][1] != 1):
                    k = ('mono', m, isint)
                    v = self.inv.get(k)
                    if v is None:
                        v = self.inv[k] = (z3.Int if isint else z3.Real)(f'mono{len(self.inv)}')
                    mt = from_poly({m: Fr(1)})
                    self.sgn(mt, v)
                    if not isint and mt.sort == 'I':
                        self.fact(z3.IsInt(v))
                    v = v if c == 1 else (z3.IntVal(int(c)) if isint else z3.RealVal(str(c))) * v
                    tot = v if tot is None else tot + v
                    continue
                for a, e in m:
                    x = self(a) if isint else self.real(a)
                    if e < 0:
                        x0 = x
                        x = self.invof(a, x)
                    for _ in range(abs(e)):
                        parts.append(x)
                if isint:
                    v = z3.IntVal(int(c))
                else:
                    v = z3.RealVal(str(c))
                if parts:
                    pr = parts[0]
                    for x in parts[1:]:
                        pr = pr * x
                    v = pr if c == 1 else v * pr
                tot = v if tot is None else tot + v
            return tot
        if op == 'floor':
            x = self.real(t.args[0])
            if self.hasbound(t):
                return z3.ToInt(x)
            e = z3.Int(f'fl{t.id}')
            self.fact(z3.ToReal(e) <= x)
            self.fact(x < z3.ToReal(e) + 1)
            return e
        if op == 'ind':
            return z3.If(self(t.args[0]), z3.IntVal(1), z3.IntVal(0))
        if op == 'abs':
            x = self(t.args[0])
            return z3.If(x >= 0, x, -x)
        if op == 'le0':
            return self(t.args[0]) <= 0
        if op == 'lt0':
            return self(t.args[0]) < 0
        if op == 'eq0':
            return self(t.args[0]) == 0
        if op == 'oeq':
            return self(t.args[0]) == self(t.args[1])
        if op == 'oite':
            return z3.If(self(t.args[0]), self(t.args[1]), self(t.args[2]))
        if op == 'not':
            return z3.Not(self(t.args[0]))
        if op == 'and':
            return z3.And(*[self(u) for u in t.args])
        if op == 'or':
            return z3.Or(*[self(u) for u in t.args])
        if op == 'iff':
            return self(t.args[0]) == self(t.args[1])
        if op == 'any' and self.quant:
            n, b = t.args
            x = fresh('z', 'I', sign='0+')
            xe = z3.Int(x.args[0])
            saved, self.fx = self.fx, {}
            be = self(subst(b, {bv(b.h + 1): x}))
            loc, self.fx = self.fx, saved
            for f in loc.values():
                if mentions(f, xe):
                    be = z3.And(be, f)       # sign facts about terms with the bound variable hold universally
                else:
                    self.fact(f)
            ne = self(n)
            return z3.Exists([xe], z3.And(xe >= 0, xe < ne, be))
        # opaque
        if self.hasbound(t):
            vs = sorted([x for x in t.fv if x.op == 'bv' or x.op == 'var'], key=lambda x: x.id)
            es = [self(x) for x in vs]
            srt = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort(), 'O': z3.IntSort()}[t.sort]
            return z3.Function(f'op{t.id}', *[e.sort() for e in es], srt)(*es)
        srt = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort(), 'O': z3.IntSort()}[t.sort]
        if op in ('ln', 'exp', 'pow', 'obj'):
            ars = [self.real(u) if op != 'obj' else self(u) for u in t.args if isinstance(u, T)]
            tag = op + (str(t.args[0]) if op == 'obj' else '')
            if ars:
                e = z3.Function('f_' + tag, *[a.sort() for a in ars], srt)(*ars)
            else:
                e = z3.Const('f_' + tag, srt)
        else:
            e = z3.Const(f'{op}{t.id}', srt)
        if t.sort in 'IR':
            self.sgn(t, e)
        return e

    def invof(self, a, x):
        e = self.inv.get(a)
        if e is None:
            r = z3.Real(f'inv{a.id}')
            e = self.inv[a] = (r, z3.Implies(x != 0, r * x == 1))
        self.fact(e[1])
        return e[0]

    def hasbound(self, t):
        return any(x.op == 'bv' for x in t.fv)


def mentions(f, x):
    st = [f]
    seen = set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.eq(x):
            return True
        st.extend(e.children())
    return False


_syms = {}


def symbols(t):
    r = _syms.get(t)
    if r is None:
        out = set()
        st, seen = [t], set()
        while st:
            u = st.pop()
            if u in seen:
                continue
            seen.add(u)
            if u.op in ('var', 'app'):
                out.add(u.args[0])
            if u.op == 'poly':
                for m, _ in u.args:
                    st.extend(a for a, _ in m)
            elif u.op == 'smax':
                for e in u.args:
                    st.extend(x for x in e if x is not None)
            else:
                st.extend(x for x in u.args if isinstance(x, T))
        r = _syms[t] = frozenset(out)
    return r


def cone(hyps, goal):
    """hypotheses connected to the goal by shared symbols"""
    known = set(symbols(goal))
    rest, keep = [(h, symbols(h)) for h in hyps], []
    while True:
        nxt = []
        hit = False
        for h, sy in rest:
            if not sy or sy & known:
                keep.append(h)
                hit = True
                known |= sy
            else:
                nxt.append((h, sy))
        rest = nxt
        if not hit:
            return keep


def z3check(hyps, goal, timeout=2000, quant=True, want_model=False):
    """'valid', 'invalid' (with model) or 'unknown'"""
    if quant is False:
        hyps = cone(hyps, goal)
    key = (tuple(sorted(h.id for h in hyps)), goal.id, timeout, quant)
    if not want_model and key in _z3memo:
        return _z3memo[key], None
    t0 = time.time()
    res, model = 'unknown', None
    lins = [True, False] if not want_model and any(nonlinear(t) for t in list(hyps) + [goal]) else [False]
    for lin in lins:
        tr = Tr(quant, lin)
        s = z3.Solver()
        s.set('timeout', timeout)
        try:
            for h in hyps:
                s.add(tr(h))
            s.add(z3.Not(tr(goal)))
            for f in tr.facts:
                s.add(f)
            r = s.check()
        except z3.Z3Exception as e:
            r = z3.unknown
        res = 'valid' if r == z3.unsat else 'invalid' if r == z3.sat else 'unknown'
        if res == 'valid':
            break
    STATS['z3_time'] += time.time() - t0
    STATS['z3_calls'] += 1
    _z3memo[key] = res
    return res, (s.model() if r == z3.sat and want_model else None),


_nl = {}


def nonlinear(t):
    """a product of unknowns outside opaque terms"""
    r = _nl.get(t)
    if r is None:
        r = False
        if t.op == 'poly':
            r = any(m and (len(m) > 1 or m[0][1] != 1 or nonlinear(m[0][0])) for m, _ in t.args)
        elif t.op in ('le0', 'lt0', 'eq0', 'not', 'and', 'or', 'iff', 'ind', 'floor', 'abs', 'any', 'oeq', 'oite', 'app'):
            r = any(nonlinear(x) for x in t.args if isinstance(x, T))
        _nl[t] = r
    return r


_smt_ok = [None]


def cvc5check(hyps, goal, timeout=10000):
    try:
        import cvc5
    except ImportError:
        return 'unknown'
    tr = Tr(True)
    s = z3.Solver()
    for h in hyps:
        s.add(tr(h))
    s.add(z3.Not(tr(goal)))
    for f in tr.facts:
        s.add(f)
    txt = s.to_smt2()
    try:
        sol = cvc5.Solver()
        sol.setOption('tlimit-per', str(timeout))
        parser = cvc5.InputParser(sol)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + txt, 'q')
        sm = parser.getSymbolManager()
        out = ''
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = str(cmd.invoke(sol, sm)) or out
        return 'valid' if out.strip().startswith('unsat') else 'unknown'
    except Exception:
        return 'unknown'


# ------------------------------------------------------------------ hypotheses
def flatten(hyps):
    out = []
    for h in hyps:
        if h.op == 'and':
            out += flatten(h.args)
        elif h.op == 'not' and h.args[0].op == 'or':
            out += flatten([not_(x) for x in h.args[0].args])
        elif h is not TRUE:
            out.append(h)
    return out


def hyp_map(hyps):
    """rewriting map from hypotheses: literals to truth values, symbol = constant equations"""
    m = {}
    for h in flatten(hyps):
        if h.op == 'const':
            continue
        if h.op == 'not':
            m[h.args[0]] = FALSE
        else:
            m[h] = TRUE
            if h.op == 'le0' and h.args[0].op in ('app', 'var', 'abs', 'w') and is_nonneg(h.args[0]):
                m[h.args[0]] = ZERO
            if h.op == 'eq0':
                p = to_poly(h.args[0])
                # solve for a symbol with coefficient +-1 occurring nowhere else: prefer apps/vars equal to constants
                best = None
                for mono, c in p.items():
                    if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op in ('app', 'var', 'floor'):
                        a = mono[0][0]
                        rest = from_poly(pmul_c({mm: cc for mm, cc in p.items() if mm != mono}, -1 / c))
                        if a.fv and any(a in subterms(x) for x in [rest]):
                            continue
                        if a.sort == 'I' and rest.sort != 'I':
                            continue
                        score = (rest.op != 'const', a.op == 'var', len(rest.args) if rest.op == 'poly' else 0, -a.id)
                        if best is None or score < best[0]:
                            best = (score, a, rest)
                if best:
                    m[best[1]] = best[2]
    return m


_apps = {}


def deepapps(t):
    """applications anywhere in t, bodies of binders included"""
    r = _apps.get(t)
    if r is None:
        out, st, seen = set(), [t], set()
        while st:
            u = st.pop()
            if u in seen:
                continue
            seen.add(u)
            if u.op == 'app':
                out.add(u)
            if u.op == 'poly':
                for m, _ in u.args:
                    st.extend(a for a, _ in m)
            elif u.op == 'smax':
                for e in u.args:
                    st.extend(x for x in e if x is not None)
            else:
                st.extend(x for x in u.args if isinstance(x, T))
        r = _apps[t] = frozenset(out)
    return r


_insts = {}


def contradictory(hyps, goal):
    """the hypotheses and their instances at the goal's index terms contradict each other (cheap test)"""
    for _ in range(3):
        s = solved(hyps)
        if s is None:
            break
        hyps = s
    if FALSE in hyps:
        return True
    h2 = flatten(hyps + instances(hyps, goal))
    for _ in range(3):
        s = solved(h2)
        if s is None:
            break
        h2 = s
    h2 = propagate(h2)
    if FALSE in h2:
        return True
    lits = hyp_map([h for h in h2 if h.op == 'any' or (h.op == 'not' and h.args[0].op == 'any')])
    return any(apply_hyps(h, {k: v for k, v in lits.items() if k is not h and not (h.op == 'not' and k is h.args[0])}) is FALSE for h in h2) or \
        any(h.op == 'any' and not_(h) in h2 for h in h2)


def instances(hyps, goal, ends=None):
    """instances of the universal hypotheses (negated any) at the index terms the goal applies the same functions to;
    `ends` collects the equalities to case-split on (index possibly equal to the bound)"""
    key = (tuple(h.id for h in hyps), goal.id)
    if key in _insts and ends is None:
        return _insts[key]
    out = instances1(hyps, goal, ends)
    if any(u.op == 'any' for h in out for u in subterms(h)):
        out = out + [h for h in instances1(list(hyps) + out, goal, None) if h not in out]
    _insts[key] = out
    return out


def instances1(hyps, goal, ends):
    hyps = flatten(hyps)
    have = set(hyps)
    out = []
    eqs = {k: v for k, v in hyp_map(hyps).items() if v.sort != 'B'}
    goal = apply_hyps(goal, eqs)
    for h in hyps:
        if not (h.op == 'not' and h.args[0].op == 'any'):
            continue
        n, b = h.args[0].args
        x = bv(b.h + 1)
        pats = {(u.args[0], i) for u in deepapps(b) for i, a in enumerate(u.args) if i and a is x}
        cands = []
        for u in sorted(deepapps(goal), key=lambda u: u.id):
            for i, a in enumerate(u.args):
                if i and (u.args[0], i) in pats and isinstance(a, T) and a not in cands and not closedness(a):
                    cands.append(a)
        for a in cands[:6]:
            f = not_(subst(b, {x: a}))
            if f in have:
                continue
            c = and_(le(0, a), lt(a, n))
            if c is not TRUE and c is not FALSE:
                hm = hyp_map(hyps)
                c = apply_hyps(c, hm)
                if c is not TRUE and z3check(hyps, c, 500, quant=False)[0] == 'valid':
                    c = TRUE
            if c is TRUE:
                out.append(f)
                have.add(f)
            elif ends is not None and c is not FALSE and z3check(hyps, le(a, n), 500, quant=False)[0] == 'valid':
                ends.append(eq(a, n))
    return flatten(out)


def closedness(a):
    """has a bound variable"""
    if a.op == 'bv':
        return True
    if a.op == 'poly':
        return any(closedness(x) for m, _ in a.args for x, _ in m)
    return any(closedness(x) for x in a.args if isinstance(x, T)) if a.op != 'smax' else True


def apply_hyps(t, m):
    for _ in range(6):
        u = rewrite(t, m)
        if u is t:
            return t
        t = u
    return t


def inds(t):
    """literals of the indicators occurring outside binders"""
    out = []
    for u in subterms(t):
        if u.op == 'ind':
            out.append(u.args[0])
    if not out:
        seen = set()
        closed_inds(t, seen, out)
    return out


def closed_inds(t, seen, out):
    """indicator literals under binders that mention no bound variable"""
    if t in seen:
        return
    seen.add(t)
    if t.op == 'ind' and not any(x.op == 'bv' for x in t.fv) and t.args[0] not in out:
        out.append(t.args[0])
    if t.op == 'poly':
        for m, _ in t.args:
            for a, _ in m:
                closed_inds(a, seen, out)
    elif t.op == 'smax':
        for e in t.args:
            for u in e:
                if u is not None:
                    closed_inds(u, seen, out)
    else:
        for u in t.args:
            if isinstance(u, T):
                closed_inds(u, seen, out)


def closed_lits(t, seen, out):
    """atomic literals under binders that mention no bound variable"""
    if t in seen:
        return
    seen.add(t)
    if t.op in ('le0', 'lt0', 'eq0', 'oeq') or (t.op in ('var', 'app') and t.sort == 'B'):
        if not any(x.op == 'bv' for x in t.fv):
            if t not in out:
                out.append(t)
            return
    if t.op == 'poly':
        for m, _ in t.args:
            for a, _ in m:
                closed_lits(a, seen, out)
    elif t.op == 'smax':
        for e in t.args:
            for u in e:
                if u is not None:
                    closed_lits(u, seen, out)
    else:
        for u in t.args:
            if isinstance(u, T):
                closed_lits(u, seen, out)


def cross(d):
    """multiply by the denominators; None when there are none"""
    p = to_poly(d)
    den = {}
    for m in p:
        for a, e in m:
            if e < 0:
                den[a] = max(den.get(a, 0), -e)
    den = {a: e for a, e in den.items() if a.op == 'poly'}
    if not den:
        return None
    r = {}
    for m, c in p.items():
        q = {tuple((a, e) for a, e in m if a not in den): c}
        have = dict(m)
        for a, e in den.items():
            k = e + have.get(a, 0)
            if k:
                q = pmul(q, ppow(to_poly(a), k))
        r = padd(r, q)
    for a in den:
        ASSUMED_NONZERO.add(show(a)[:300])
    return from_poly(r)


class Undecided(Exception):
    pass


def prove(hyps, goal, timeout=4000, depth=0, budget=None):
    """True when the goal follows; False when not shown"""
    if budget is None:
        budget = [time.time() + 60]
    if goal is TRUE:
        STATS['normal form'] += depth == 0
        return 'normal form'
    hyps = flatten(hyps)
    if FALSE in hyps:
        return 'hypotheses'
    m = hyp_map(hyps)
    g = apply_hyps(goal, m)
    if g is TRUE:
        return 'hypotheses'
    if time.time() > budget[0]:
        return None
    # hypotheses among themselves
    if g.op == 'and':
        how = None
        for x in g.args:
            how = prove(hyps, x, timeout, depth, budget)
            if not how:
                return None
        return how
    if g.op == 'or':
        # assume the negation of all disjuncts but one
        k = [x for x in g.args]
        eqs = [x for x in k if x.op in ('eq0', 'iff')] or k[-1:]
        rest = [not_(x) for x in k if x is not eqs[0]]
        return prove(hyps + rest, eqs[0], timeout, depth + 1, budget)
    if depth == 0 and g.op == 'eq0' and len(set(inds(g))) > 4 and contradictory(hyps, goal):
        return 'hypotheses'
    if g.op == 'eq0' or (g.op == 'not' and False):
        r = prove_zero(hyps, g.args[0], timeout, depth, budget)
        if r:
            return r
    if g.op == 'iff':
        g2 = simp_binders(g, hyps)
        g2 = apply_hyps(g2, m)
        if g2 is TRUE:
            return 'congruence'
        g = g2
        # case split on shared literals
        lits = bool_lits(g)
        more = []
        closed_lits(g, set(), more)
        lits = more + [l for l in lits if l not in more]
        if (len(lits) > 1 or more) and depth < 10:
            r = split(hyps, g, lits, timeout, depth, budget)
            if r:
                return r
    elif g.op not in ('eq0',):
        g2 = simp_binders(g, hyps)
        if g2 is TRUE:
            return 'congruence'
        if g2.op in ('and', 'or') and g2 is not g:
            r = prove(hyps, g2, timeout, depth + 1, budget)
            if r:
                return r
        g = g2
    r, _ = z3check(hyps, g, timeout)
    if r == 'valid':
        return 'z3'
    if depth < 10:
        sol = solved(hyps)
        if sol is not None:
            return prove(sol, apply_hyps(goal, hyp_map(sol)), timeout, depth + 1, budget)
        pro = propagate(hyps)
        if pro != hyps:
            return prove(pro, goal, timeout, depth + 1, budget)
    if depth < 8:
        ends = []
        more = instances(hyps, goal, ends)
        if ends and ends[0].op != 'const':
            e = ends[0]
            m = hyp_map([e])
            return prove([apply_hyps(h, m) for h in hyps] + [e], apply_hyps(goal, m), timeout, depth + 1, budget) and \
                prove(hyps + [not_(e)], goal, timeout, depth + 1, budget) and 'case split'
        if more:
            hyps, more = propagate(hyps + more), []
            if FALSE in hyps:
                return 'hypotheses'
            c = choice(hyps)
            if c is not None:
                return prove(propagate(hyps + [c]), goal, timeout, depth + 1, budget) and \
                    prove(propagate(hyps + [not_(c)]), goal, timeout, depth + 1, budget) and 'case split'
            lits = hyp_map([h for h in hyps + more if h.op == 'any' or (h.op == 'not' and h.args[0].op == 'any')])
            if any(apply_hyps(h, lits) is FALSE for h in hyps if h not in lits and h.op in ('not', 'and', 'or')):
                return 'hypotheses'
            return prove(hyps + more, goal, timeout, depth + 2, budget)
    if r == 'unknown' and depth == 0:
        if cvc5check(hyps, g) == 'valid':
            return 'cvc5'
    return None


def solved(hyps):
    """the hypotheses with the solved variables substituted away; None when nothing changes"""
    eqs = {k: v for k, v in hyp_map(hyps).items() if v.sort != 'B' and k.op in ('var', 'app')}
    if not eqs:
        return None
    out, changed = [], False
    for h in hyps:
        h2 = apply_hyps(h, eqs)
        if h2 is TRUE:
            h2 = h
        changed = changed or h2 is not h
        out.append(h2)
    return flatten(out) if changed else None


def propagate(hyps):
    """unit propagation of the literal hypotheses into the disjunctive ones"""
    hyps = flatten(hyps)
    for _ in range(4):
        comp = lambda h: h.op == 'or' or (h.op == 'not' and h.args[0].op == 'and')
        m = hyp_map([h for h in hyps if not comp(h)])
        m = {k: v for k, v in m.items() if v.sort == 'B'}
        out = flatten([apply_hyps(h, m) if comp(h) else h for h in hyps])
        if out == hyps:
            break
        hyps = out
    return hyps


def choice(hyps):
    """a literal without quantifier that a disjunctive hypothesis with quantifiers hangs on"""
    for h in hyps:
        d = h.args if h.op == 'or' else [not_(x) for x in h.args[0].args] if h.op == 'not' and h.args[0].op == 'and' else ()
        if any(u.op == 'any' for u in subterms(h)):
            for x in sorted(d, key=lambda x: x.op not in ('eq0', 'not')):
                y = x.args[0] if x.op == 'not' else x
                if y.op in ('eq0', 'le0') and not closedness(y):
                    return y
    return None


def bool_lits(g):
    out = []
    st = list(g.args)
    while st:
        u = st.pop()
        if u.op in ('and', 'or', 'not', 'iff'):
            st.extend(u.args)
        elif u.op != 'const' and u not in out:
            out.append(u)
    return out


def split(hyps, g, lits, timeout, depth, budget):
    lits = [l for l in lits if l.op != 'any']
    if not lits:
        return None
    l = lits[0]
    for c in (l, not_(l)):
        if z3check(hyps, not_(c), 500, quant=False)[0] == 'valid':
            continue
        if not prove(hyps + [c], rewrite(g, hyp_map([c])), timeout, depth + 1, budget):
            return None
    return 'case split'


def prove_zero(hyps, d, timeout, depth, budget):
    p = d
    if p is ZERO:
        return 'normal form'
    # case split on indicators
    lits = inds(p)
    if lits and depth < 14:
        l = sorted(lits, key=lambda x: (x.op != 'eq0', x.id))[0]
        for c in (l, not_(l)):
            if z3check(hyps, not_(c), 500, quant=False)[0] == 'valid':
                continue
            if time.time() > budget[0]:
                return None
            h2 = hyps + [c]
            q = apply_hyps(p, hyp_map(h2))
            if q is not ZERO and not prove(h2, eq0(q), timeout, depth + 1, budget):
                return None
        return 'case split'
    q = cross(p)
    if q is not None:
        for _ in range(5):
            if q is None or q is ZERO:
                break
            p2, q = q, cross(q)
            if q is None:
                q = p2
                break
        if q is ZERO:
            return 'cross multiplication'
    q = simp_binders(p, hyps)
    if q is not p:
        q = apply_hyps(q, hyp_map(hyps))
        if q is ZERO:
            return 'congruence'
        if depth < 12:
            return prove(hyps, eq0(q), timeout, depth + 1, budget)
    return None


def simp_binders(t, hyps, depth=0):
    """simplify literals inside binder bodies using the hypotheses and the range of the bound variable"""
    memo = {}

    def S(u):
        r = memo.get(u)
        if r is None:
            r = memo[u] = go(u)
        return r

    def go(u):
        if u.op in ('sum', 'any'):
            n, b = u.args
            x = fresh('s', 'I', sign='0+')
            nb = subst(b, {bv(b.h + 1): x})
            h2 = hyps + [le(0, x), lt(x, n)]
            nb = simp_lits(nb, h2, x, depth)
            if u.op == 'sum':
                nb = zero_products(nb, n, x, hyps)
            return mksum(S(n), x, nb) if u.op == 'sum' else mkany(S(n), x, nb)
        if u.op == 'smax':
            es = []
            for n, g, v in u.args:
                if n is None:
                    es.append((None, S(g), S(v)))
                    continue
                x = fresh('s', 'I', sign='0+')
                h = max(g.h, v.h) + 1
                g2, v2 = subst(g, {bv(h): x}), subst(v, {bv(h): x})
                h2 = hyps + [le(0, x), lt(x, n)]
                g2, v2 = simp_lits(g2, h2, x, depth), simp_lits(v2, h2, x, depth)
                n2 = S(n)
                es.append((None, mkany(n2, x, g2), mkmax(n2, x, g2, v2)))
            return bsmax(es)
        if u.op in ('const', 'var', 'bv', 'app'):
            return u
        return rebuild(u, S)
    return S(t)


def zero_products(t, n, x, hyps):
    """use hypotheses not(any k < n: l1 and l2 and ...): the product of the indicators vanishes"""
    rules = []
    for h in hyps:
        if h.op == 'not' and h.args[0].op == 'any' and h.args[0].args[0] is n:
            cb = h.args[0].args[1]
            z = to_poly(ind(subst(cb, {bv(cb.h + 1): x})))
            if not z:
                continue
            lead = min(z, key=lambda m: (len(m), m and m[0][0].id))
            if all(a.op == 'ind' for m in z for a, _ in m) and all(set(lead) <= set(m) for m in z):
                c = z[lead]
                rest = from_poly({m: -k / c for m, k in z.items() if m != lead})
                others = {a for m in z for a, _ in m if (a, 1) not in lead}
                rules.append((set(lead), rest, others))
    if not rules:
        return t
    for _ in range(20):
        p, r, changed = to_poly(t), {}, False
        for m, c in p.items():
            ms = set(m)
            for lead, rest, others in rules:
                if lead <= ms and not any(a in others for a, _ in m):
                    q = from_poly({tuple(z for z in m if z not in lead): c})
                    r = padd(r, to_poly(mul(q, rest)))
                    changed = True
                    break
            else:
                r = padd(r, {m: c})
        t = from_poly(r)
        if not changed:
            break
    return t


def simp_lits(t, hyps, x, depth):
    t = apply_hyps(t, hyp_map(hyps))
    lits = set()
    for u in subterms(t):
        if u.op in ('le0', 'lt0', 'eq0') and x in u.fv:
            lits.add(u)
    m = {}
    for l in lits:
        if z3check(hyps, l, 500, quant=False)[0] == 'valid':
            m[l] = TRUE
        elif z3check(hyps, not_(l), 500, quant=False)[0] == 'valid':
            m[l] = FALSE
    if m:
        t = rewrite(t, m)
    if depth < 10:
        t = simp_binders(t, hyps, depth + 1)
    return t
