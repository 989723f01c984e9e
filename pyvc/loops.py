"""Summaries of loops with a symbolic number of iterations."""
import ast
from .terms import *
from .values import *
from . import prove as P


class Model:
    """what a loop-carried location holds at the start of iteration i"""
    def __init__(self, loc, kind, **kw):
        self.loc, self.kind = loc, kind
        self.__dict__.update(kw)


def eqval(I, a, b):
    """goal term: the two values are equal (same shapes, same missing elements, same present values)"""
    if a is b:
        return TRUE
    if isinstance(a, VIte):
        return and_(implies(a.cond, eqval(I, a.a, b)), implies(not_(a.cond), eqval(I, a.b, b)))
    if isinstance(b, VIte):
        return and_(implies(b.cond, eqval(I, a, b.a)), implies(not_(b.cond), eqval(I, a, b.b)))
    if isnum(a) and isnum(b):
        try:
            x, y = sc(a), sc(b)
        except Unsupported:
            return const(a == b)
        if (x.t.sort == 'B') != (y.t.sort == 'B'):
            return FALSE
        return and_(iff(x.nan, y.nan), or_(x.nan, eq(x.t, y.t)))
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.ndim != b.ndim or a.masked() or b.masked():
            return FALSE
        g = [eq(x, y) for x, y in zip(a.shape, b.shape)]
        idx = [fresh('e', 'I', sign='0+') for _ in a.shape]
        n1, v1 = a.at(idx)
        n2, v2 = b.at(idx)
        rng = and_(*[lt(i, s) for i, s in zip(idx, a.shape)])
        g.append(implies(rng, iff(n1, n2)))
        g.append(implies(and_(rng, not_(n1)), eq(v1, v2)))
        return and_(*g)
    if isinstance(a, PyList) and isinstance(b, PyList) and len(a.items) == len(b.items) and not a.symbolic() and not b.symbolic():
        return and_(*[eqval(I, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, NTInst) and isinstance(b, NTInst) and a.cls is b.cls:
        return and_(*[eqval(I, x, y) for x, y in zip(a.vals, b.vals)])
    if isinstance(a, OVal) and isinstance(b, OVal):
        return eq(a.t, b.t)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return const(a is b or (isinstance(a, str) and a == b))
    return FALSE


def proves(I, goal, extra=()):
    return P.prove(I.hyps() + list(extra), goal)


def stored(body):
    out = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
    return out


def summarise(I, s, fr, n, get):
    from .interp import MISSING, BreakEx, ContinueEx, ReturnEx
    ser = SER[0]
    models = {}
    tvars = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
    for v in stored(s.body) | tvars:
        if v in fr.globals_:
            raise Unsupported('global variable assigned in a symbolic loop')
        loc = ('var', fr, v)
        models[loc] = Model(loc, 'temp')
    for loc in fr.written.get(id(s), ()):
        if loc[1].ser <= ser:
            models[loc] = first_model(I, loc)
    init = {}

    def run_body(i):
        I.assign(s.target, get(i), fr)
        try:
            I.block(s.body, fr)
        except BreakEx:
            return ('break', None)
        except ContinueEx:
            return ('next', None)
        except ReturnEx as r:
            return ('return', r.v)
        return ('next', None)

    def havoc(i):
        for loc, m in models.items():
            if m.kind == 'temp':
                if loc[0] == 'var':
                    I.setvar(loc[1], loc[2], Havoc(loc))
                else:
                    I.setattr(loc[1], loc[2], Havoc(loc))
            elif m.kind in ('family', 'acc'):
                I.setloc(loc, m.at(i))
            elif m.kind == 'cell':
                I.setcell(loc[1], m.content(i))
            elif m.kind == 'dict':
                d = loc[1]
                I.mutdict(d)
                d.over, d.hav = [], (loc, i, m.key)
            elif m.kind == 'list':
                I.mutlist(loc[1])
                loc[1].items = list(loc[1].items) + [ListMark(loc)]

    for attempt in range(14):
        i = fresh('i', 'I', sign='0+')
        pcm, jm = len(I.pc), len(I.journal)
        ser2 = SER[0]
        for loc in models:
            if loc not in init:
                init[loc] = I.locval(loc)
        try:
            I.loopdepth += 1
            I.pc.append(lt(i, n))
            for m in models.values():
                if m.kind == 'family':
                    I.pc += m.fam.axioms(I, i) + m.fam.facts(I, i)
            havoc(i)
            rs = I.explore(lambda: run_body(i))
        except NeedCarry as e:
            loc = e.loc
            if loc not in models:
                raise
            carry(I, models, loc, init, n)
            continue
        finally:
            I.loopdepth -= 1
            I.rollback(jm, SER[0])
            del I.pc[pcm:]
        new = False
        for conds, o, diff, fx in rs:
            for loc in diff:
                if loc in models or loc[1].ser > ser:
                    continue
                new = True
                init[loc] = I.locval(loc)
                models[loc] = first_model(I, loc)
                if loc[0] == 'cell':
                    fr.written.setdefault(id(s), []).append(loc)
        if new:
            continue
        # keys written to dictionaries
        again = False
        for loc, m in models.items():
            if m.kind == 'dict' and (m.key is None or m.key == '?'):
                k = dictkey(rs, loc, i)
                if k is not None:
                    m.key = k
                    again = True
                elif m.key == '?':
                    raise Unsupported('loop reads a dictionary it writes at other keys')
            if m.kind == 'acc' and m.widen(I, rs, loc):
                again = True
        if again:
            continue
        break
    else:
        raise Unsupported('loop summary did not stabilise')

    nexts = [r for r in rs if r[1][0] == 'next']
    exits = [r for r in rs if r[1][0] != 'next']
    for conds, o, diff, fx in exits:
        for c in conds:
            for v in c.fv:
                if v is not i and v.op == 'var' and '!' in v.args[0] and born(v) > born(i):
                    raise Unsupported('early exit depending on a nested search')
    X = or_(*[and_(*r[0]) for r in exits])
    # invariants of the carried families
    fam = [m for m in models.values() if m.kind == 'family']
    jm = len(I.journal)
    if fam:
        pcm = len(I.pc)
        I.pc.append(lt(i, n))
        for m in fam:
            I.pc += m.fam.axioms(I, i) + m.fam.facts(I, i)
        I.pc.append(not_(X))
        for m in fam:
            v = merged(I, nexts, m.loc, lambda: m.at(i))
            goal = eqval(I, v, m.at(add(i, ONE)))
            how = I.oblige(f'loop invariant: {m.loc[2]} = {m.fam.name}(i) is preserved', goal)
            fgoal = and_(*m.fam.facts(I, add(i, ONE)))
            how2 = I.oblige(f'loop invariant: facts of {m.fam.name} are preserved', fgoal, [lt(add(i, ONE), n)]) if fgoal is not TRUE else 'none'
            if not how or not how2:
                del I.pc[pcm:]
                raise Unsupported(f'invariant of {m.loc[2]} not proved')
        del I.pc[pcm:]
        for m in fam:
            f0 = and_(*m.fam.facts(I, ZERO))
            if f0 is not TRUE and not I.oblige(f'loop invariant: facts of {m.fam.name} hold initially', f0):
                raise Unsupported(f'facts of {m.fam.name} not proved initially')

    def apply(cnt, exiting):
        for loc, m in models.items():
            if m.kind == 'temp':
                if loc[0] == 'attr':
                    val = merged(I, nexts, loc, lambda: MISSING)
                    if val is not MISSING:
                        I.setloc(loc, Last(cnt, lambda val=val: I.substv(val, {i: sub(cnt, ONE)}), init[loc]))
                    continue
                written = [r for r in nexts if loc in r[2]]
                if not written:
                    continue
                if len(written) < len(nexts):
                    I.setvar(loc[1], loc[2], Havoc(loc))
                    continue
                val = merged(I, nexts, loc, None)
                I.setvar(loc[1], loc[2], Last(cnt, lambda val=val: I.substv(val, {i: sub(cnt, ONE)}), init[loc]))
            elif m.kind == 'family':
                I.setloc(loc, m.at(cnt))
            elif m.kind == 'acc':
                I.setloc(loc, m.final(I, nexts, loc, i, cnt, init[loc]))
            elif m.kind == 'cell':
                I.setcell(loc[1], m.final(I, nexts, loc, i, cnt, init[loc]))
            elif m.kind == 'dict':
                final_dict(I, nexts, loc, i, cnt, m)
            elif m.kind == 'list':
                final_list(I, nexts, loc, i, cnt, init[loc])
        # effects
        for conds, o, diff, fx in nexts:
            for e in fx:
                I.effects.append((e[0], e[1], mkany(cnt, i, and_(*conds, e[2] if len(e) > 2 else TRUE))))

    if not exits:
        apply(n, False)
        return True
    full = not_(mkany(n, i, X))
    if I.decide(full):
        apply(n, False)
        return True
    # the exit index is the least i with X: a loop left under the same condition earlier in this path is left at the same index
    key = (n, I.simp(subst(X, {i: EXIT})))
    known = {id(h) for h in I.pc}
    before = [(k, v) for k, v, hs in I.exits if all(id(h) in known for h in hs)]
    i0 = next((v for k, v in before if k == key), None)
    if i0 is None:
        e = fresh('e', 'I', sign='0+')
        i0 = next((v for k, v in before if I.entails(eq(k[0], n)) and
                   I.entails(implies(lt(e, n), iff(subst(k[1], {EXIT: e}), subst(key[1], {EXIT: e}))))), None)
    if i0 is None:
        i0 = fresh('x', 'I', sign='0+')
        m0 = len(I.pc)
        I.assume(lt(i0, n))
        I.assume(subst(X, {i: i0}))
        I.assume(not_(mkany(i0, i, X)))
        I.exits.append((key, i0, I.pc[m0:]))
    for m in fam:
        for f in m.fam.axioms(I, i0) + m.fam.facts(I, i0):
            I.assume(f)
    apply(i0, True)
    I.assign(s.target, get(i0), fr)
    try:
        I.block(s.body, fr)
    except BreakEx:
        return False
    except ContinueEx:
        pass
    raise DeadPath()


EXIT = fresh('exit', 'I', sign='0+')


def born(v):
    return int(v.args[0].rsplit('!', 1)[1])


class ListMark:
    def __init__(self, loc):
        self.loc = loc


def first_model(I, loc):
    k = loc[0]
    if k in ('var', 'attr'):
        return Model(loc, 'temp')
    if k == 'cell':
        return CellModel(loc)
    if k == 'dict':
        return Model(loc, 'dict', key=None)
    return Model(loc, 'list')


def merged(I, rs, loc, default):
    """value of the location after an iteration, over all paths"""
    v = None
    for k, (conds, o, diff, fx) in enumerate(reversed(rs)):
        w = diff[loc] if loc in diff else default()
        v = w if k == 0 else I.merge(and_(*conds), w, v)
    return v


# ------------------------------------------------------------ carried variables
def carry(I, models, loc, init, n):
    m = models[loc]
    tried = getattr(m, 'tried', 0)
    if m.kind == 'dict' and m.key is None:
        m.key = '?'         # first find the keys written; reads are checked against them afterwards
        return
    if loc[0] not in ('var', 'attr') or m.kind != 'temp':
        raise Unsupported(f'loop reads {loc[0]} {loc[2] if len(loc) > 2 else ""} written by an earlier iteration')
    v0 = init[loc]
    from .interp import MISSING
    if v0 is MISSING:
        raise Unsupported(f'loop-carried {loc[2]} without an initial value')
    for f in I.families:
        a0 = f.at(I, ZERO)
        g = eqval(I, v0, a0)
        if g is FALSE:
            continue
        if proves(I, g):
            fm = Model(loc, 'family', fam=f)
            fm.at = lambda i, f=f: f.at(I, i)
            models[loc] = fm
            I.obligations.append((f'loop invariant: {loc[2]} = {f.name}(0) initially', I.hyps(), g, 'proved'))
            return
    if isnum(v0):
        models[loc] = AccModel(loc, v0)
        return
    if isinstance(v0, Arr) and not v0.masked():
        models[loc] = AccModel(loc, v0)
        return
    raise Unsupported(f'no invariant for the loop-carried variable {loc[2]}')


class AccModel:
    """number or array updated by x = x + d(i) or x = x * f(i)"""
    kind = 'acc'

    def __init__(self, loc, v0):
        self.loc, self.v0 = loc, v0
        self.name = fresh_name('H')
        self.arr = isinstance(v0, Arr)
        nd = v0.ndim if self.arr else 0
        self.shape = v0.shape if self.arr else ()
        k = v0.dtype if self.arr else KDT[RANK[sc(v0).kind]]
        self.np = self.arr or 'np' in sc(v0).kind
        self.setk(k, nd)

    def setk(self, k, nd):
        self.k, self.nd = k, nd
        self.name = fresh_name('H')
        declare(self.name, 'B' if k == 'b' else 'I' if k == 'i' else 'R', 1 + nd)
        declare(self.name + 'n', 'B', 1 + nd)

    def at(self, i):
        if self.arr:
            return mk(self.shape, lambda idx: (app(self.name + 'n', i, *idx) if self.k in 'fc' else FALSE, app(self.name, i, *idx)), self.k)
        kd = DTK[self.k] if self.np else DTK[self.k][2:]
        return Sc(app(self.name, i), kd, app(self.name + 'n', i) if self.k in 'fc' else FALSE)

    def widen(self, I, rs, loc):
        """the kind or shape of the value changes in the loop"""
        for r in rs:
            if loc not in r[2] or r[1][0] != 'next':
                continue
            v = r[2][loc]
            if isinstance(v, Arr):
                if not self.arr or v.ndim != self.nd or any(x is not y for x, y in zip(v.shape, self.shape)):
                    if self.arr and self.nd:
                        raise Unsupported('carried array changes its shape')
                    self.arr, self.shape = True, v.shape
                    self.setk(v.dtype, v.ndim)
                    return True
                if RANK[DTK[v.dtype]] > RANK[DTK[self.k]]:
                    self.setk(v.dtype, v.ndim)
                    return True
            elif isnum(v) and not self.arr:
                x = sc(v)
                k = KDT[RANK[x.kind]]
                if RANK[DTK[k]] > RANK[DTK[self.k]] or ('np' in x.kind) > self.np:
                    self.np = self.np or 'np' in x.kind
                    self.setk(KDT[max(RANK[x.kind], RANK[DTK[self.k]])], 0)
                    return True
            else:
                raise Unsupported(f'no invariant for the loop-carried variable {loc[2]}')
        return False

    def final(self, I, rs, loc, i, cnt, v0):
        v = merged(I, rs, loc, lambda: self.at(i))
        if isinstance(v, (VIte,)):
            raise Unsupported('carried value of mixed type')
        f = I.snap(v) if isinstance(v, Arr) else (lambda idx: (sc(v).nan, sc(v).t))
        if isinstance(v0, Arr):
            f0 = I.snap(v0)
            base = (lambda idx: f0(idx)) if v0.ndim == self.nd else None
        else:
            base = lambda idx: (sc(v0).nan, sc(v0).t)
        if base is None:
            raise Unsupported('carried array changes its shape')

        def el(idx):
            n1, v1 = f(idx)
            hn = app(self.name + 'n', i, *idx)
            hv = app(self.name, i, *idx)
            n0, b0 = base(idx)
            return accumulate(self.name, n1, v1, hn, hv, n0, b0, i, cnt)
        if self.arr:
            return mk(self.shape, el, self.k)
        nn, t = el(())
        kd = DTK[self.k] if self.np else DTK[self.k][2:]
        return native(Sc(t, kd, nn))


def accumulate(name, n1, v1, hn, hv, n0, b0, i, cnt):
    names = {name, name + 'n'}
    # missing values: n1 = hn or extra
    extra = rewrite(n1, {hn: FALSE})
    if names & all_apps(extra):
        raise Unsupported('carried missing values')
    nn = or_(n0, mkany(cnt, i, extra)) if hn in n1.fv or names & all_apps(n1) else None
    if nn is None:
        # not accumulated: the flag of the last iteration
        nn = subst(extra, {i: sub(cnt, ONE)}) if n1 is not FALSE else FALSE
        if n1 is FALSE:
            nn = FALSE if n0 is FALSE else and_(n0, le(cnt, ZERO))
    if hv.sort == 'B':
        ex = rewrite(v1, {hv: FALSE})
        ex2 = rewrite(v1, {hv: TRUE})
        if names & (all_apps(ex) | all_apps(ex2)):
            raise Unsupported('carried truth value')
        if ex2 is TRUE:
            return nn, or_(b0, mkany(cnt, i, ex))
        if ex is FALSE:
            return nn, and_(b0, not_(mkany(cnt, i, not_(ex2))))
        raise Unsupported('carried truth value')
    d = sub(v1, hv)
    if not names & all_apps(d):
        return nn, add(b0, mksum(cnt, i, d))
    r = mul(v1, inv(hv))
    if not names & all_apps(r):
        if i not in r.fv:
            return nn, mul(b0, power(r, cnt))
        if is_pos(r):
            return nn, mul(b0, exp(mksum(cnt, i, ln(r))))
    raise Unsupported('no closed form of a carried value')


# ------------------------------------------------------------ cells
class LoopC(FnC):
    """content after a loop; wr gives the slots it overwrites when each is written once"""

    def __init__(self, fn, wr, prev):
        FnC.__init__(self, fn)
        self.wr, self.prev, self.memo2 = wr, prev, {}

    def over(self, base, idx):
        if self is base:
            return (FALSE, FALSE, ZERO)
        w = self.memo2.get(idx, 0)
        if w == 0:
            w = self.memo2[idx] = self.wr(idx)
        if w is None:
            return (TRUE,) + self.at(idx)
        g, n, v = w
        g0, n0, v0 = self.prev.over(base, idx)
        if g is FALSE:
            return g0, n0, v0
        return or_(g, g0), ite(g, n, n0), ite(g, v, v0)


class CellModel:
    kind = 'cell'

    def __init__(self, loc):
        self.loc = loc
        c = loc[1]
        self.nd = len(c.shape)
        self.name = fresh_name('C')
        declare(self.name, {'b': 'B', 'i': 'I'}.get(c.dtype, 'R'), 1 + self.nd)
        if c.dtype == 'c':
            DECL[self.name].cplx = True
        declare(self.name + 'n', 'B', 1 + self.nd)
        self.base = None

    def content(self, i):
        c = self.loc[1]
        self.base = FnC(lambda idx: (app(self.name + 'n', i, *idx) if c.dtype in 'fc' else FALSE, app(self.name, i, *idx)))
        return self.base

    def final(self, I, rs, loc, i, cnt, old):
        cont = None
        for k, (conds, o, diff, fx) in enumerate(reversed(rs)):
            w = diff.get(loc, self.base)
            cont = w if k == 0 else (w if w is cont else IteC(and_(*conds), w, cont))
        names = {self.name, self.name + 'n'}
        base = self.base

        def wr(idx):
            """(guard, missing, value) of the slots the loop overwrites, or None"""
            g, n1, v1 = cont.over(base, idx)
            if g is FALSE:
                return FALSE, FALSE, ZERO
            c = disjoint(g, i)
            if c is not None:
                n1, v1 = fixed(g, n1, v1, c)
                if not names & (all_apps(n1) | all_apps(v1) | all_apps(g)):
                    inr = and_(le(ZERO, c), lt(c, cnt))
                    if is_nonneg(c):
                        inr = lt(c, cnt)
                    m = {i: c}
                    return and_(inr, subst(g, m)), subst(n1, m), subst(v1, m)
            elif i not in g.fv and not names & (all_apps(n1) | all_apps(v1) | all_apps(g)):
                last = {i: sub(cnt, ONE)}
                return and_(lt(ZERO, cnt), g), subst(n1, last), subst(v1, last)
            return None

        def fixed(g, n1, v1, c):
            # each slot is written at one iteration only: reads of a slot not written earlier see the old content
            def fix(t):
                m = {}
                for u in apps_of(t, names):
                    ix = tuple(u.args[2:])
                    g2 = cont.over(base, ix)[0]
                    ok = g2 is FALSE
                    if not ok:
                        c2 = disjoint(g2, i)
                        ok = c2 is not None and any(z.op == 'const' and z.args[0] >= 0 for z in (sub(c2, i), sub(c2, c)))
                    if ok:
                        o = old.at(ix)
                        m[u] = o[0] if u.args[0] == self.name + 'n' else o[1]
                return rewrite(t, m) if m else t
            return fix(n1), fix(v1)

        def el(idx):
            g, n1, v1 = cont.over(base, idx)
            if g is FALSE:
                return old.at(idx)
            hn, hv = app(self.name + 'n', i, *idx), app(self.name, i, *idx)
            n0, b0 = old.at(idx)
            c = disjoint(g, i)
            if c is not None:
                n1, v1 = fixed(g, n1, v1, c)
                if not names & (all_apps(n1) | all_apps(v1) | all_apps(g)):
                    anyg = mkany(cnt, i, g)
                    nn = or_(mkany(cnt, i, and_(g, n1)), and_(not_(anyg), n0))
                    if v1.sort == 'B':
                        return nn, or_(mkany(cnt, i, and_(g, v1)), and_(not_(anyg), b0))
                    vv = add(mksum(cnt, i, mul(ind(g), v1)), mul(ind(not_(anyg)), b0))
                    return nn, vv
            if i not in g.fv and not names & (all_apps(n1) | all_apps(v1) | all_apps(g)):
                # the same slots at every iteration: the last one remains
                last = {i: sub(cnt, ONE)}
                pos = lt(ZERO, cnt)
                g = and_(pos, g)
                return ite(g, subst(n1, last), n0), ite(g, subst(v1, last), b0)
            # accumulation
            n2, v2 = kron(ite(g, n1, hn), names, i, idx), kron(ite(g, v1, hv), names, i, idx)
            return accumulate(self.name, n2, v2, hn, hv, n0, b0, i, cnt)
        return LoopC(el, wr, old)


def kron(t, names, i, idx):
    """under i == idx[d], reads of the loop's own array at i are reads at idx[d]"""
    def sub_(u, ctx):
        if not ctx:
            return u
        r = {}
        for a in apps_of(u, names):
            b = app(*a.args[:2], *[y if z is not y and eq0(sub(z, y)) in ctx else z for z, y in zip(a.args[2:], idx)])
            if b is not a:
                r[a] = b
        return rewrite(u, r) if r else u

    def go(t, ctx):
        if t.op in ('poly', 'ind'):
            out = ZERO
            for mono, c in to_poly(t).items():
                m = {a.args[0] for a, _ in mono if a.op == 'ind' and a.args[0].op == 'eq0'}
                out = add(out, sub_(from_poly({mono: c}), ctx | m))
            return out
        if t.op == 'and':
            ctx = ctx | {x for x in t.args if x.op == 'eq0'}
            return and_(*[go(x, ctx) for x in t.args])
        if t.op == 'or':
            return or_(*[go(x, ctx) for x in t.args])
        if t.op == 'not':
            return not_(go(t.args[0], ctx))
        return sub_(t, ctx)
    return go(t, frozenset())


def apps_of(t, names):
    out, seen, st = [], set(), [t]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == 'app' and u.args[0] in names:
            out.append(u)
        if u.op == 'poly':
            for m, _ in u.args:
                st.extend(a for a, _ in m)
        elif u.op == 'smax':
            for e in u.args:
                st.extend(x for x in e if x is not None)
        else:
            st.extend(x for x in u.args if isinstance(x, T))
    return out


def disjoint(g, i):
    """t free of i such that g implies i == t, or None"""
    for a in (g.args if g.op == 'and' else (g,)):
        if a.op == 'eq0':
            p = to_poly(a.args[0])
            c = p.get(((i, 1),))
            if c is not None and abs(c) == 1 and all(i not in b.fv for m in p if m != ((i, 1),) for b, _ in m):
                t = from_poly(pmul_c({m: x for m, x in p.items() if m != ((i, 1),)}, -1 / c))
                return t
    return None


# ------------------------------------------------------------ dictionaries and lists
def dictkey(rs, loc, i):
    """c when every completed iteration writes key i + c"""
    for conds, o, diff, fx in rs:
        if o[0] == 'next' and loc in diff:
            ks = [k for k, v in diff[loc].over]
            for k in ks:
                if isinstance(k, T) and k.sort == 'I' and i not in sub(k, i).fv:
                    return sub(k, i)
    return None


def final_dict(I, rs, loc, i, cnt, m):
    d = loc[1]
    keys = None
    for conds, o, diff, fx in rs:
        ks = [k for k, v in diff[loc].over] if loc in diff else []
        if keys is None:
            keys = ks
        elif keys != ks:
            raise Unsupported('dictionary keys written depend on the path')
    if not keys:
        return
    if len(keys) > 1:
        raise Unsupported('several dictionary keys written per iteration')
    k = keys[0]
    if not isinstance(k, T) or i in sub(k, i).fv:
        raise Unsupported('dictionary key written in a loop')
    c = sub(k, i)
    v = None
    for j, (conds, o, diff, fx) in enumerate(reversed(rs)):
        w = diff[loc].over[0][1]
        v = w if j == 0 else I.merge(and_(*conds), w, v)
    I.mutdict(d)
    fn = lambda o: I.substv(v, {i: lift(o)})
    if d.items and any(isinstance(x, (int, float)) and not (I.entails(lt(lift(x), c)) or I.entails(ge(lift(x), add(c, cnt)))) for x in d.items):
        raise Unsupported('dictionary range overlapping existing keys')
    dup = False
    segs = []
    for (lo, n, f, dp) in d.segs:
        if sub(lo, c) is ZERO and I.entails(eq(n, cnt)):
            d.segs = [(a, b, fn, e) if g is f else (a, b, g, e) for a, b, g, e in d.segs]
            return
        if I.entails(le(add(lo, n), c)) or I.entails(le(add(c, cnt), lo)):
            segs.append((lo, n, f, dp))
            continue
        if I.entails(and_(le(lo, c), le(add(c, cnt), add(lo, n)))):
            dup = True
            segs.append((lo, n, f, dp))
            continue
        raise Unsupported('overlapping dictionary ranges')
    d.segs = segs + [(c, cnt, fn, dup)]


def final_list(I, rs, loc, i, cnt, old):
    vals = None
    for j, (conds, o, diff, fx) in enumerate(reversed(rs)):
        it = diff.get(loc)
        app_ = []
        if it is not None:
            ks = [k for k, x in enumerate(it) if isinstance(x, ListMark)]
            if not ks:
                raise Unsupported('list rewritten in a loop')
            app_ = it[ks[-1] + 1:]
        if vals is None:
            vals = app_
        elif len(vals) != len(app_):
            raise Unsupported('list growth depends on the path')
        else:
            vals = [I.merge(and_(*conds), a, b) for a, b in zip(app_, vals)]
    if not vals:
        return
    if len(vals) != 1:
        raise Unsupported('several list elements appended per iteration')
    v = vals[0]
    I.mutlist(loc[1])
    loc[1].items = list(old) + [Seg(cnt, lambda k: I.substv(v, {i: lift(k)}))]
