"""Symbolic interpreter of the Python subset used by /repo, run on the current source."""
import ast
import os
from .terms import *
from .values import *
from . import prove as P

MISSING = object()
REPO = os.environ.get('VERIF_REPO', '/repo')
EXC_PARENT = {'ValueError': 'Exception', 'TypeError': 'Exception', 'KeyError': 'LookupError', 'IndexError': 'LookupError',
              'LookupError': 'Exception', 'AttributeError': 'Exception', 'ZeroDivisionError': 'ArithmeticError',
              'ArithmeticError': 'Exception', 'AssertionError': 'Exception', 'NotImplementedError': 'RuntimeError',
              'RuntimeError': 'Exception', 'UserWarning': 'Warning', 'RuntimeWarning': 'Warning', 'Warning': 'Exception',
              'StopIteration': 'Exception', 'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError',
              'UnboundLocalError': 'NameError', 'NameError': 'Exception', 'OverflowError': 'ArithmeticError',
              'FutureWarning': 'Warning', 'DeprecationWarning': 'Warning', 'Exception': 'BaseException'}


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


COUNTED = {}


def countform(s):
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    a, o, b = t.left, t.ops[0], t.comparators[0]
    low, high = (ast.Lt, ast.LtE), (ast.Gt, ast.GtE)
    if not isinstance(o, low + high):
        return None

    def inc(x, v):
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == v and isinstance(x.op, (ast.Add, ast.Sub)):
            k, sg = x.value, 1 if isinstance(x.op, ast.Add) else -1
        elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == v and \
                isinstance(x.value, ast.BinOp) and isinstance(x.value.op, (ast.Add, ast.Sub)) and isinstance(x.value.left, ast.Name) and x.value.left.id == v:
            k, sg = x.value.right, 1 if isinstance(x.value.op, ast.Add) else -1
        else:
            return None
        return sg * k.value if isinstance(k, ast.Constant) and type(k.value) is int and k.value > 0 else None

    def names(body, top=True):
        """names assigned in the body, except right before leaving the loop"""
        out = set()
        if not top and body and isinstance(body[-1], (ast.Break, ast.Return, ast.Raise)) and not any(isinstance(y, (ast.For, ast.While)) for x in body for y in ast.walk(x)):
            return out
        for x in body:
            subs = [getattr(x, f) for f in ('body', 'orelse', 'finalbody') if isinstance(getattr(x, f, None), list)]
            if isinstance(x, (ast.If, ast.With)):
                for h in subs:
                    out |= names(h, False)
                subs = [[y] for y in ast.iter_child_nodes(x) if not isinstance(y, ast.stmt)]
            else:
                subs = [[x]]
            for h in subs:
                for y in h:
                    for z in ast.walk(y):
                        if isinstance(z, ast.Name) and isinstance(z.ctx, (ast.Store, ast.Del)):
                            out.add(z.id)
                        if isinstance(z, (ast.Global, ast.Nonlocal)):
                            out |= set(z.names)
        return out
    for v, e, up in ((a, b, isinstance(o, low)), (b, a, isinstance(o, high))):
        if not isinstance(v, ast.Name):
            continue
        at = [(k, inc(x, v.id)) for k, x in enumerate(s.body) if inc(x, v.id) is not None]
        stores = [z for x in s.body for z in ast.walk(x) if isinstance(z, ast.Name) and z.id == v.id and isinstance(z.ctx, ast.Store)]
        if len(at) != 1 or len(stores) != 1 or (at[0][1] > 0) != up:
            continue
        if at[0][0] and any(isinstance(z, ast.Continue) for x in s.body for z in ast.walk(x)):
            continue
        if not all(isinstance(z, (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.expr_context)) for z in ast.walk(e)):
            continue
        if {z.id for z in ast.walk(e) if isinstance(z, ast.Name)} & (names(s.body) | {v.id}):
            continue
        loop = ast.copy_location(ast.For(target=ast.Name(v.id, ast.Store()), iter=e, body=s.body, orelse=[]), s)
        return ast.fix_missing_locations(loop), 'strict' if isinstance(o, (ast.Lt, ast.Gt)) else 'le', e, at[0][1]
    return None


class Interp:
    def __init__(self, budget=None):
        self.pc, self.journal, self.effects = [], [], []
        self.dec, self.pos, self.work = [], 0, []
        self.modules = {}
        self.contracts = {}        # qualname -> handler(I, args(list), kwargs)
        self.class_contracts = {}
        self.executed, self.used_contracts = set(), set()
        self.families = []
        self.exits = []
        self.obligations = []      # recorded by invariants
        self.depth = 0
        self.budget = budget
        self.inputs = {}           # cell/dict/inst -> label (frame condition)
        self.written = []          # labels of inputs written
        self.mutable = None        # label prefix of inputs the call may write
        self.npaths = 0
        self.ufresh = 0
        self.loopdepth = 0
        self.facts = []
        from . import npmodel
        self.np = npmodel
        self.builtins = npmodel.builtins(self)

    # ------------------------------------------------------------ journal
    def log(self, loc, undo):
        self.journal.append((loc, undo))

    def rollback(self, mark, ser):
        while len(self.journal) > mark:
            loc, undo = self.journal.pop()
            if loc[1].ser <= ser:
                undo()

    def setvar(self, fr, name, v):
        old = fr.vars.get(name, MISSING)

        def undo():
            if old is MISSING:
                fr.vars.pop(name, None)
            else:
                fr.vars[name] = old
        self.log(('var', fr, name), undo)
        fr.vars[name] = v

    def setattr(self, o, name, v):
        if not isinstance(o, Inst):
            raise Unsupported(f'attribute assignment on {type(o).__name__}')
        old = o.attrs.get(name, MISSING)

        def undo():
            if old is MISSING:
                o.attrs.pop(name, None)
            else:
                o.attrs[name] = old
        self.log(('attr', o, name), undo)
        self.touch(o)
        o.attrs[name] = v

    def touch(self, o):
        if o in self.inputs:
            self.written.append(self.inputs[o])

    def setcell(self, c, content):
        old = c.content
        self.log(('cell', c), lambda: setattr(c, 'content', old))
        self.touch(c)
        c.content = content

    def mutdict(self, d):
        old = (dict(d.items), list(d.segs), list(d.over), d.hav)

        def undo():
            d.items, d.segs, d.over, d.hav = old
        self.log(('dict', d), undo)
        self.touch(d)

    def mutlist(self, l):
        old = list(l.items)

        def undo():
            l.items = old
        self.log(('list', l), undo)
        self.touch(l)

    # ------------------------------------------------------------ decisions
    def hyps(self):
        return self.facts + self.pc

    def simp(self, c):
        c = lift(c)
        if c.op == 'const':
            return c
        return P.apply_hyps(c, self.hmap())

    def simp2(self, t):
        """normal form under the path condition"""
        return P.apply_hyps(t, P.hyp_map(P.flatten(self.hyps())))

    def hmap(self):
        key = tuple(h.id for h in self.pc)
        if getattr(self, '_hk', None) != key:
            self._hk, self._hm = key, P.hyp_map(self.hyps())
        return self._hm

    def entails(self, c, timeout=1500):
        c = self.simp(c)
        if c.op == 'const':
            return bool(c.args[0])
        P.STATS['entail'] += 1
        h = self.relevant(c)
        if P.z3check(h, c, timeout, quant=False)[0] == 'valid':
            return True
        if any(has_any(x) for x in h) or has_any(c):
            more = P.instances(h, c)
            if more:
                m = P.hyp_map(P.flatten(list(h) + more))
                d = P.apply_hyps(c, m)
                if d.op == 'const':
                    return bool(d.args[0])
            return P.z3check(P.cone(h, c), c, timeout)[0] == 'valid'
        return False

    def relevant(self, c):
        return self.hyps()

    def decide(self, c):
        c = self.simp(c)
        if c.op == 'const':
            return bool(c.args[0])
        if self.budget and __import__('time').time() > self.budget:
            raise Unsupported('time budget of the symbolic execution')
        if self.entails(c):
            return True
        if self.entails(not_(c)):
            return False
        if self.pos < len(self.dec):
            r = self.dec[self.pos]
        else:
            self.work.append(self.dec[:self.pos] + [False])
            self.dec = self.dec[:self.pos] + [True]
            r = True
        self.pos += 1
        self.pc.append(c if r else not_(c))
        return r

    def assume(self, c):
        c = self.simp(c)
        if c is FALSE:
            raise DeadPath()
        if c is not TRUE:
            self.pc.append(c)

    def explore(self, fn):
        """run fn on every path; fn() returns an outcome. -> list of (conds, outcome, diff, effects)"""
        saved = (self.dec, self.pos, self.work)
        out = []
        work = [[]]
        pcm, jm, fxm, ser = len(self.pc), len(self.journal), len(self.effects), SER[0]
        try:
            while work:
                self.dec, self.pos, self.work = work.pop(), 0, work
                if len(out) > 400:
                    raise Unsupported('too many paths')
                try:
                    try:
                        o = fn()
                    except PyRaise as e:
                        o = ('raise', e)
                    diff = {}
                    for loc, _ in self.journal[jm:]:
                        if loc[1].ser <= ser:
                            diff[loc] = self.locval(loc)
                    out.append((list(self.pc[pcm:]), o, diff, self.effects[fxm:]))
                except DeadPath:
                    pass
                finally:
                    self.rollback(jm, ser)
                    del self.pc[pcm:]
                    del self.effects[fxm:]
        finally:
            self.dec, self.pos, self.work = saved
        return out

    def locval(self, loc):
        k = loc[0]
        if k == 'var':
            return loc[1].vars.get(loc[2], MISSING)
        if k == 'attr':
            return loc[1].attrs.get(loc[2], MISSING)
        if k == 'cell':
            return loc[1].content
        if k == 'dict':
            return loc[1].copy()
        if k == 'list':
            return list(loc[1].items)

    def setloc(self, loc, v):
        k = loc[0]
        if k == 'var':
            if v is MISSING:
                return
            self.setvar(loc[1], loc[2], v)
        elif k == 'attr':
            if v is MISSING:
                return
            self.setattr(loc[1], loc[2], v)
        elif k == 'cell':
            self.setcell(loc[1], v)
        elif k == 'dict':
            d = loc[1]
            self.mutdict(d)
            d.items, d.segs, d.over, d.hav = dict(v.items), list(v.segs), list(v.over), v.hav
        elif k == 'list':
            self.mutlist(loc[1])
            loc[1].items = list(v)

    def paths(self, fn):
        """top level: fn() runs the code and discharges its obligations"""
        self.pc = []
        r = self.explore(fn)
        self.npaths += len(r)
        return r

    def oblige(self, name, goal, hyps=(), fatal=False):
        how = P.prove(self.hyps() + list(hyps), goal)
        self.obligations.append((name, list(self.hyps()) + list(hyps), goal, how))
        return how

    # ------------------------------------------------------------ values
    def force(self, v):
        while True:
            if isinstance(v, VIte):
                v = v.a if self.decide(v.cond) else v.b
            elif isinstance(v, Last):
                v = v.fn() if self.decide(lt(0, v.n)) else v.before
                if v is MISSING:
                    raise PyRaise('UnboundLocalError')
            elif isinstance(v, Havoc):
                raise NeedCarry(v.loc)
            else:
                return v

    def truth(self, v):
        v = self.force(v)
        if isinstance(v, Sc):
            if v.t.sort == 'B':
                return and_(not_(v.nan), v.t)
            return or_(v.nan, not_(eq(v.t, ZERO)))
        if isinstance(v, Arr):
            n = self.np.size(v)
            if v.masked():
                raise Unsupported('truth of a compressed array')
            if not self.decide(eq(n, ONE)):
                raise PyRaise('ValueError', 'truth value of an array')
            nn, t = v.at([ZERO] * v.ndim)
            return self.truth(Sc(t, DTK[v.dtype], nn))
        if isinstance(v, PyList):
            if v.symbolic():
                return lt(0, self.length(v))
            return const(len(v.items) > 0)
        if isinstance(v, SDict):
            return lt(0, self.length(v))
        if isinstance(v, (NTInst, tuple)):
            return const(len(v.vals if isinstance(v, NTInst) else v) > 0)
        if isinstance(v, (SRange, Gen)):
            return lt(0, v.n)
        if isinstance(v, (Inst, Func, ClassVal, Bound, Ext, Prim, NTClass)):
            return TRUE
        if isinstance(v, OVal):
            if v.t.sort == 'B':
                return v.t
            raise Unsupported('truth of an opaque value')
        return const(bool(v))

    def length(self, v):
        v = self.force(v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyRaise('TypeError', 'len() of unsized object')
            return self.np.dimlen(v, 0)
        if isinstance(v, PyList):
            return add(*[x.n if isinstance(x, Seg) else ONE for x in v.items]) if v.items else ZERO
        if isinstance(v, (SRange, Gen)):
            return v.n
        if isinstance(v, SDict):
            if v.hav:
                raise NeedCarry(v.hav[0])
            return add(const(len(v.items)), *[s[1] for s in v.segs if not s[3]])
        if isinstance(v, NTInst):
            return const(len(v.vals))
        if isinstance(v, (str, tuple, dict, range)):
            return const(len(v))
        if v is None or isnum(v) or isinstance(v, (Inst, Func)):
            raise PyRaise('TypeError', 'object has no len()')
        raise Unsupported(f'len of {v!r}')

    def seq(self, v):
        """iterable -> (n term, get(k))"""
        v = self.force(v)
        if isinstance(v, PyList):
            items = v.items
            if not v.symbolic():
                return const(len(items)), lambda k: items[cint(k)] if cint(k) is not None else self.pick(items, k)
            return self.length(v), lambda k: self.listget(items, k)
        if isinstance(v, NTInst):
            return const(len(v.vals)), lambda k: v.vals[cint(k)]
        if isinstance(v, (tuple, list)):
            return const(len(v)), lambda k: v[cint(k)]
        if isinstance(v, str):
            return const(len(v)), lambda k: v[cint(k)]
        if isinstance(v, SRange):
            return v.n, v.get
        if isinstance(v, Gen):
            return v.n, v.get
        if isinstance(v, SDict):
            return self.seq(self.dkeys(v))
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyRaise('TypeError', 'iteration over a 0-d array')
            if v.masked():
                raise Unsupported('iteration over a compressed array')
            return v.shape[0], lambda k: self.np.getitem(self, v, (Sc(lift(k), 'int'),))
        if v is None or isnum(v):
            raise PyRaise('TypeError', 'object is not iterable')
        if isinstance(v, range):
            return const(len(v)), lambda k: v[cint(k)]
        raise Unsupported(f'iteration over {v!r}')

    def pick(self, items, k):
        k = lift(k)
        for j in range(len(items)):
            if self.decide(eq(k, const(j))):
                return items[j]
        raise PyRaise('IndexError')

    def listget(self, items, k):
        k = lift(k)
        off = ZERO
        for it in items:
            n = it.n if isinstance(it, Seg) else ONE
            if self.decide(lt(k, add(off, n))):
                return it.fn(sub(k, off)) if isinstance(it, Seg) else it
            off = add(off, n)
        raise PyRaise('IndexError')

    def elems(self, v):
        """concrete list of the elements, or None when the length is symbolic"""
        n, get = self.seq(v)
        c = cint(self.simp(n))
        if c is None:
            return None
        return [get(const(k)) for k in range(c)]

    def tolist(self, v, kind='list'):
        n, get = self.seq(v)
        c = cint(self.simp(n))
        if c is None:
            return PyList([Seg(n, get)], kind)
        return PyList([get(const(k)) for k in range(c)], kind)

    # ------------------------------------------------------------ dictionaries
    def dkey(self, k):
        k = native(self.force(k))
        if isinstance(k, Sc):
            if k.t.op == 'const' and k.nan is FALSE:
                c = k.t.args[0]
                return int(c) if c.denominator == 1 else float(c)
            return k
        if isinstance(k, PyList) and k.kind == 'tuple' or isinstance(k, tuple):
            return tuple(self.dkey(x) for x in (k.items if isinstance(k, PyList) else k))
        if isinstance(k, OVal):
            return k
        if isinstance(k, (str, int, float, bool)) or k is None:
            return k
        raise Unsupported(f'dictionary key {k!r}')

    def dget(self, d, k, default=MISSING):
        k = self.dkey(k)
        kt = lift(k) if isinstance(k, (int, float)) else (k.t if isinstance(k, (Sc, OVal)) else None)
        for ok, ov in reversed(d.over):
            if kt is not None and isinstance(ok, T):
                if self.decide(eq(kt, ok)):
                    return ov
            elif ok == k:
                return ov
        if d.hav:
            loc, i, c = d.hav
            if c != '?' and (c is None or kt is None or not (self.entails(ge(sub(kt, c), i)) or self.entails(lt(kt, c)))):
                raise NeedCarry(loc)
        if kt is None or isinstance(k, OVal):
            for kk, vv in d.items.items():
                if kk == k or (isinstance(k, OVal) and isinstance(kk, OVal) and kk.t is k.t):
                    return vv
            if isinstance(k, OVal) and d.items:
                raise Unsupported('opaque dictionary key')
        else:
            if not isinstance(k, Sc) and k in d.items:
                return d.items[k]
            if isinstance(k, Sc):
                for kk in d.items:
                    if isinstance(kk, (int, float)) and self.decide(eq(kt, lift(kk))):
                        return d.items[kk]
            for lo, n, fn, dup in reversed(d.segs):
                if self.decide(and_(le(lo, kt), lt(kt, add(lo, n)))):
                    return fn(sub(kt, lo))
        if default is not MISSING:
            return default
        raise PyRaise('KeyError', str(k))

    def dset(self, d, k, v):
        k = self.dkey(k)
        self.mutdict(d)
        if isinstance(k, (Sc, OVal)) or d.hav:
            kt = k.t if isinstance(k, (Sc, OVal)) else (lift(k) if isinstance(k, (int, float)) else k)
            if not d.hav:
                # a write at a symbolic key of an ordinary dictionary: a one element range
                for kk in list(d.items):
                    if isinstance(kk, (int, float)) and self.decide(eq(kt, lift(kk))):
                        d.items[kk] = v
                        return
                dup = False
                for (lo, n, fn, dp) in d.segs:
                    if self.decide(and_(le(lo, kt), lt(kt, add(lo, n)))):
                        dup = True
                if isinstance(k, OVal):
                    raise Unsupported('opaque dictionary key')
                d.segs.append((kt, ONE, lambda o, v=v: v, dup))
                return
            d.over = [(a, b) for a, b in d.over if a is not kt and a != kt] + [(kt, v)]
            return
        if isinstance(k, (int, float)) and not isinstance(k, bool):
            for (lo, n, fn, dp) in d.segs:
                if self.decide(and_(le(lo, lift(k)), lt(lift(k), add(lo, n)))):
                    d.segs.append((lift(k), ONE, lambda o, v=v: v, True))
                    return
        d.items[k] = v

    def dkeys(self, d):
        if d.hav:
            raise NeedCarry(d.hav[0])
        return PyList(list(d.items) + [Seg(n, lambda k, lo=lo: native(Sc(add(lo, k), 'int'))) for lo, n, fn, dup in d.segs if not dup])

    def dvalues(self, d):
        ks = self.dkeys(d)
        out = []
        for x in ks.items:
            if isinstance(x, Seg):
                out.append(Seg(x.n, lambda k, x=x: self.dget(d, x.fn(k))))
            else:
                out.append(d.items[x])
        return PyList(out)

    def ditems(self, d):
        ks = self.dkeys(d)
        out = []
        for x in ks.items:
            if isinstance(x, Seg):
                out.append(Seg(x.n, lambda k, x=x: PyList([x.fn(k), self.dget(d, x.fn(k))], 'tuple')))
            else:
                out.append(PyList([x, d.items[x]], 'tuple'))
        return PyList(out)

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b):
        if a is b or c is TRUE:
            return a
        if c is FALSE:
            return b
        if isnum(a) and isnum(b):
            try:
                x, y = sc(a), sc(b)
            except Unsupported:
                return VIte(c, a, b)
            if (x.t.sort == 'B') != (y.t.sort == 'B'):
                return VIte(c, a, b)
            if x.t is y.t and x.nan is y.nan and x.kind == y.kind:
                return a
            k = x.kind if RANK[x.kind] >= RANK[y.kind] else y.kind
            if x.kind != y.kind and ('np' in x.kind) != ('np' in y.kind):
                return VIte(c, a, b)
            return Sc(ite(c, x.t, y.t), k, ite(c, x.nan, y.nan))
        if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and a.dtype == b.dtype and not a.masked() and not b.masked() \
                and all(x is y for x, y in zip(a.shape, b.shape)):
            fa, fb = self.snap(a), self.snap(b)
            return mk(a.shape, lambda idx: tuple(ite(c, x, y) for x, y in zip(fa(idx), fb(idx))), a.dtype)
        if isinstance(a, NTInst) and isinstance(b, NTInst) and a.cls is b.cls:
            return NTInst(a.cls, [self.merge(c, x, y) for x, y in zip(a.vals, b.vals)])
        if isinstance(a, PyList) and isinstance(b, PyList) and a.kind == b.kind == 'tuple' and len(a.items) == len(b.items) \
                and not a.symbolic() and not b.symbolic():
            return PyList([self.merge(c, x, y) for x, y in zip(a.items, b.items)], 'tuple')
        if a is None and b is None or isinstance(a, str) and a == b:
            return a
        return VIte(c, a, b)

    def snap(self, a):
        """element function of the present content of a"""
        cont, maps = a.cell.content, a.maps
        b = Arr(Cell(a.cell.shape, cont, a.cell.dtype), maps, a.shape, a.sel)
        return b.at

    def substv(self, v, m, memo=None):
        """substitution inside a value (of its present state)"""
        if memo is None:
            memo = {}
        if id(v) in memo:
            return memo[id(v)][0]
        S = lambda t: subst(t, m)
        r = v
        if isinstance(v, Sc):
            r = native(Sc(S(v.t), v.kind, S(v.nan)))
        elif isinstance(v, Arr):
            f = self.snap(v)
            sel = None
            if v.sel is not None:
                sel = tuple(None if s is None else (lambda k, s=s: S(s(k))) for s in v.sel)
            r = mk([S(s) for s in v.shape], lambda idx: tuple(S(x) for x in f(idx)), v.dtype, sel)
            r.tag = v.tag
        elif isinstance(v, NTInst):
            r = NTInst(v.cls, [self.substv(x, m, memo) for x in v.vals])
        elif isinstance(v, PyList):
            r = PyList([Seg(S(x.n), lambda k, x=x: self.substv(x.fn(k), m)) if isinstance(x, Seg) else self.substv(x, m, memo) for x in v.items], v.kind)
        elif isinstance(v, OVal):
            r = OVal(S(v.t), v.attrs)
        elif isinstance(v, VIte):
            r = VIte(S(v.cond), self.substv(v.a, m, memo), self.substv(v.b, m, memo))
        elif isinstance(v, SRange):
            r = SRange(S(v.start), S(v.n), S(v.step))
        elif isinstance(v, Gen):
            r = Gen(S(v.n), lambda k: self.substv(v.get(k), m))
        elif isinstance(v, SDict):
            r = SDict({k: self.substv(x, m, memo) for k, x in v.items.items()},
                      [(S(lo), S(n), lambda o, fn=fn: self.substv(fn(o), m), dup) for lo, n, fn, dup in v.segs])
        elif isinstance(v, Inst):
            r = Inst(v.cls)
            memo[id(v)] = (r, v)
            r.attrs = {k: self.substv(x, m, memo) for k, x in v.attrs.items()}
        elif isinstance(v, Last):
            r = Last(S(v.n), lambda: self.substv(v.fn(), m), v.before)
        memo[id(v)] = (r, v)
        return r

    # ------------------------------------------------------------ modules
    def load(self, dotted):
        m = self.modules.get(dotted)
        if m is not None:
            return m
        base = os.path.join(REPO, *dotted.split('.'))
        if os.path.isdir(base):
            path, pkg = os.path.join(base, '__init__.py'), dotted
        else:
            path, pkg = base + '.py', dotted.rsplit('.', 1)[0]
        if not os.path.exists(path):
            return None
        fr = Frame()
        fr.module = fr
        m = Module(dotted, fr)
        self.modules[dotted] = m
        fr.vars['__name__'] = dotted
        m.pkg, m.path = pkg, path
        fr.mod = m
        tree = ast.parse(open(path).read(), path)
        self.block(tree.body, fr)
        return m

    def imp(self, fr, node):
        if isinstance(node, ast.Import):
            for a in node.names:
                top = a.name.split('.')[0]
                if top == 'pymultifracs':
                    self.load(a.name)
                    self.setvar(fr, a.asname or top, self.load(a.name if a.asname else top))
                else:
                    self.setvar(fr, a.asname or top, Ext(a.name if a.asname else top))
            return
        mod = node.module or ''
        if node.level:
            pk = fr.module.mod.pkg.split('.')
            pk = pk[:len(pk) - (node.level - 1)]
            mod = '.'.join(pk + ([mod] if mod else []))
        for a in node.names:
            if mod.split('.')[0] == 'pymultifracs':
                m = self.load(mod)
                if m is None:
                    raise PyRaise('ImportError', mod)
                if a.name in m.frame.vars:
                    v = m.frame.vars[a.name]
                else:
                    v = self.load(mod + '.' + a.name)
                    if v is None:
                        raise PyRaise('ImportError', mod + '.' + a.name)
            elif mod == '__future__':
                continue
            else:
                v = Ext(mod + '.' + a.name)
            self.setvar(fr, a.asname or a.name, v)

    def get(self, dotted):
        """'pymultifracs.utils:linear_regression' -> value"""
        m, n = dotted.split(':')
        mod = self.load(m)
        if mod is None:
            raise Unsupported(f'module {m} not found')
        v = mod.frame.vars.get(n.split('.')[0])
        if v is None:
            raise Unsupported(f'{dotted} not found')
        for part in n.split('.')[1:]:
            v = self.getattr(v, part)
        return v

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        t = type(s)
        if t is ast.Expr:
            self.ev(s.value, fr)
        elif t is ast.Assign:
            v = self.ev(s.value, fr)
            for tg in s.targets:
                self.assign(tg, v, fr)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, fr), fr)
        elif t is ast.AugAssign:
            self.aug(s, fr)
        elif t is ast.Return:
            raise ReturnEx(self.ev(s.value, fr) if s.value else None)
        elif t is ast.If:
            if self.decide(self.truth(self.ev(s.test, fr))):
                self.block(s.body, fr)
            else:
                self.block(s.orelse, fr)
        elif t is ast.For:
            self.for_(s, fr)
        elif t is ast.While:
            self.while_(s, fr)
        elif t is ast.Break:
            raise BreakEx()
        elif t is ast.Continue:
            raise ContinueEx()
        elif t is ast.Pass:
            pass
        elif t is ast.Raise:
            self.raise_(s, fr)
        elif t is ast.Assert:
            if not self.decide(self.truth(self.ev(s.test, fr))):
                raise PyRaise('AssertionError')
        elif t is ast.With:
            for it in s.items:
                v = self.ev(it.context_expr, fr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr)
            n0 = len(self.effects)
            self.block(s.body, fr)
            if any('catch_warnings' in ast.dump(it.context_expr) for it in s.items):
                self.effects[n0:] = [e for e in self.effects[n0:] if e[0] != 'warn']
        elif t is ast.Try:
            self.try_(s, fr)
        elif t in (ast.FunctionDef,):
            self.setvar(fr, s.name, self.mkfunc(s, fr))
        elif t is ast.ClassDef:
            self.setvar(fr, s.name, self.mkclass(s, fr))
        elif t in (ast.Import, ast.ImportFrom):
            self.imp(fr, s)
        elif t is ast.Global:
            fr.globals_ |= set(s.names)
        elif t is ast.Delete:
            for tg in s.targets:
                self.delete(tg, fr)
        else:
            raise Unsupported(f'statement {t.__name__}')

    def delete(self, tg, fr):
        if isinstance(tg, ast.Name):
            old = fr.vars.get(tg.id, MISSING)
            self.log(('var', fr, tg.id), lambda: fr.vars.__setitem__(tg.id, old))
            fr.vars.pop(tg.id, None)
        elif isinstance(tg, ast.Subscript):
            d = self.ev(tg.value, fr)
            k = self.ev(tg.slice, fr)
            if not isinstance(d, SDict) or d.segs or d.hav:
                raise Unsupported('del on a symbolic container')
            k = self.dkey(k)
            self.mutdict(d)
            if k not in d.items:
                raise PyRaise('KeyError')
            d.items = {a: b for a, b in d.items.items() if a != k}
        else:
            raise Unsupported('del')

    def raise_(self, s, fr):
        if s.exc is None:
            raise Unsupported('bare raise')
        v = self.ev(s.exc, fr)
        if isinstance(v, Exc):
            raise PyRaise(v.name, '', v)
        if isinstance(v, ClassVal):
            raise PyRaise(v.name)
        if isinstance(v, Inst):
            raise PyRaise(v.cls.name)
        raise Unsupported('raise of a non exception')

    def isexc(self, name, parent):
        while name:
            if name == parent or parent in ('BaseException',):
                return True
            name = EXC_PARENT.get(name)
        return False

    def try_(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    names = []
                    if h.type is None:
                        names = ['BaseException']
                    else:
                        tv = self.ev(h.type, fr)
                        tv = tv.items if isinstance(tv, PyList) else [tv]
                        names = [x.name for x in tv]
                    if any(self.isexc(e.etype, n.split('.')[-1]) for n in names):
                        if h.name:
                            self.setvar(fr, h.name, Exc(e.etype, [e.msg]))
                        self.block(h.body, fr)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            self.block(s.finalbody, fr)

    def aug(self, s, fr):
        tg = s.target
        if isinstance(tg, ast.Name):
            cur = self.name(tg.id, fr)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, fr)
            cur = self.getattr(o, tg.attr)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, fr)
            k = self.index(tg.slice, fr)
            cur = self.getitem(o, k)
        else:
            raise Unsupported('augmented assignment')
        rhs = self.ev(s.value, fr)
        cur = self.force(cur)
        if isinstance(cur, Arr):
            self.np.iop(self, type(s.op).__name__, cur, rhs)
            new = cur
        elif isinstance(cur, PyList) and cur.kind == 'list' and isinstance(s.op, ast.Add):
            self.mutlist(cur)
            cur.items = cur.items + list(self.tolist(rhs).items)
            new = cur
        else:
            new = self.binop(type(s.op).__name__, cur, rhs)
        if isinstance(tg, ast.Name):
            self.bind(tg.id, new, fr)
        elif isinstance(tg, ast.Attribute):
            self.setattr(o, tg.attr, new)
        else:
            if isinstance(cur, Arr) and isinstance(o, Arr) and new is cur and cur.cell is o.cell:
                return
            self.setitem(o, k, new)

    def bind(self, name, v, fr):
        if name in fr.globals_:
            fr = fr.module
        self.setvar(fr, name, v)

    def assign(self, tg, v, fr):
        if isinstance(tg, ast.Name):
            self.bind(tg.id, v, fr)
        elif isinstance(tg, ast.Attribute):
            self.setattr(self.ev(tg.value, fr), tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, fr)
            self.setitem(o, self.index(tg.slice, fr), v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            n, get = self.seq(v)
            m = len(tg.elts)
            st = [k for k, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            if st:
                vs = self.elems(v)
                if vs is None:
                    raise Unsupported('starred assignment of symbolic length')
                k = st[0]
                tail = m - k - 1
                if len(vs) < m - 1:
                    raise PyRaise('ValueError', 'not enough values to unpack')
                for e, x in zip(tg.elts[:k], vs[:k]):
                    self.assign(e, x, fr)
                self.assign(tg.elts[k].value, PyList(vs[k:len(vs) - tail]), fr)
                for e, x in zip(tg.elts[k + 1:], vs[len(vs) - tail:]):
                    self.assign(e, x, fr)
                return
            if not self.decide(eq(n, const(m))):
                raise PyRaise('ValueError', 'unpacking')
            vs = [get(const(k)) for k in range(m)]
            for e, x in zip(tg.elts, vs):
                self.assign(e, x, fr)
        else:
            raise Unsupported('assignment target')

    def while_(self, s, fr):
        if self.counted(s, fr):
            return
        for k in range(3000):
            c = self.simp(self.truth(self.ev(s.test, fr)))
            if c.op != 'const':
                if k > 40:
                    raise Unsupported('symbolic while loop')
                c = const(self.decide(c))
            if c is FALSE:
                self.block(s.orelse, fr)
                return
            try:
                self.block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                pass
        raise Unsupported('while loop')

    def counted(self, s, fr):
        """a while loop over a local counter stepped by a constant once per turn, up to a bound fixed during the loop: run as a for loop"""
        if s not in COUNTED:
            COUNTED[s] = countform(s)
        if COUNTED[s] is None:
            return False
        loop, op, limit, step = COUNTED[s]
        v0, e = self.force(self.ev(ast.Name(loop.target.id, ast.Load()), fr)), self.force(self.ev(limit, fr))
        if not (isnum(v0) and isnum(e) and sc(v0).kind == 'int' and sc(v0).nan is FALSE and sc(e).nan is FALSE):
            return False
        v0, e = sc(v0).t, sc(e).t
        gap = self.simp(div(sub(e, v0) if step > 0 else sub(v0, e), const(abs(step))))
        if cint(gap) is not None or gap.op == 'const':
            return False
        n = self.simp(neg(floor(neg(gap))) if op == 'strict' else add(floor(gap), ONE))
        if not self.decide(lt(ZERO, n)):
            self.block(s.orelse, fr)
            return True
        from .loops import summarise
        if summarise(self, loop, fr, n, lambda k: Sc(add(v0, mul(const(step), k)), 'int')):
            self.block(s.orelse, fr)
        return True

    def for_(self, s, fr):
        n, get = self.seq(self.ev(s.iter, fr))
        n = self.simp(n)
        c = cint(n)
        if c is None:
            c = self.smallcount(n)
        if c is not None and c <= 24:
            for k in range(c):
                self.assign(s.target, get(const(k)), fr)
                try:
                    self.block(s.body, fr)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            self.block(s.orelse, fr)
            return
        if not self.decide(lt(0, n)):
            self.block(s.orelse, fr)
            return
        from .loops import summarise
        if summarise(self, s, fr, n, get):
            self.block(s.orelse, fr)

    def smallcount(self, n):
        """fork on the value of a count known to be small"""
        if self.entails(le(n, const(12)), 600):
            for k in range(0, 13):
                if self.decide(le(n, const(k))):
                    self.assume(or_(eq(n, const(k)), le(n, ZERO)))
                    return k
        return None

    # ------------------------------------------------------------ definitions
    def qual(self, fr, name):
        m = getattr(fr.module, 'mod', None)
        base = m.name if m else '?'
        return f'{base}:{getattr(fr, "qualprefix", "")}{name}'

    def mkfunc(self, s, fr):
        defaults = [self.ev(d, fr) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        f = Func(s, fr, fr.module, self.qual(fr, getattr(s, 'name', '<lambda>')), defaults, kwd)
        f.isgen = not isinstance(s, ast.Lambda) and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s))
        for d in getattr(s, 'decorator_list', []):
            dn = ast.unparse(d)
            if dn == 'classmethod':
                f.kind = 'class'
            elif dn == 'staticmethod':
                f.kind = 'static'
            elif dn == 'property':
                f.kind = 'property'
            elif 'lru_cache' in dn or dn in ('functools.cache', 'cache', 'functools.wraps'):
                pass
            else:
                dv = self.ev(d, fr)
                r = self.call(dv, [f], {})
                if not isinstance(r, (Func, Prim, Bound, Partial)):
                    raise Unsupported(f'decorator {dn}')
                f = r
        return f

    def mkclass(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        sub_ = Frame(fr, fr.module)
        sub_.qualprefix = s.name + '.'
        cls = ClassVal(s.name, bases, sub_.vars, fr.module, self.qual(fr, s.name))
        for st in s.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                cls.ann.append((st.target.id, ast.unparse(st.annotation)))
            self.stmt(st, sub_)
        for d in s.decorator_list:
            dn = ast.unparse(d)
            if dn.startswith('dataclass') or dn.startswith('dataclasses.dataclass'):
                self.dataclass(cls)
            else:
                raise Unsupported(f'class decorator {dn}')
        nt = [b for b in bases if not isinstance(b, ClassVal)]
        for b in nt:
            if isinstance(b, NTClass):
                raise Unsupported('subclass of a namedtuple')
            if isinstance(b, Ext) and b.name.endswith('NamedTuple'):
                defs = [cls.attrs[n] for n, _ in cls.ann if n in cls.attrs]
                return NTClass(s.name, [n for n, _ in cls.ann], defs)
        return cls

    def dataclass(self, cls):
        fields = {}
        for b in reversed(cls.mro()[1:]):
            if b.fields:
                for f in b.fields:
                    fields[f.name] = f
        for name, ann in cls.ann:
            if 'ClassVar' in ann:
                continue
            dv = MISSING
            for c in cls.mro():
                if name in c.attrs:
                    dv = c.attrs[name]
                    break
            iv = ann.startswith('InitVar') or ann.startswith('dataclasses.InitVar')
            if isinstance(dv, FieldSpec):
                f = Field(name, dv.init, dv.default, dv.factory, iv, dv.has_default)
                if dv.has_default:
                    cls.attrs[name] = dv.default
                else:
                    cls.attrs.pop(name, None)
            elif dv is MISSING:
                f = Field(name, initvar=iv)
            else:
                f = Field(name, default=dv, initvar=iv, has_default=True)
                cls.attrs.setdefault(name, dv)
            fields[name] = f
        cls.fields = list(fields.values())

    def instantiate(self, cls, args, kw):
        h = self.class_contracts.get(cls.qual)
        if h is not None:
            self.used_contracts.add(cls.qual)
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        if any(isinstance(b, Ext) and b.name in EXC_PARENT or isinstance(b, Exc) for c in cls.mro() for b in c.bases):
            return Exc(cls.name, args)
        o = Inst(cls)
        init = cls.find('__init__')
        if init is not None:
            self.call(Bound(init, o), args, kw)
            return o
        if cls.fields is None:
            if args or kw:
                raise PyRaise('TypeError', 'takes no arguments')
            return o
        pars = [f for f in cls.fields if f.init]
        if len(args) > len(pars):
            raise PyRaise('TypeError', 'too many arguments')
        vals = {}
        for f, a in zip(pars, args):
            vals[f.name] = a
        for k, v in kw.items():
            if k in vals or k not in [f.name for f in pars]:
                raise PyRaise('TypeError', f'unexpected argument {k}')
            vals[k] = v
        post = []
        for f in cls.fields:
            if f.init:
                if f.name in vals:
                    v = vals[f.name]
                elif f.factory is not None:
                    v = self.call(f.factory, [], {})
                elif f.has_default:
                    v = f.default
                else:
                    raise PyRaise('TypeError', f'missing argument {f.name}')
                if f.initvar:
                    post.append(v)
                else:
                    self.setattr(o, f.name, v)
            elif f.factory is not None:
                self.setattr(o, f.name, self.call(f.factory, [], {}))
        pi = cls.find('__post_init__')
        if pi is not None:
            self.call(Bound(pi, o), post, {})
        return o

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        f = self.force(f)
        if isinstance(f, Func):
            h = self.contracts.get(f.qual)
            if h is not None:
                r = h(self, list(args), dict(kw))
                if r is not NotImplemented:
                    self.used_contracts.add(f.qual)
                    return r
            return self.callfunc(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Prim):
            return f.fn(self, list(args), dict(kw))
        if isinstance(f, Partial):
            return self.call(f.fn, f.args + list(args), {**f.kw, **kw})
        if isinstance(f, ClassVal):
            return self.instantiate(f, list(args), kw)
        if isinstance(f, NTClass):
            vals = dict(zip(f.fields, args))
            if len(args) > len(f.fields):
                raise PyRaise('TypeError')
            for k, v in kw.items():
                if k not in f.fields or k in vals:
                    raise PyRaise('TypeError', k)
                vals[k] = v
            for n in f.fields:
                if n not in vals:
                    if n in f.defaults:
                        vals[n] = f.defaults[n]
                    else:
                        raise PyRaise('TypeError', 'missing ' + n)
            return NTInst(f, [vals[n] for n in f.fields])
        if isinstance(f, Exc):
            return Exc(f.name, list(args))
        if isinstance(f, Ext):
            return self.np.callext(self, f.name, list(args), dict(kw))
        if isinstance(f, Inst):
            c = f.cls.find('__call__')
            if c is not None:
                return self.call(Bound(c, f), args, kw)
        raise Unsupported(f'call of {f!r}')

    def bindargs(self, f, args, kw):
        """python argument binding -> dict"""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        pos = list(args)
        for n, v in zip(names, pos):
            vals[n] = v
        if len(pos) > len(names):
            if a.vararg is None:
                raise PyRaise('TypeError', f'{f.qual}: too many arguments')
            vals[a.vararg.arg] = PyList(pos[len(names):], 'tuple')
        elif a.vararg is not None:
            vals[a.vararg.arg] = PyList([], 'tuple')
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in vals:
                    raise PyRaise('TypeError', f'{f.qual}: multiple values for {k}')
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise('TypeError', f'{f.qual}: unexpected keyword {k}')
        if a.kwarg is not None:
            vals[a.kwarg.arg] = SDict(extra)
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            vals.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            vals.setdefault(n, d)
        for n in names + kwonly:
            if n not in vals:
                raise PyRaise('TypeError', f'{f.qual}: missing argument {n}')
        return vals

    def callfunc(self, f, args, kw):
        vals = self.bindargs(f, args, kw)
        if isinstance(f.node, ast.Lambda):
            fr = Frame(f.frame, f.module)
            fr.vars.update(vals)
            return self.ev(f.node.body, fr)
        if getattr(f, 'isgen', False):
            return self.generator(f, vals)
        self.executed.add(f.qual)
        if self.depth > 40:
            raise Unsupported('recursion')
        fr = Frame(f.frame if not (f.frame is not f.module and getattr(f.frame, 'qualprefix', None)) else f.module, f.module)
        fr.vars.update(vals)
        fr.func = f
        self.depth += 1
        try:
            self.block(f.node.body, fr)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.depth -= 1

    def generator(self, f, vals):
        """a generator whose yields are all concrete in number, run eagerly"""
        raise Unsupported('generator function')

    # ------------------------------------------------------------ expressions
    def name(self, n, fr):
        x = fr
        if n in fr.globals_:
            x = fr.module
        while x is not None:
            if n in x.vars and not (x is not fr and getattr(x, 'qualprefix', None)):
                v = x.vars[n]
                if isinstance(v, (VIte, Last, Havoc)):
                    v = self.force(v)
                return v
            x = x.parent
        m = fr.module
        if m is not None and n in m.vars:
            return self.force(m.vars[n])
        if n in self.builtins:
            return self.builtins[n]
        if n in EXC_PARENT:
            return Exc(n)
        if getattr(fr, 'func', None) is not None and n in assigned(fr.func.node):
            raise PyRaise('UnboundLocalError', n)
        raise PyRaise('NameError', n)

    def ev(self, e, fr):
        t = type(e)
        if t is ast.Constant:
            if isinstance(e.value, complex):
                return Sc(mul(const(e.value.imag), var('iu')), 'complex')
            return e.value
        if t is ast.Name:
            return self.name(e.id, fr)
        if t is ast.Attribute:
            return self.force(self.getattr(self.ev(e.value, fr), e.attr))
        if t is ast.Subscript:
            return self.force(self.getitem(self.ev(e.value, fr), self.index(e.slice, fr)))
        if t is ast.Call:
            return self.force(self.evcall(e, fr))
        if t is ast.BinOp:
            return self.binop(type(e.op).__name__, self.ev(e.left, fr), self.ev(e.right, fr))
        if t is ast.UnaryOp:
            v = self.ev(e.operand, fr)
            if isinstance(e.op, ast.Not):
                c = self.truth(v)
                return native(Sc(not_(c), 'bool'))
            return self.np.unop(self, type(e.op).__name__, v)
        if t is ast.BoolOp:
            return self.boolop(e, fr)
        if t is ast.Compare:
            return self.compare(e, fr)
        if t is ast.IfExp:
            return self.ev(e.body if self.decide(self.truth(self.ev(e.test, fr))) else e.orelse, fr)
        if t is ast.Tuple or t is ast.List:
            return PyList(self.args(e.elts, fr), 'tuple' if t is ast.Tuple else 'list')
        if t is ast.Set:
            return PyList(self.args(e.elts, fr), 'set')
        if t is ast.Dict:
            d = SDict()
            for k, v in zip(e.keys, e.values):
                if k is None:
                    o = self.ev(v, fr)
                    if not isinstance(o, SDict):
                        raise Unsupported('** of a non dictionary')
                    self.dupdate(d, o)
                else:
                    kv = self.ev(k, fr)
                    self.dset(d, kv, self.ev(v, fr))
            return d
        if t is ast.Lambda:
            return self.mkfunc(e, fr)
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp):
            return self.comp(e, fr)
        if t is ast.DictComp:
            return self.dictcomp(e, fr)
        if t is ast.JoinedStr:
            return self.fstring(e, fr)
        if t is ast.NamedExpr:
            v = self.ev(e.value, fr)
            self.bind(e.target.id, v, fr)
            return v
        if t is ast.Starred:
            raise Unsupported('starred expression')
        if t is ast.Slice:
            return self.index(e, fr)
        raise Unsupported(f'expression {t.__name__}')

    def dupdate(self, d, o):
        for k, v in o.items.items():
            self.dset(d, k, v)
        if o.segs or o.over:
            if d.items:
                raise Unsupported('merge of symbolic dictionaries')
            self.mutdict(d)
            d.segs = d.segs + list(o.segs)

    def fstring(self, e, fr):
        parts, ok = [], True
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            x = self.ev(v.value, fr)
            spec = v.format_spec.values[0].value if v.format_spec and v.format_spec.values else ''
            if isinstance(x, (str, int)) and not isinstance(x, bool) and not spec and v.conversion == -1:
                parts.append(str(x))
            else:
                ok = False
                parts.append(self.oterm(x))
        if ok:
            return ''.join(parts)
        return OVal(obj('str', *parts))

    def oterm(self, x):
        """object term standing for a value"""
        x = self.force(x)
        if isinstance(x, Sc):
            return x.t if x.nan is FALSE else obj('num', x.nan, x.t)
        if isinstance(x, OVal):
            return x.t
        if isinstance(x, (bool, int, float, str)) or x is None:
            return lift_o(x)
        if isinstance(x, PyList) and not x.symbolic():
            return obj(x.kind, *[self.oterm(v) for v in x.items])
        if isinstance(x, NTInst):
            return obj('nt:' + x.cls.name, *[self.oterm(v) for v in x.vals])
        if isinstance(x, Arr):
            if x.tag is not None:
                return x.tag
            if not x.masked() and x.ndim <= 2:
                # a description of the content
                vs = [bv(100 + d) for d in range(x.ndim)]
                n, v = x.at(vs)
                return obj('arr:' + x.dtype, *x.shape, *[n, v])
        if isinstance(x, (ClassVal, Func)):
            return lift_o(x.qual)
        if isinstance(x, Inst) and x.label:
            return lift_o('inst:' + x.label)
        if isinstance(x, Ext):
            return lift_o(x.name)
        if isinstance(x, SDict) and not x.segs:
            return obj('dict', *[y for k, v in x.items.items() for y in (lift_o(k), self.oterm(v))])
        return lift_o(f'id:{type(x).__name__}:{getattr(x, "ser", id(x))}')

    def boolop(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.ev(x, fr)
            if k == len(e.values) - 1:
                return v
            c = self.simp(self.truth(v))
            if c.op == 'const':
                if bool(c.args[0]) != isand:
                    return v
                continue
            # pure boolean tail: stay symbolic when the rest is a side-effect free comparison
            if self.decide(c) != isand:
                return v
        return v

    def compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            v = self.np.cmp(self, type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            c = self.truth(v)
            res = c if res is None else and_(res, c)
            cc = self.simp(res)
            if cc is FALSE:
                return False
            left = right
        return native(Sc(res, 'bool'))

    def args(self, elts, fr):
        out = []
        for a in elts:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                vs = self.tolist(v)
                out.extend(vs.items)
            else:
                out.append(self.ev(a, fr))
        return out

    def evcall(self, e, fr):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == 'super' and not e.args:
            raise Unsupported('super()')
        f = self.ev(fn, fr)
        args = self.args(e.args, fr)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, SDict):
                    if v.segs:
                        raise Unsupported('** of a symbolic dictionary')
                    for kk, vv in v.items.items():
                        if kk in kw:
                            raise PyRaise('TypeError')
                        kw[kk] = vv
                else:
                    raise Unsupported('** argument')
            else:
                if k.arg in kw:
                    raise PyRaise('TypeError')
                kw[k.arg] = v
        return self.call(f, args, kw)

    def binop(self, op, a, b):
        return self.np.binop(self, op, self.force(a), self.force(b))

    # comprehension
    def comp(self, e, fr):
        kind = 'set' if isinstance(e, ast.SetComp) else 'list'
        items = []
        self.compgen(e.generators, 0, fr, lambda f: items.append(self.ev(e.elt, f)), items, e.elt)
        return PyList(items, kind)

    def compgen(self, gens, gi, fr, emit, items, elt):
        g = gens[gi]
        n, get = self.seq(self.ev(g.iter, fr))
        n = self.simp(n)
        c = cint(n)
        if c is None:
            c = self.smallcount(n)
        if c is not None:
            for k in range(c):
                f = Frame(fr, fr.module)
                self.assign(g.target, get(const(k)), f)
                if all(self.decide(self.truth(self.ev(cd, f))) for cd in g.ifs):
                    if gi + 1 < len(gens):
                        self.compgen(gens, gi + 1, f, emit, items, elt)
                    else:
                        emit(f)
            return
        if gi + 1 < len(gens) or g.ifs:
            raise Unsupported('nested or filtered comprehension over a symbolic range')
        items.append(Seg(n, self.generic(n, lambda i: self.comp1(g, get, i, fr, elt))))

    def comp1(self, g, get, i, fr, elt):
        f = Frame(fr, fr.module)
        self.assign(g.target, get(i), f)
        return self.ev(elt, f)

    def generic(self, n, fn):
        """value of a side-effect free expression at a generic index -> function of the index"""
        i = fresh('c', 'I', sign='0+')
        m = len(self.pc)
        self.pc += [lt(i, n)]
        if n.op != 'const' and not self.entails(lt(0, n), 300):
            pass
        try:
            rs = self.explore(lambda: ('next', fn(i)))
        finally:
            del self.pc[m:]
        vals = []
        for conds, o, diff, fx in rs:
            if diff or fx:
                raise Unsupported('side effects in a comprehension')
            if o[0] == 'raise':
                # raised for some element: exists or not
                vals.append((and_(*conds), o[1]))
            else:
                vals.append((and_(*conds), o[1]))
        bad = [(c, v) for c, v in vals if isinstance(v, PyRaise)]
        if bad:
            x = or_(*[c for c, _ in bad])
            cb = mkany(n, i, x)
            if self.decide(cb):
                raise bad[0][1]
            vals = [(c, v) for c, v in vals if not isinstance(v, PyRaise)]
        v = vals[-1][1]
        for c, w in reversed(vals[:-1]):
            v = self.merge(c, w, v)
        return lambda k: self.substv(v, {i: lift(k)})

    def dictcomp(self, e, fr):
        d = SDict()
        if len(e.generators) != 1:
            raise Unsupported('nested dict comprehension')
        g = e.generators[0]
        n, get = self.seq(self.ev(g.iter, fr))
        n = self.simp(n)
        c = cint(n)
        if c is not None:
            for k in range(c):
                f = Frame(fr, fr.module)
                self.assign(g.target, get(const(k)), f)
                if all(self.decide(self.truth(self.ev(cd, f))) for cd in g.ifs):
                    self.dset(d, self.ev(e.key, f), self.ev(e.value, f))
            return d
        if g.ifs:
            raise Unsupported('filtered dict comprehension')
        kf = self.generic(n, lambda i: self.comp1(g, get, i, fr, e.key))
        vf = self.generic(n, lambda i: self.comp1(g, get, i, fr, e.value))
        i = fresh('c', 'I', sign='0+')
        k = kf(i)
        if not isinstance(k, Sc) or i in sub(k.t, i).fv:
            raise Unsupported('dict comprehension keys')
        d.segs.append((sub(k.t, i), n, vf, False))
        return d

    # ------------------------------------------------------------ subscripts
    def index(self, s, fr):
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.tolist(self.ev(x.value, fr)).items)
                else:
                    out.append(self.index1(x, fr))
            return tuple(out)
        v = self.index1(s, fr)
        return v

    def index1(self, s, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, fr)
            return slice(f(s.lower), f(s.upper), f(s.step))
        return self.ev(s, fr)

    def getitem(self, o, k):
        o = self.force(o)
        if isinstance(o, SDict):
            return self.dget(o, PyList(list(k), 'tuple') if isinstance(k, tuple) else k)
        if isinstance(o, (Arr, Sc)):
            return self.np.getitem(self, o, k if isinstance(k, tuple) else (k,))
        if isinstance(o, (PyList, NTInst, str, tuple)):
            if isinstance(k, tuple):
                raise PyRaise('TypeError', 'list indices must be integers')
            return self.listitem(o, k)
        if isinstance(o, (SRange, Gen)):
            if isinstance(k, slice):
                raise Unsupported('slice of a range')
            return o.get(self.normidx(k, o.n))
        if isinstance(o, OVal):
            return OVal(obj('item', o.t, *[self.oterm(x) for x in (k if isinstance(k, tuple) else (k,))]))
        if o is None or isnum(o):
            raise PyRaise('TypeError', 'object is not subscriptable')
        if isinstance(o, Ext):
            return Ext(o.name + '[]')
        raise Unsupported(f'subscript of {o!r}')

    def normidx(self, k, n):
        k = self.force(k)
        if not isnum(k):
            raise PyRaise('TypeError', 'index')
        k = sc(k).t
        n = lift(n)
        if self.decide(lt(k, ZERO)):
            k = add(k, n)
            if not self.decide(le(ZERO, k)):
                raise PyRaise('IndexError')
        if not self.decide(lt(k, n)):
            raise PyRaise('IndexError')
        return k

    def listitem(self, o, k):
        if isinstance(o, str):
            if isinstance(k, slice):
                f = lambda x: None if x is None else cint(x)
                return o[f(k.start):f(k.stop):f(k.step)]
            c = cint(native(k))
            if c is None:
                raise Unsupported('symbolic string index')
            try:
                return o[c]
            except IndexError:
                raise PyRaise('IndexError')
        items = o.items if isinstance(o, PyList) else list(o.vals if isinstance(o, NTInst) else o)
        if isinstance(k, slice):
            if isinstance(o, PyList) and o.symbolic():
                n = self.length(o)
                st, ln, step = self.np.slicebounds(self, k, n)
                return PyList([Seg(ln, lambda j: self.listget(items, add(st, mul(step, j))))], o.kind)
            f = lambda x: None if x is None else cint(native(self.force(x)))
            for x in (k.start, k.stop, k.step):
                if x is not None and cint(native(x)) is None:
                    n = const(len(items))
                    st, ln, step = self.np.slicebounds(self, k, n)
                    c = cint(self.simp(ln))
                    if c is None:
                        c = self.smallcount(ln)
                    if c is None:
                        raise Unsupported('symbolic slice of a list')
                    return PyList([self.pick(items, add(st, mul(step, const(j)))) for j in range(c)], o.kind)
            r = items[f(k.start):f(k.stop):f(k.step)]
            return PyList(r, o.kind if isinstance(o, PyList) else 'tuple')
        k = self.force(k)
        if isinstance(o, PyList) and o.symbolic():
            return self.listget(items, self.normidx(k, self.length(o)))
        c = cint(native(k))
        if c is None:
            if not isnum(k):
                raise PyRaise('TypeError', 'list index')
            return self.pick(items, self.normidx(k, const(len(items))))
        try:
            return items[c]
        except IndexError:
            raise PyRaise('IndexError', 'list index out of range')

    def setitem(self, o, k, v):
        o = self.force(o)
        if isinstance(o, SDict):
            self.dset(o, PyList(list(k), 'tuple') if isinstance(k, tuple) else k, v)
        elif isinstance(o, Arr):
            self.np.setitem(self, o, k if isinstance(k, tuple) else (k,), v)
        elif isinstance(o, PyList) and o.kind == 'list':
            if isinstance(k, slice) or o.symbolic():
                raise Unsupported('list slice assignment')
            c = cint(native(self.force(k)))
            if c is None:
                raise Unsupported('symbolic list index assignment')
            if not -len(o.items) <= c < len(o.items):
                raise PyRaise('IndexError')
            self.mutlist(o)
            o.items = list(o.items)
            o.items[c] = v
        else:
            raise PyRaise('TypeError', 'item assignment')

    # ------------------------------------------------------------ attributes
    def getattr(self, o, n):
        o = self.force(o)
        if isinstance(o, Inst):
            if n in o.attrs:
                return o.attrs[n]
            r = self.classattr(o, n)
            if r is not MISSING:
                return r
            ga = o.cls.find('__getattr__')
            if ga is not None:
                return self.call(Bound(ga, o), [n], {})
            raise PyRaise('AttributeError', n)
        if isinstance(o, ClassVal):
            v = o.find(n)
            if v is not None or any(n in c.attrs for c in o.mro()):
                if isinstance(v, Func) and v.kind == 'class':
                    return Bound(v, o)
                return v
            if n in ('__name__', '__qualname__'):
                return o.name
            if n == '__module__':
                return o.qual.split(':')[0]
            raise PyRaise('AttributeError', n)
        if isinstance(o, NTInst):
            if n in o.cls.fields:
                return o.get(n)
            if n == '_asdict':
                return Prim(n, lambda I, a, k: SDict({f: v for f, v in zip(o.cls.fields, o.vals)}))
            if n == '_fields':
                return PyList(o.cls.fields, 'tuple')
            if n == '_replace':
                return Prim(n, lambda I, a, k: NTInst(o.cls, [k.get(f, v) for f, v in zip(o.cls.fields, o.vals)]))
            raise PyRaise('AttributeError', n)
        if isinstance(o, NTClass):
            if n == '_make':
                return Prim(n, lambda I, a, k: NTInst(o, I.elems(a[0])))
            if n == '_fields':
                return PyList(o.fields, 'tuple')
            raise PyRaise('AttributeError', n)
        if isinstance(o, Module):
            if n in o.frame.vars:
                return o.frame.vars[n]
            m = self.load(o.name + '.' + n)
            if m is not None:
                return m
            raise PyRaise('AttributeError', n)
        if isinstance(o, Ext):
            return self.np.extattr(self, o.name + '.' + n)
        if isinstance(o, OVal):
            if n in o.attrs:
                return o.attrs[n]
            h = o.attrs.get('__getattr__')
            if h:
                r = h(n)
                if r is not None:
                    return r
            raise Unsupported(f'attribute {n} of an opaque value')
        if isinstance(o, Func):
            if n == '__name__':
                return o.node.name
        if isinstance(o, Exc):
            if n == 'args':
                return PyList(o.args or [], 'tuple')
        return self.np.attr(self, o, n)

    def classattr(self, o, n):
        for c in o.cls.mro():
            if n in c.attrs:
                v = c.attrs[n]
                if isinstance(v, Func):
                    if v.kind == 'property':
                        return self.call(v, [o], {})
                    if v.kind == 'class':
                        return Bound(v, o.cls)
                    if v.kind == 'static':
                        return v
                    return Bound(v, o)
                if isinstance(v, FieldSpec):
                    continue
                return v
        if n == '__class__':
            return o.cls
        if n == '__dict__':
            return SDict(dict(o.attrs))
        if n == '__getattribute__':
            def ga(I, a, k):
                nm = a[0]
                if nm in o.attrs:
                    return o.attrs[nm]
                r = I.classattr(o, nm)
                if r is MISSING:
                    raise PyRaise('AttributeError', str(nm))
                return r
            return Prim(n, ga)
        if n == '__setattr__':
            return Prim(n, lambda I, a, k: I.setattr(o, a[0], a[1]))
        return MISSING


_assigned = {}


def assigned(node):
    r = _assigned.get(node)
    if r is None:
        r = _assigned[node] = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    return r


_hasany = {}


def has_any(t):
    r = _hasany.get(t)
    if r is None:
        r = _hasany[t] = any(u.op == 'any' for u in subterms(t))
    return r
