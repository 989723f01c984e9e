"""Contract sessions: run the real code symbolically, discharge its obligations, test what is not proved."""
import itertools
import math
import os
import random
import time
import traceback
from fractions import Fraction as Fr
import numpy as np
from . import terms as TM
from .terms import *
from .values import *
from .interp import Interp
from . import prove as P
from . import npmodel as NP
from .evalnum import Env, NoValue
from .loops import eqval


class Ob:
    __slots__ = ('scen', 'name', 'pc', 'goal', 'how', 'facts', 'why', 'hits', 'agree', 'bad', 'conf')

    def __init__(self, scen, name, pc, goal, how, why=''):
        self.scen, self.name, self.pc, self.goal, self.how, self.why = scen, name, pc, goal, how, why
        self.hits = self.agree = 0
        self.bad = self.conf = None


class Session:
    def __init__(self, pid, tier='quick', budget=None, verbose=False):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.budget = budget
        self.start, self.misses = time.time(), 0
        self.obs, self.assumptions, self.functions, self.executed, self.trusted = [], [], set(), set(), set()
        self.paths = self.reach = 0
        self.scen = {}
        self.failing = []
        self.verbose = verbose
        self.loaded = None
        self.notes, self.later = [], []
        self.frame = False      # only the frame condition of every scenario
        self.only = None        # debugging: one scenario
        self.part, self.count = None, -1        # (k, n): this process runs every n-th scenario

    def assume(self, txt):
        if txt not in self.assumptions:
            self.assumptions.append(txt)

    def interp(self):
        I = Interp()
        I.session = self
        return I

    # fn(I, ob): symbolic run; ob(name, goal, ranges=None)
    def scenario(self, name, fn, cases=None, interpret=None, unsupported_ok=False):
        """cases: list/generator of (rt class name, case); interpret(case) -> Env or None"""
        if self.only and self.only not in name:
            return
        self.count += 1
        if self.part and self.count % self.part[1] != self.part[0]:
            return
        if self.frame:
            cases = interpret = None
            body = fn

            def fn(I, ob):
                try:
                    body(I, lambda *a: 'normal form')
                except PyRaise:
                    pass
                bad = sorted({str(o) for o in I.written if not (I.mutable and str(o).startswith(I.mutable))})
                if I.inputs:
                    ob('arguments untouched' + (f' (written: {", ".join(bad)})' if bad else ''), const(not bad))
        I = self.interp()
        I.budget = min(time.time() + (150 if self.tier == 'quick' else 600), self.start + (500 if self.tier == 'quick' else 2700))
        self.scen[name] = dict(cases=cases, interpret=interpret, I=I)
        got, alive = [0], [False]

        def path():
            got_ = body_()
            # vacuity: the hypotheses of at least one path are not contradictory
            if not alive[0]:
                try:
                    alive[0] = not P.prove(I.hyps(), FALSE, budget=[time.time() + 3])
                except Unsupported:
                    alive[0] = True
            return got_

        def body_():

            def ob(oname, goal, hyps=()):
                got[0] += 1
                goal = lift(goal)
                t = time.time()
                try:
                    if t > self.start + (560 if self.tier == 'quick' else 2800):
                        raise Unsupported('time budget of the prover')
                    left = self.start + (560 if self.tier == 'quick' else 2800) - t
                    how = P.prove(I.hyps() + list(hyps), goal, budget=[t + max(1, min(60 if self.misses < 4 else 12, left))])
                    self.misses += not how
                    why = ''
                except Unsupported as e:
                    how, why = None, f'unsupported: {e}'
                o = Ob(name, oname, list(I.hyps()) + list(hyps), goal, how, why)
                self.obs.append(o)
                if self.verbose:
                    print(f'   [{how or "NOT PROVED"}] {name}: {oname} ({time.time() - t:.2f}s)')
                    if not how and self.verbose > 1:
                        print('      pc:', *[show(h)[:300] for h in o.pc], sep='\n        ')
                        print('      goal:', show(P.apply_hyps(goal, P.hyp_map(P.flatten(o.pc))))[:3000])
                return how
            try:
                r = fn(I, ob)
            except Unsupported as e:
                if self.verbose > 1:
                    traceback.print_exc()
                self.obs.append(Ob(name, 'path', list(I.hyps()), None, None, f'unsupported: {e}'))
                got[0] += 1
                return None
            except NeedCarry as e:
                self.obs.append(Ob(name, 'path', list(I.hyps()), None, None, f'loop-carried location outside loop: {e}'))
                got[0] += 1
                return None
            except PyRaise as e:
                self.obs.append(Ob(name, f'no exception ({e})', list(I.hyps()), FALSE, P.prove(I.hyps(), FALSE), str(e)))
                if self.verbose:
                    print('   raise', e, [show(h)[:200] for h in I.hyps()])
                got[0] += 1
                return None
            return None
        try:
            rs = I.paths(path)
            if not rs and not got[0]:
                self.obs.append(Ob(name, 'some path is feasible', [], None, None, 'no feasible path: contradictory preconditions'))
            elif got[0] and not alive[0]:
                self.obs.append(Ob(name, 'some path is feasible', [], FALSE, None, 'the hypotheses of every path are contradictory'))
            elif got[0]:
                self.reach += 1
        except Unsupported as e:
            if self.verbose > 1:
                traceback.print_exc()
            self.obs.append(Ob(name, 'path', [], None, None, f'unsupported: {e}'))
        except Exception as e:
            if self.verbose:
                traceback.print_exc()
            self.obs.append(Ob(name, 'path', [], None, None, f'engine error: {type(e).__name__}: {e}'))
        for (nm, h, g, how) in I.obligations:
            self.obs.append(Ob(name, nm, h, g, how))
        self.paths += I.npaths
        self.executed |= I.executed
        self.trusted |= {f'contract used in place of the body: {c}' for c in I.used_contracts}
        return I

    # ------------------------------------------------------------ numeric examination of what is not proved
    def falsify(self):
        for o in self.obs:
            if o.how:
                continue
            s = self.scen.get(o.scen, {})
            cases, interpret = s.get('cases'), s.get('interpret')
            o.hits = o.agree = 0
            o.bad = None
            if not cases or not interpret:
                continue
            t0 = time.time()
            for ci, (cls, case) in enumerate(cases()):
                if time.time() - t0 > (6 if self.tier == 'quick' else 40) or o.agree >= 60:
                    break
                try:
                    env = interpret(case)
                    if env is None:
                        continue
                    for sub in envs(env, o):
                        if not all(truth(sub, h) for h in o.pc):
                            continue
                        o.hits += 1
                        if o.goal is None:
                            continue
                        if truth(sub, o.goal):
                            o.agree += 1
                        else:
                            o.bad = (cls, case)
                            break
                except NoValue:
                    continue
                if o.bad:
                    break
            if o.bad:
                from rt import base as RB
                self.failing.append({'contract': o.bad[0], 'what': f'obligation {o.scen}: {o.name} is false', 'case': RB.enc(o.bad[1]), 'ob': o})

    def result(self):
        for f in self.later:
            f()
        self.falsify()
        out = []
        from rt import worker as W
        from rt.base import dec, Skip
        confirmed = []
        for f in self.failing:
            o = f.pop('ob')
            try:
                cls = next(c for c in W.RT[self.pid] if c.__name__ == f['contract'])
                r = W.run_one(cls, dec(f['case']))
            except Skip:
                r = None
            except Exception as e:
                r = None
            if r and r[0] == 'fail':
                f['what'] = r[1] + ' (obligation ' + o.scen + ': ' + o.name + ')'
                confirmed.append(f)
                o.why = 'counterexample confirmed on the real code'
                o.conf = True
            else:
                o.conf = False
                o.why = 'counterexample of the obligation not reproduced by the real code'
        for o in self.obs:
            if o.how:
                st, why = 'proved', ''
            else:
                hits = getattr(o, 'hits', 0)
                cased = self.scen.get(o.scen, {}).get('cases')
                if getattr(o, 'bad', None):
                    st, why = ('refuted' if o.conf else 'refused'), o.why
                elif o.goal is None:
                    st, why = ('unsupported', o.why) if hits or not o.pc or not cased else ('unexercised', o.why)
                elif o.agree:
                    st, why = 'refused', f'no back end proves it (true in {o.agree} concrete evaluations)'
                elif hits == 0 and o.pc and cased:
                    st, why = 'unexercised', 'no back end proves it and no concrete case reaches its path'
                elif o.why:
                    st, why = 'unsupported', o.why
                else:
                    st, why = 'refused', 'no back end proves it'
            pcs = [show(h)[:160] for h in o.pc][-4:]
            out.append({'name': f'{o.scen}: {o.name}', 'status': st, 'by': o.how or '', 'why': why, 'path': pcs if st != 'proved' else []})
        return {
            'obligations': out, 'trusted': sorted(self.trusted | {f'library contract: {u}' for u in NP.USED}),
            'functions': sorted(self.functions), 'executed': sorted(self.executed), 'paths': self.paths, 'reachable': self.reach,
            'backends': {**{h: sum(1 for o in self.obs if o.how == h) for h in sorted({o.how for o in self.obs if o.how})},
                         'z3 queries': P.STATS['z3_calls']}, 'solver_s': round(P.STATS['z3_time'], 2),
            'assumptions': sorted(set(self.assumptions) | set(map(str, getattr(NP, 'ASSUME', ()))))
            + sorted('divisor assumed non-zero: ' + s for s in P.ASSUMED_NONZERO),
            'failing_inputs': confirmed, 'wall_s': round(time.time() - self.t0, 1), 'notes': self.notes,
        }


def freevars(t, env, acc, seen):
    """integer variables without a value"""
    for x in t.fv:
        if x.op == 'var' and x.args[0] not in env.vals and x.args[0] not in env.fns and x not in acc:
            acc.append(x)


def envs(env, o):
    acc = []
    for h in o.pc:
        freevars(h, env, acc, None)
    if o.goal is not None:
        freevars(o.goal, env, acc, None)
    if not acc:
        yield env
        return
    if any(x.sort not in 'IB' for x in acc):
        bad = [x for x in acc if x.sort not in 'IB']
        # real variables without a value: a few samples
        doms = [[0.7, -1.3] if x.sort == 'R' else [None] for x in acc]
        doms = [list(range(0, 7)) if x.sort == 'I' else ([False, True] if x.sort == 'B' else ([0.7, 1.9, -1.3])) for x in acc]
    else:
        doms = [list(range(0, 9)) if x.sort == 'I' else [False, True] for x in acc]
    combos = math.prod(map(len, doms))
    it = itertools.product(*doms)
    if combos > 700:
        rnd = random.Random(7)
        it = ([rnd.choice(d) for d in doms] for _ in range(700))
    for v in it:
        e = Env({**env.vals, **{x.args[0]: a for x, a in zip(acc, v)}}, env.fns, env.default)
        yield e


def truth(env, t):
    """numeric truth with a tolerance in favour of equality"""
    op = t.op
    if op == 'and':
        return all(truth(env, u) for u in t.args)
    if op == 'or':
        return any(truth(env, u) for u in t.args)
    if op == 'eq0':
        return near0(env, t.args[0])
    return bool(env.ev(t))


def near0(env, p):
    vals = []
    if p.op == 'poly':
        for m, c in p.args:
            vals.append(env.ev(from_poly({m: c})))
    else:
        vals = [env.ev(p)]
    s = sum(vals)
    if all(isinstance(v, int) for v in vals):
        return s == 0
    big = max([abs(v) for v in vals] + [1e-300])
    if not math.isfinite(big):
        raise NoValue('overflow')
    return abs(s) <= 1e-7 * max(big, 1e-9)


# ------------------------------------------------------------------ building symbolic inputs
def A(shape, fn, dtype='f', label=None, I=None):
    """input array: fn(idx) -> (missing, value) or value"""
    def f(idx):
        r = fn(*idx)
        return r if isinstance(r, tuple) else (FALSE, r)
    a = mk(shape, f, dtype, label=label)
    if I is not None:
        I.inputs[a.cell] = label
    return a


def eqarr(I, ob, name, a, shape, spec, nanspec=None, dtype=None, hyps=()):
    """obligations: a is an array of that shape whose element idx is spec(idx) and is missing iff nanspec(idx)"""
    a = I.force(a)
    if not isinstance(a, Arr):
        if isnum(a) and not shape:
            s = sc(a)
            ob(name + ': value', eq(s.t, spec()), hyps)
            return
        ob(name + ': is an array', FALSE)
        return
    if a.masked():
        raise Unsupported('compressed result')
    if a.ndim != len(shape):
        ob(name + f': {len(shape)} dimensions', FALSE)
        return
    ob(name + ': shape', and_(*[eq(x, lift(y)) for x, y in zip(a.shape, shape)]), hyps)
    idx = [fresh('k', 'I', sign='0+') for _ in shape]
    rng = [lt(i, s) for i, s in zip(idx, shape)]
    n, v = a.at(idx)
    hy = list(hyps) + rng
    ns = nanspec(*idx) if nanspec else FALSE
    ob(name + ': missing values', iff(n, ns), hy)
    ob(name + ': values', eq(v, spec(*idx)), hy + [not_(ns)])
