"""Retained scales and effective range are exactly the usable ones."""
from pyvc.spec import *
from .common import *
from .wt import *


def ncoef(i, r):
    return bsum(OA.len(add(i, 1)), lambda k: ind(not_(ocoef(i, k, r)[0])))


def nlead(i, r):
    return bsum(sub(OA.len(add(i, 1)), 2), lambda k: ind(not_(app('LN', i, k, r))))


def contract(S):
    math_facts(S)
    declare('J2', 'I')
    DL = WMOD + 'decomposition_level'
    S.functions |= {WMOD + '_wavelet_coef_analysis', MRQ + '.add_values', DL}
    S.assume('a signal at least as long as the filter plus one sample (otherwise no scale exists)')

    for form, p in (('none', lambda: None), ('inf', lambda: math.inf), ('finite p', lambda: Sc(var('pexp'), 'float'))):
        for j2 in (None, 'given'):
            def run(I, ob, p=p, j2=j2, form=form):
                setup(I, True)
                I.pc += [le(0, ML)]
                if p() is not None:
                    opaque_leaders(I, OA)
                s = signal(I)
                res = I.call(I.get(WA), [s], {'p_exp': p(), 'wt_name': 'db3', 'j2': None if j2 is None else Sc(var('J2'), 'int'),
                                              'gamint': Sc(var('gam'), 'float'), 'normalization': Sc(var('norm'), 'float')})
                warned = [e for e in I.effects if e[0] == 'warn']
                ob('warning exactly when the requested scale exceeds the limit',
                   iff(const(len(warned) == 1), gt(var('J2'), ML) if j2 else FALSE))
                c = I.force(I.getattr(I.getattr(res, 'wt_coefs'), 'values'))
                nc = dict_range(I, ob, c, 'coefficients: ')
                if nc is None:
                    return
                last = nc
                if p() is not None:
                    l = I.force(I.getattr(I.getattr(res, 'wt_leaders'), 'values'))
                    last = dict_range(I, ob, l, 'leaders: ')
                    if last is None:
                        return
                    ob('no leaders without coefficients', and_(le(last, nc), le(nc, add(last, 1))))
                else:
                    ob('no leaders', const(I.getattr(res, 'wt_leaders') is None))
                ob('no scale above floor(log2(N / (F + 1)))', le(nc, ML))
                i, r = fresh('i', 'I', sign='0+'), fresh('r', 'I', sign='0+')
                hk = [lt(r, R), lt(i, nc)]
                ob('three coefficients per realisation at every retained scale', ge(ncoef(i, r), 3), hk)
                few = bany(R, lambda r: lt(ncoef(last, r), 3))
                if p() is not None:
                    ob('three leaders per realisation at every retained scale', ge(nlead(i, r), 3), [lt(r, R), lt(i, last)])
                    few = or_(few, bany(R, lambda r: lt(nlead(last, r), 3)))
                ob('stops only at the limit or at a scale with fewer than three values', or_(eq(last, ML), few))
                j = I.force(I.getattr(res, 'j2_eff'))
                want = last if j2 is None else ite(lt(var('J2'), last), var('J2'), last)
                ob('effective upper scale: the smaller of the requested and the last retained one', and_(const(isnum(j)), eq(sc(j).t, want)))
                ob('integer scale', const(sc(j).kind == 'int'))
                ob('signal untouched', const(not I.written))
            S.scenario(f'wavelet_analysis(p_exp={form}, j2 {"given" if j2 else "absent"})', run)

    def level(I, ob):
        setup(I)
        I.pc += [le(0, ML)]
        r = I.call(I.get(DL), [Sc(N, 'int'), 'db3'], {})
        ob('floor(log2(length / (F + 1)))', eq(sc(r).t, ML))
    S.scenario('decomposition_level', level)
