"""The multiresolution container: counts and realisations always agree with the stored values."""
from pyvc.spec import *
from .common import *
from .C02 import nj_at

FORM = ('wavelet coef', 'wavelet leader', 'wavelet p-leader')


def contract(S):
    S.functions |= {MRQ + m for m in ('.__post_init__', '.add_values', '.__getattr__', 'Base.get_nj', 'Base.get_nj_interv', 'Base.from_dict')}
    S.assume('scales are integers, values are two-dimensional arrays')
    S.assume('values are not modified behind the container (the container keeps the array it is given, not a copy)')
    m = SymMRQ(minvalid=0)
    declare('j1', 'I', lo=1)
    declare('j2', 'I', lo=1)
    declare('jn', 'I')
    declare('Ln', 'I', lo=0)
    declare('Xn', 'R', 2)
    declare('Vn', 'B', 2)
    declare('gam', 'R')
    j1, j2, jn, Ln, g = (var(n) for n in ('j1', 'j2', 'jn', 'Ln', 'gam'))
    R = m.R
    cntn = lambda r: bsum(Ln, lambda k: ind(app('Vn', k, r)))

    def cases():
        yield from rtcases('C23', 'Container', 100)

    def state(I, ob, o, what, added=None, shrunk=False):
        """the invariant, at an arbitrary scale and realisation; added: the condition under which the scale holds the new values"""
        vals, nj = I.force(I.getattr(o, 'values')), I.force(I.getattr(o, 'nj'))
        j = fresh('j', 'I')
        new = eq(j, jn) if added else FALSE
        for cond, lab in ((new, ': the scale just stored'), (and_(le(ONE, j), le(j, m.J), not_(new)), ': every other scale')):
            if cond is FALSE:
                continue
            n = len(I.pc)
            I.pc.append(cond)
            try:
                v, c = nj_at(I, vals, j, []), nj_at(I, nj, j, [])
            finally:
                del I.pc[n:]
            ob(what + lab + ' has values and counts', const(isinstance(v, Arr) and isinstance(c, Arr)))
            if not (isinstance(v, Arr) and isinstance(c, Arr)):
                return
            if cond is new:
                sh, X, V, C = (Ln, R), lambda k, r: app('Xn', k, r), lambda k, r: app('Vn', k, r), cntn
            else:
                sh, X, V, C = (m.L(j), R), lambda k, r: m.X(j, k, r), lambda k, r: m.V(j, k, r), lambda r: m.cnt(j, r)
            eqarr(I, ob, what + lab + ': values', v, sh, X, lambda k, r: not_(V(k, r)), hyps=[cond])
            eqarr(I, ob, what + lab + ': number of valid values', c, (R,), C, hyps=[cond])

    def newvals(I):
        return A((Ln, R), lambda k, r: (not_(app('Vn', k, r)), app('Xn', k, r)), I=I, label='coeffs')

    for form in FORM:
        def init(I, ob, form=form):
            a, b = (I.call(I.get(MRQ), [form, Sc(g, 'float')], {}) for _ in range(2))
            for n in ('values', 'nj'):
                d = I.force(I.getattr(a, n))
                ob('a new container is empty: ' + n, const(not d.items and not d.segs))
                ob('containers share nothing: ' + n, const(d is not I.force(I.getattr(b, n))))
            ob('formalism', const(I.force(I.getattr(a, 'formalism')) == form))
            ob('integration order', eq(sc(I.getattr(a, 'gamint')).t, g))
            I.call(I.getattr(a, 'add_values'), [newvals(I), Sc(jn, 'int')], {})
            c = nj_at(I, I.force(I.getattr(a, 'nj')), jn, [])
            ob('first scale: stored', const(isinstance(c, Arr)))
            eqarr(I, ob, 'first scale: number of valid values', c, (R,), cntn)
            ob('number of realisations', eq(sc(I.force(I.getattr(a, 'nrep'))).t, R))
            ob('other containers untouched', const(not I.force(I.getattr(b, 'values')).items and not I.force(I.getattr(b, 'nj')).items))
            ob('inputs untouched', const(not I.written))
        S.scenario(f'new container ({form})', init, cases)

    def bad(I, ob):
        try:
            I.call(I.get(MRQ), ['wavelet leaders', Sc(g, 'float')], {})
            ob('unknown formalism raises a ValueError', FALSE)
        except PyRaise as e:
            ob('unknown formalism raises a ValueError', const(e.etype == 'ValueError'))
    S.scenario('unknown formalism', bad, cases)

    for where in ('next scale', 'existing scale', 'any new scale'):
        def step(I, ob, where=where):
            I.pc += {'next scale': [eq(jn, add(m.J, 1))], 'existing scale': [le(ONE, jn), le(jn, m.J)], 'any new scale': [lt(add(m.J, 1), jn)]}[where]
            o = m.build(I)
            state(I, ob, o, 'before')
            I.mutable = 'mrq'
            I.call(I.getattr(o, 'add_values'), [newvals(I), Sc(jn, 'int')], {})
            state(I, ob, o, 'after', True)
            ob('number of realisations', eq(sc(I.force(I.getattr(o, 'nrep'))).t, R))
            ob('the new values untouched', const(not [w for w in I.written if not str(w).startswith('mrq')]))
        S.scenario(f'add_values at {where}', step, cases)

    def read(I, ob):
        I.pc += [le(ONE, j1), le(j1, j2), le(j2, m.J)]
        o = m.build(I)
        eqarr(I, ob, 'counts of a range of scales', I.call(I.getattr(o, 'get_nj_interv'), [Sc(j1, 'int'), Sc(j2, 'int')], {}),
              (add(sub(j2, j1), 1), R), lambda k, r: m.cnt(add(j1, k), r))
        l = I.call(I.getattr(o, 'get_nj'), [], {})
        n, at = I.seq(l)
        ob('one count per scale', eq(n, m.J))
        k = fresh('k', 'I', sign='0+')
        I.pc.append(lt(k, m.J))
        eqarr(I, ob, 'counts of all scales', at(k), (R,), lambda r: m.cnt(add(k, 1), r), hyps=[lt(k, m.J)])
        ob('number of realisations', eq(sc(I.force(I.getattr(o, 'nrep'))).t, R))
        try:
            I.getattr(o, 'nonexistent')
            ob('unknown attribute raises an AttributeError', FALSE)
        except PyRaise as e:
            ob('unknown attribute raises an AttributeError', const(e.etype == 'AttributeError'))
        ob('inputs untouched', const(not I.written))
    S.scenario('reading a container', read, cases)

    def fromd(I, ob):
        d = SDict()
        for k, v in (('formalism', FORM[1]), ('extra', Sc(ONE, 'int')), ('gamint', Sc(g, 'float')), ('values', None)):
            I.setitem(d, k, v)
        o = I.call(I.getattr(I.get(MRQ), 'from_dict'), [d], {})
        ob('formalism', const(I.force(I.getattr(o, 'formalism')) == FORM[1]))
        ob('integration order', eq(sc(I.getattr(o, 'gamint')).t, g))
        v, nj = I.force(I.getattr(o, 'values')), I.force(I.getattr(o, 'nj'))
        ob('empty', const(v is not None and not v.items and not v.segs and not nj.items and not nj.segs))
        try:
            I.getattr(o, 'extra')
            ob('other entries are ignored', FALSE)
        except PyRaise as e:
            ob('other entries are ignored', const(e.etype == 'AttributeError'))
    S.scenario('from a dictionary with other entries', fromd, cases)
