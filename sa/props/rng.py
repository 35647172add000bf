"""Ranges of B-tree maps and sets, over abstract trees of any size: all kinds of bounds, present or absent."""
from .tree import *
from .tree import M, mk, fn, struct, fld
from . import tree as T
from .set import sfn, aset, inner, ENVS

RG = {'pos': 'C27', 'ret': 'C27', 'unchanged': 'C27', 'length': 'C21', 'shape': 'C24', 'alloc': 'C14', 'panic': 'C27', 'unw': 'C36'}
RGM = {k: 'C27' for k in RG if k not in ('length', 'shape')}
RGS = {k: ('C27', 'C33') for k in RGM}
BOUNDS = [('unbounded', None), ('included', True), ('included', False), ('excluded', True), ('excluded', False)]


def bound_name(b):
    return b[0] + ('' if b[1] is None else ' present' if b[1] else ' absent')


def range_case(name, find, make, start, leaf, wrap=None, env=ENVQ, facets=RG):
    @case('%s from %s, %s' % (name, bound_name(start), {0: 'tree', 1: 'root leaf', 2: 'new map'}[leaf]), find, facets, cfgs=UN)
    def _(f, cfg):
        return [one(f, start, end) for end in BOUNDS if leaf != 2 or not (start[1] or end[1])]

    def one(f, start, end):
        box = {}

        def su(m):
            m.I.split_flags, m.I.max_heads, m.I.project = True, 16, True
            if leaf == 2:
                a, mp = make(m, shared=True, n=0)
            else:
                a, mp = make(m, h=0 if leaf else None)
            if not leaf:
                m.I.rng['h'] = (1, 2 ** 31)
            m.run.mp = mp
            box.clear()
            for nm, b in (('lo', start), ('hi', end)):
                if b[1] is not None:
                    box[nm] = key2(m, nm, b[1])
            if len(box) == 2:
                m.I.pairs.add((('u', 'lo'), ('u', 'hi')))
            o = ('o', ('treeref',), ('adt', 'R', ()))
            return [a, ('S', ('u', 'range'), ('adt', 'R', ()))]

        def key2(m, nm, present):
            r = V(nm)
            m.I.rng[nm] = (0, TR.BIG)
            v = ('S', ('u', nm), QT)
            tpn = L(0) if leaf == 2 else n_
            m.st.facts = m.st.facts.add_ge(tpn - r - (1 if present else 0), m.I.nn)
            m.I.ranks[v[1]] = (r, ('B', present)[1])
            m.I.searched = m.st.mem[T.TPV[1]][3][KS_]
            o = ('o', ('keyvar', nm), QT)
            m.st.mem[o] = v
            return ('P', o, ())

        def bounds(I, fr, st, what, arg):
            w = str(what)
            for meth, nm, b in (('start_bound', 'lo', start), ('end_bound', 'hi', end)):
                if meth in w:
                    i = I.vindex('Bound', b[0].capitalize())
                    return [('ret', st, ('A', 'Bound', i, (box[nm],) if b[1] is not None else ())), ('unw', st.copy(), None)]
        run = mk(f, 'unstable', su, env=dict(env, R=('adt', 'R', ())), hooks={'user': bounds})
        run.tag = 'to ' + bound_name(end)
        run.sh = leaf == 2
        n = L(0) if leaf == 2 else n_

        def spec(I, kind, s, v):
            bad = False
            if len(box) == 2:
                o = I.split_compare(s, ('S', ('u', 'lo'), QT), ('S', ('u', 'hi'), QT))
                if o is None:
                    return []
                bad = o > 0 or o == 0 and start[0] == end[0] == 'excluded'
            out = T.same(I, s, run)
            if kind == 'unw':
                pan = happened(I, s, 'panic')
                if pan and not bad:
                    out.append(('panic', 'panics although the bounds are in order'))
                return unwound(out)
            if bad:
                return out + [('panic', 'does not panic although the start is after the end, or both are equal and excluded')]
            a = L(0) if start[1] is None else V('lo') + (1 if start == ('excluded', True) else 0)
            b = n if end[1] is None else V('hi') + (1 if end == ('included', True) else 0)
            it = wrap(I, v) if wrap else v
            return out + T.iter_is(I, s, it, T.TPV, a, b)
        return run, spec


def of_map(m, **kw):
    mp = m.map(**kw)
    return mp, mp


def of_set(m, **kw):
    sp = aset(m, **kw)
    return sp, inner(m.I, sp)


for _b in BOUNDS:
    for _l in (0, 1, 2):
        if _l == 2 and _b[1]:
            continue
        range_case('BTreeMap::range', T.mapfn('range'), of_map, _b, _l, env=dict(ENVQ, T=QT))
        range_case('BTreeMap::range_mut', T.mapfn('range_mut'), of_map, _b, _l, env=dict(ENVQ, T=QT), facets=RGM)
        range_case('BTreeSet::range', sfn('range', 'BTreeSet'), of_set, _b, _l, wrap=lambda I, v: fld(I, v, 'iter'), env=ENVS, facets=RGS)
