"""Set algebra of B-tree sets, decided over ghost sets (sa/alg.py)."""
from .tree import *
from .tree import M, struct, fld
from . import tree as T
from . import set as S
from .. import alg as AL
from ..alg import AlgInterp, G, Order, SIDES, step, it, it_of, elem, setptr

OPS = {'Difference': 'difference', 'SymmetricDifference': 'symmetric_difference', 'Intersection': 'intersection', 'Union': 'union'}
ENVA = {'T': AL.TT}
NA, NB = V('na'), V('nb')
AF = {'ret': 'C29', 'rest': 'C29', 'panic': 'C29', 'mem': 'C29', 'hint': 'C29', 'alloc': 'C14'}
PF = {'ret': 'C30', 'panic': 'C30', 'mem': 'C30', 'alloc': 'C14'}


def mka(f, cfg, op, setup, env=None, **kw):
    def su(run):
        I = run.I
        I.op = op
        I.rng['na'] = I.rng['nb'] = (0, TR.BIG)
        AL.begin(run.st, NA, NB)
        I.split_flags, I.max_heads, I.project = True, 16, True
        run.args = setup(M(run))
    return Run(f, cfg, cls=AlgInterp, args=[], setup=su, env=dict(ENVA, **(env or {})), **kw)


def peekable(i, slot=NONE):
    return ('A', 'Peekable', 0, (i, slot))


def evar(I, enum, variant, **kw):
    c = [q for q in I.prog.src.enums if mir.last(q) == enum]
    if len(c) == 1:
        for j, (v, fl) in enumerate(I.prog.src.enums[c[0]]):
            if v == variant and {n for n, _ in fl} == set(kw):
                return ('A', enum, j, tuple(kw[n] for n, _ in fl))
    raise Unsupported('variant %s::%s' % (enum, variant))


SLOTS = ('not looked at', 'none left', 'known')


def slot(s, k):
    """the iterator over s inside a Peekable; number of elements it must have"""
    return {0: peekable(it(s)), 1: peekable(it(s), some(NONE)), 2: peekable(it(s, 1), some(some(elem(s, 0))))}[k]


def objects(I, ty, first='A', second='B'):
    """(tag, object, slot state per side) of every representation of the operation on the two sets"""
    a, b = first, second
    if ty in ('SymmetricDifference', 'Union'):
        return [('%s, %s' % (SLOTS[i], SLOTS[j]), lambda i=i, j=j: struct(I, ty, a=slot(a, i), b=slot(b, j)), {a: i, b: j})
                for i in range(3) for j in range(3)]
    if ty == 'Difference':
        mk_ = lambda v, **kw: struct(I, ty, inner=evar(I, 'DifferenceInner', v, **kw))
        return [('stitch, ' + SLOTS[j], lambda j=j: mk_('Stitch', self_iter=it(a), other_iter=slot(b, j)), {a: 0, b: j}) for j in range(3)] + \
            [('search', lambda: mk_('Search', self_iter=it(a), other_set=setptr(b)), {a: 0, b: 0})]
    mk_ = lambda v, **kw: struct(I, ty, inner=evar(I, 'IntersectionInner', v, **kw))
    return [('stitch', lambda: mk_('Stitch', small_iter=it(a), other_iter=it(b)), {a: 0, b: 0}),
            ('search', lambda: mk_('Search', small_iter=it(a), large_set=setptr(b)), {a: 0, b: 0})]


TAGS = {'SymmetricDifference': 9, 'Union': 9, 'Difference': 4, 'Intersection': 2}


def positions(I, s, v, at):
    """positions of the iterators inside an object; a message when it is in disorder"""
    if not isinstance(v, tuple):
        return None
    if v[:2] == ('A', 'Peekable'):
        r = it_of(v[3][0])
        if r is None:
            return 'holds an unknown iterator'
        sd, k = r
        p = I.force(s, v[3][1])
        if p[2] == 1:
            q = I.force(s, p[3][0])
            if q[2] == 1:
                if I.elem(s, q[3][0]) != (sd, k - 1):
                    return 'keeps another element than the next one'
                k -= 1
            elif not I.need_le(s, G(s).n[sd], k):
                return 'remembers an end that is none'
        at[sd] = at.get(sd, ()) + (k,)
        return None
    if v[:2] == ('A', '#It'):
        sd, k = it_of(v)
        at[sd] = at.get(sd, ()) + (k,)
        return None
    if v[0] == 'P':
        if v[1][0] == 'o' and v[1][1][0] == 'set':
            at[v[1][1][1]] = at.get(v[1][1][1], ()) + (0,)
        return None
    for x in v:
        m = positions(I, s, x, at) if isinstance(x, tuple) else None
        if m:
            return m
    return None


def sides(I, s, v):
    at = {}
    m = positions(I, s, v, at)
    if m is None and (set(at) != set(SIDES) or any(len(x) != 1 for x in at.values())):
        m = 'does not range over both sets'
    return {k: x[0] for k, x in at.items()}, m


def afn(method, ty, trait):
    return S.sfn(method, ty, trait)


def start(m, ty, j):
    tag, mkobj, sl = objects(m.I, ty)[j]
    v = mkobj()
    g = G(m.st)
    g.taken = {sd: int(sl[sd] == 2) for sd in SIDES}
    g.put(m.st)
    for sd, n in (('A', NA), ('B', NB)):
        if sl[sd] == 1:
            m.st.facts = m.st.facts.add_ge(L(0) - n, m.I.nn)
        elif sl[sd] == 2:
            m.st.facts = m.st.facts.add_ge(n - 1, m.I.nn)
    return v


def panics(I, s):
    return [('panic', 'panics' if happened(I, s, 'panic') else None)]


def next_case(ty, j):
    op = OPS[ty]

    @case('set %s::next, representation %d' % (ty, j + 1), afn('next', ty, 'Iterator'), AF, cfgs=UN)
    def _(f, cfg):
        def su(m):
            m.run.it = m.ref(start(m, ty, j))
            return [m.run.it]
        run = mka(f, cfg, op, su)

        def spec(I, kind, s, v):
            if kind == 'unw':
                return panics(I, s)
            g = G(s)
            if g.broken:
                return [('rest', 'an element is passed over that belongs to the result')]
            at, m = sides(I, s, I.deref_val(s, run.it))
            if m:
                return [('rest', 'the iterator ' + m)]
            v = I.force(s, v)
            y = None
            if v[2] == 1:
                y = I.elem(s, v[3][0])
                if y is None:
                    raise Unsupported('element ' + show(v)[:60])
                if y[0] == 'gone':
                    return [('ret', 'yields an element dealt with before')]
            o = Order(I, s, g, I.known(s))
            return [('ret', step(o, op, at, y, v[2] == 0))]
        return run, spec


def hint_case(ty, j):
    op = OPS[ty]

    @case('set %s::size_hint, representation %d' % (ty, j + 1), afn('size_hint', ty, 'Iterator'), AF, cfgs=UN)
    def _(f, cfg):
        def su(m):
            v = start(m, ty, j)
            m.run.sl = objects(m.I, ty)[j][2]
            m.run.it = m.ref(v)
            m.run.v = v
            return [m.run.it]
        run = mka(f, cfg, None, su)

        def spec(I, kind, s, v):
            if kind == 'unw':
                return [('panic', 'panics')]
            v = I.force(s, v)
            lo, hi = v[3][0][1], I.force(s, v[3][1])
            o = [('rest', None if I.deref_val(s, run.it) == run.v else 'the iterator is changed')]
            le = lambda a, b: I.need_le(s, a, b)
            lows = {'difference': (L(0), NA - NB), 'symmetric_difference': (L(0), NA - NB, NB - NA), 'intersection': (L(0),),
                    'union': (NA, NB)}[op]
            m = None
            if not any(le(lo, x) for x in lows):
                m = 'the lower bound %r may exceed the number of elements left' % (lo,)
            elif hi[2] == 1:
                u = hi[3][0][1]
                ups = {'difference': (NA,), 'intersection': (NA, NB)}.get(op, (NA + NB,))
                if not any(le(x, u) for x in ups):
                    m = 'the upper bound %r may be below the number of elements left' % (u,)
            return o + [('hint', m)]
        return run, spec


def clone_case(ty, j):
    @case('set %s::clone, representation %d' % (ty, j + 1), afn('clone', ty, 'Clone'), AF, cfgs=UN)
    def _(f, cfg):
        def su(m):
            m.run.v = start(m, ty, j)
            m.run.it = m.ref(m.run.v)
            return [m.run.it]
        run = mka(f, cfg, None, su)

        def spec(I, kind, s, v):
            if kind == 'unw':
                return panics(I, s)
            return [('rest', None if I.deref_val(s, run.it) == run.v else 'the iterator is changed'),
                    ('ret', None if v == run.v else 'the copy will not yield what the iterator yields')]
        return run, spec


def make_case(ty):
    @case('BTreeSet::' + OPS[ty], S.sfn(OPS[ty], 'BTreeSet'), AF, cfgs=UN)
    def _(f, cfg):
        run = mka(f, cfg, None, lambda m: [setptr('A'), setptr('B')])

        def spec(I, kind, s, v):
            if kind == 'unw':
                return [('panic', 'panics')]
            return [('ret', denotes(I, s, v, ty))]
        return run, spec


def denotes(I, s, v, ty):
    at, m = sides(I, s, v)
    if m is None and any(at.values()):
        m = 'has lost elements'
    if m is None and v not in [o() for pair in (('A', 'B'),) + ((('B', 'A'),) if ty != 'Difference' else ())
                               for _, o, sl in objects(I, ty, *pair) if not any(sl.values())]:
        if ty == 'Difference' and v in [o() for _, o, sl in objects(I, ty, 'B', 'A')]:
            return 'the iterator yields the elements of the other set'
        raise Unsupported('representation ' + show(v)[:80])
    return m and 'the iterator ' + m


for _ty in OPS:
    make_case(_ty)
    for _j in range(TAGS[_ty]):
        next_case(_ty, _j)
        hint_case(_ty, _j)
        clone_case(_ty, _j)


# ---------------------------------------------------------------- operators

def op_case(trait, method, ty):
    @case('BTreeSet %s::%s' % (trait, method), fn(method, module='btree::set', cond=lambda f: f.impl is not None and f.impl.trait is not None and
          mir.last(f.impl.trait[1] if isinstance(f.impl.trait, tuple) else f.impl.trait) == trait), AF, cfgs=UN)
    def _(f, cfg):
        def su(m):
            m.I.own['BTreeSet', 'from_iter'] = lambda c, i: ('S', ('collected', i), ('adt', 'BTreeSet', (AL.TT,)))
            return [setptr('A'), setptr('B')]
        run = mka(f, cfg, None, su)

        def spec(I, kind, s, v):
            if kind == 'unw':
                return panics(I, s)
            if v[0] != 'S' or v[1][0] != 'collected':
                raise Unsupported('result ' + show(v)[:60])
            i = v[1][1]
            if i[:2] != ('A', 'Cloned'):
                raise Unsupported('collects ' + show(i)[:60])
            i = i[3][0]
            if i[1] != ty:
                return [('ret', 'the result is built from the wrong operation :: ' + str(i[1]))]
            return [('ret', denotes(I, s, i, ty))]
        return run, spec


for _t, _m, _ty in (('Sub', 'sub', 'Difference'), ('BitXor', 'bitxor', 'SymmetricDifference'), ('BitAnd', 'bitand', 'Intersection'),
                    ('BitOr', 'bitor', 'Union')):
    op_case(_t, _m, _ty)


# ---------------------------------------------------------------- predicates

def pred_case(method, op, self_, other):
    @case('BTreeSet::' + method, S.sfn(method, 'BTreeSet'), PF, cfgs=UN)
    def _(f, cfg):
        run = mka(f, cfg, op, lambda m: [setptr(self_), setptr(other)])

        def spec(I, kind, s, v):
            if kind == 'unw':
                return panics(I, s)
            g = G(s)
            if g.broken:
                return [('ret', 'an element is passed over that matters')]
            if v[0] != 'B':
                raise Unsupported('result ' + show(v)[:60])
            r = I.truth(s, v[1])
            if r is None:
                raise NeedFork([v[1], pnot(v[1])])
            k = I.known(s)
            o = Order(I, s, g, k)
            if r:
                return [('ret', step(o, op, {x: o.known[x] for x in SIDES} if op == 'disjoint' else dict(k), None, True) and
                         'says yes though it was not established for every element')]
            xs = [('A', i) for i in range(o.known['A'])]
            if op == 'subset':
                w = any(o.member(x, 'B') is False for x in xs) or I.need_le(s, g.n['B'] + 1, g.n['A'])
            else:
                w = any(o.member(x, 'B') is True for x in xs) or any(o.member(('B', i), 'A') is True for i in range(o.known['B']))
            return [('ret', None if w else 'says no without an element that shows it')]
        return run, spec


pred_case('is_subset', 'subset', 'A', 'B')
pred_case('is_superset', 'subset', 'B', 'A')
pred_case('is_disjoint', 'disjoint', 'A', 'B')
