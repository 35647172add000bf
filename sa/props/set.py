"""B-tree sets: the operations of a map with unit values, interpreted through the map's code over abstract trees."""
from .tree import *
from .tree import M, mk, fn, ONE, cat, struct, fld
from . import tree as T

TT = ('adt', 'T', ())
ENVS = {'T': TT, 'Q': QT, 'K': QT}


def sfn(method, ty, trait=None, cond=None):
    def c(f):
        if f.impl is None:
            return False
        t = f.impl.self_ty
        if t[0] != 'adt' or mir.last(t[1]) != ty:
            return False
        tr = f.impl.trait
        if trait is None:
            return tr is None and (cond is None or cond(f))
        return tr is not None and mir.last(tr[1] if isinstance(tr, tuple) else tr) == trait and (cond is None or cond(f))
    return fn(method, cond=c, module='btree::set')


def aset(m, **kw):
    """a set around an abstract map; m.run.mp points at the map inside"""
    mp = m.map(**kw)
    v = struct(m.I, 'BTreeSet', map=m.st.mem[mp[1]])
    o = ('o', ('set', kw.get('name', '')), ('adt', 'BTreeSet', (TT,)))
    m.st.mem[o] = v
    del m.st.mem[mp[1]]
    return ('P', o, ())


def inner(I, sp):
    c = [q for q in I.prog.src.structs if mir.last(q) == 'BTreeSet']
    i = [n for n, _ in I.prog.src.structs[c[0]]].index('map')
    return ('P', sp[1], sp[2] + (i,))


def sets(name, find, facets, args, post, unw=None, shareds=(False, True), ty=QT, by='ref', **kw):
    for sh in shareds:
        set_one(name + (', new set' if sh else ''), find, facets, args, post, unw, sh, ty, by, kw)


def set_one(name, find, facets, args, post, unw, sh, ty, by, kw):
    @case(name, find, facets, cfgs=UN)
    def _(f, cfg):
        def su(m):
            sp = aset(m, shared=sh, n=0 if sh else None)
            m.run.mp = inner(m.I, sp)
            return [sp] + args(m, m.key(by=by, ty=ty))
        run = mk(f, cfg, su, env=ENVS, **kw)
        run.sh = sh

        def spec(I, kind, s, v):
            if sh:
                f_ = s.facts.add_ge(-n_, I.nn)
                if f_ is None:
                    return []
                s.facts = f_
                fd = False
                if I.truth(s, ('sym', ('found', 'key'))) is True:
                    return []
            else:
                fd = found(I, s)
            if fd is None:
                return []
            if kind == 'unw':
                o = [('panic', 'panics' if happened(I, s, 'panic') else None)]
                return o + unwound(unw(I, s, run) if unw else T.same(I, s, run))
            return post(I, s, v, fd, run)
        return run, spec


def only(ps):
    """facets of wrappers also belong to the set property"""
    return {k: (v if isinstance(v, tuple) else (v,)) + ('C33',) if k in ('ret', 'content', 'unchanged', 'length', 'pos') else v
            for k, v in ps.items()}


SS, SI, SR, SN, ST, SO = (only(x) for x in (T.SEARCH, T.INS, T.REM, T.NEW, T.IT, T.OWN))


def read(post):
    return lambda I, s, v, fd, run: T.same(I, s, run) + [('ret', post(I, s, v, fd))]


sets('BTreeSet::contains', sfn('contains', 'BTreeSet'), SS, lambda m, k: [k], read(T.p_bool))
sets('BTreeSet::get', sfn('get', 'BTreeSet'), SS, lambda m, k: [k], read(T.p_key))


def p_insert(I, s, v, fd, run):
    def success(p):
        t = I.truth(s, p[1])
        if t is None:
            raise NeedFork([p[1], pnot(p[1])])
        o = [('ret', None if t == (not fd) else 'reports the value as %s' % ('new' if t else 'already present'))]
        if fd:
            return o + content(I, s, run.mp, whole()[0], cat(part(0, r_)[1], ONE(UNIT), part(r_ + 1, n_)[1]))
        return o + content(I, s, run.mp, T.inserted()[0], cat(part(0, r_)[1], ONE(UNIT), part(r_, n_)[1]))
    return T.fallible(I, s, v, run, success)


def eq_units(I, s, run):
    """user code panics after an equal value was found: the unit value may have been stored again"""
    return content(I, s, run.mp, whole()[0], cat(part(0, r_)[1], ONE(UNIT), part(r_ + 1, n_)[1])) \
        if not run.sh and found(I, s) else T.same(I, s, run)


sets('BTreeSet::try_insert', sfn('try_insert', 'BTreeSet'), SI, lambda m, k: [k], p_insert, ty=TT, by='val',
     unw=lambda I, s, run: T.same(I, s, run) if not any(x for _, x in T.same(I, s, run)) else eq_units(I, s, run))
sets('BTreeSet::replace', sfn('replace', 'BTreeSet'), SI, lambda m, k: [k], T.p_replace, ty=TT, by='val')


def p_set_remove(I, s, v, fd, run):
    t = I.truth(s, v[1])
    if t is None:
        raise NeedFork([v[1], pnot(v[1])])
    o = [('ret', None if t == fd else 'reports the value as %s' % ('present' if t else 'absent'))]
    return o + (content(I, s, run.mp, *T.removed()) if fd else T.same(I, s, run))


sets('BTreeSet::remove', sfn('remove', 'BTreeSet'), SR, lambda m, k: [k], p_set_remove,
     T.changed_or(lambda I, s, run: content(I, s, run.mp, *T.removed())))
sets('BTreeSet::take', sfn('take', 'BTreeSet'), SR, lambda m, k: [k], T.p_take,
     T.changed_or(lambda I, s, run: content(I, s, run.mp, *T.removed())))
sets('BTreeSet::clear', sfn('clear', 'BTreeSet'), SR, lambda m, k: [], T.p_clear,
     lambda I, s, run: content(I, s, run.mp, cat(), cat()))


def p_len(I, s, v, fd, run):
    n = L(0) if run.sh else n_
    return T.same(I, s, run) + [('ret', None if I.need_eq(s, v[1], n) else 'returns %r' % (v[1],))]


def p_empty(I, s, v, fd, run):
    t = I.truth(s, v[1])
    if t is None:
        raise NeedFork([v[1], pnot(v[1])])
    return T.same(I, s, run) + [('ret', None if t == (run.sh or I.need_le(s, n_, 0)) else 'is wrong')]


sets('BTreeSet::len', sfn('len', 'BTreeSet'), dict(SN, ret=('C21', 'C33'), unchanged='C33'), lambda m, k: [], p_len)
sets('BTreeSet::is_empty', sfn('is_empty', 'BTreeSet'), dict(SN, ret=('C21', 'C33'), unchanged='C33'), lambda m, k: [], p_empty)


def snew(name, find):
    @case(name, find, SN, cfgs=UN)
    def _(f, cfg):
        run = mk(f, cfg, lambda m: [], env=ENVS)

        def spec(I, kind, s, v):
            if kind == 'unw':
                return [('panic', 'panics')]
            return content(I, s, fld(I, v, 'map'), cat(), cat())
        return run, spec


snew('BTreeSet::new', sfn('new', 'BTreeSet'))
snew('BTreeSet Default::default', sfn('default', 'BTreeSet', 'Default'))


# ---------------------------------------------------------------- iterators

def siter(m, kind, it):
    return struct(m.I, kind, iter=it)


INNER = {'Iter': 'Keys', 'Range': 'Range', 'IntoIter': 'IntoIter'}


def set_iter(kind, method, front, leaf):
    trait = 'Iterator' if front else 'DoubleEndedIterator'

    @case('set %s::%s, %s' % (kind, method, 'root leaf' if leaf else 'leaf'), sfn(method, kind, trait), ST, cfgs=UN)
    def _(f, cfg):
        def su(m):
            it = siter(m, kind, T.iterstate(m, INNER[kind], leaf))
            m.run.it = m.ref(it)
            return [m.run.it]
        run = mk(f, cfg, su, env=ENVS)

        def spec(I, kind_, s, v):
            if kind_ == 'unw':
                return [('panic', 'panics')]
            o = T.same_map(I, s, run.mp)
            it = fld(I, I.deref_val(s, run.it), 'iter')
            if I.need_le(s, T.q_, T.p_):
                return o + [('ret', T.yields(I, s, v, 'Keys', None))] + T.iter_is(I, s, it, T.TPV, T.p_, T.p_)
            x, a, b = (T.p_, T.p_ + 1, T.q_) if front else (T.q_ - 1, T.p_, T.q_ - 1)
            return o + [('ret', T.yields(I, s, v, 'Keys', x))] + T.iter_is(I, s, it, T.TPV, a, b)
        return run, spec


for _k in ('Iter', 'Range'):
    for _leaf in (True, False):
        set_iter(_k, 'next', True, _leaf)
        set_iter(_k, 'next_back', False, _leaf)


def set_own(method, front, leaf, shared=False):
    trait = 'Iterator' if front else 'DoubleEndedIterator'

    @case('set IntoIter::%s, %s' % (method, 'new set' if shared else 'root leaf' if leaf else 'leaf'),
          sfn(method, 'IntoIter', trait), SO, cfgs=UN)
    def _(f, cfg):
        def su(m):
            m.run.it = m.ref(siter(m, 'IntoIter', T.owned_iter(m, leaf, shared)))
            return [m.run.it]
        run = mk(f, cfg, su, env=ENVS)

        def spec(I, kind_, s, v):
            if kind_ == 'unw':
                return [('panic', 'panics' if happened(I, s, 'panic') else None)]
            it = fld(I, I.deref_val(s, run.it), 'iter')
            if shared:
                return [('ret', T.opt(I, s, v, None, 'no entry is left'))] + T.iter_is(I, s, it, T.TPV, L(0), L(0))
            a, b = T.p_, T.q_
            if I.need_le(s, b, a):
                o = [('ret', T.opt(I, s, v, None, 'no entry is left'))]
            else:
                x = a if front else b - 1
                o = [('ret', T.opt(I, s, v, el('K', '', x), 'the next value'))]
                a, b = (a + 1, b) if front else (a, b - 1)
            return o + T.iter_is(I, s, it, T.TPV, a, b) + [('moved', T.rest(I, s, a, b))]
        return run, spec


for _m in ('next', 'next_back'):
    for _leaf in (True, False):
        set_own(_m, _m == 'next', _leaf)
    set_own(_m, _m == 'next', True, True)


def set_len(kind, method, trait):
    @case('set %s::%s' % (kind, method), sfn(method, kind, trait), ST, cfgs=UN)
    def _(f, cfg):
        def su(m):
            m.run.it = m.ref(siter(m, kind, T.iterstate(m, INNER[kind], False)))
            return [m.run.it]
        run = mk(f, cfg, su, env=ENVS)

        def spec(I, kind_, s, v):
            if kind_ == 'unw':
                return [('panic', 'panics')]
            it = fld(I, I.deref_val(s, run.it), 'iter')
            o = T.same_map(I, s, run.mp) + T.iter_is(I, s, it, T.TPV, T.p_, T.q_)
            d = T.q_ - T.p_
            if method == 'len':
                return o + [('len', None if I.need_eq(s, v[1], d) else 'returns %r' % (v[1],))]
            if method == 'clone':
                return o + [(a if a != 'pos' else 'ret', m) for a, m in T.iter_is(I, s, fld(I, v, 'iter'), T.TPV, T.p_, T.q_)]
            u = I.force(s, v[3][1])
            okv = I.need_eq(s, v[3][0][1], d) and u[2] == 1 and I.need_eq(s, u[3][0][1], d)
            return o + [('len', None if okv else 'returns a wrong bound')]
        return run, spec


for _k in ('Iter', 'IntoIter'):
    set_len(_k, 'len', 'ExactSizeIterator')
    set_len(_k, 'size_hint', 'Iterator')
for _k in ('Iter', 'Range'):
    set_len(_k, 'clone', 'Clone')


def set_makes(name, find, shared, byval=False):
    @case(name + (', new set' if shared else ''), find, ST, cfgs=UN)
    def _(f, cfg):
        def su(m):
            sp = aset(m, shared=shared, n=0 if shared else None)
            m.run.mp = inner(m.I, sp)
            return [m.st.mem[sp[1]] if byval else sp]
        run = mk(f, cfg, su, env=ENVS)

        def spec(I, kind_, s, v):
            if kind_ == 'unw':
                return [('panic', 'panics')]
            run.sh = shared
            o = [] if byval else T.same(I, s, run)
            return o + T.iter_is(I, s, fld(I, v, 'iter'), T.TPV, L(0), L(0) if shared else n_)
        return run, spec


for _sh in (False, True):
    set_makes('BTreeSet::iter', sfn('iter', 'BTreeSet'), _sh)
    set_makes('BTreeSet::into_iter', sfn('into_iter', 'BTreeSet', 'IntoIterator'), _sh, byval=True)
    set_makes('&BTreeSet::into_iter', fn('into_iter', module='btree::set', cond=lambda f: f.impl is not None
              and f.impl.trait == 'IntoIterator' and f.impl.self_ty[0] == 'ref'
              and mir.last(f.impl.self_ty[2][1]) == 'BTreeSet'), _sh)
