"""Operations on whole B-tree maps: counting, repairing borders, splitting, copying, building from a sorted sequence, merging."""
from .. import models
from .tree import *
from .tree import M, mk, fn, struct, fld, entry_case, idx
from . import tree as T
from ..tree import I_, NONE, ROOM_, UNIT, Infeasible

TPV = ('P', ('o', ('tree', ''), ('adt', '#Tree', ())), ())
BULK = {'content': ('C32', 'C22'), 'length': 'C21', 'shape': 'C24', 'ret': 'C32', 'panic': 'C32', 'unw': 'C36', 'unchanged': ('C32', 'C20'),
        'surface': ('C02', 'C20'), 'alloc': 'C01'}


def local(method, outer, trait=None, ty='BTreeMap'):
    """a function nested in a method of the map"""
    def c(f):
        k = src.fn_key(f)
        return '::%s::%s' % (outer, method) in k
    return fn(method, cond=c)


# ---------------------------------------------------------------- Entry::and_modify

MODV = ('S', ('u', 'modified'), VT)


def modifies(I, fr, st, what, arg):
    if 'call' not in str(what):
        return None
    a = arg[0]
    while a[0] == 'A' and a[1] == 'tuple' and len(a[3]) == 1:
        a = a[3][0]
    I.tick(st, 'modified')
    u = st.copy()
    if itemref(I, st, a, 'V', r_):
        I.tick(st, 'wrong')
    else:
        I.store(st, a[1], a[2], MODV)
    return [('ret', st, UNIT), ('unw', u, None)]


def p_modify(I, s, v, occ, run):
    v = I.force(s, v)
    if (v[2] == I.vindex('Entry', 'Occupied')) != occ:
        return [('ret', 'turns an occupied entry into a vacant one or the other way round')]
    h = Hd(fld(I, v[3][0], 'handle'))
    m = None
    if h.tp != TPV or h.kv != occ or not I.need_eq(s, h.a, r_):
        m = 'the returned entry refers to another position'
    if not occ:
        if not same_val(I, s, fld(I, v[3][0], 'key'), KEYV):
            m = m or 'the key of the entry changed'
        return same_map(I, s, run.mp) + [('ret', m or ('calls the closure for a vacant entry' if happened(I, s, 'modified') else None))]
    if not m and (happened(I, s, 'wrong') or not I.need_eq(s, count(I, s, 'modified'), 1)):
        m = 'does not call the closure once on the value of the entry'
    ks, vs = whole()
    a, b = part(0, r_), part(r_ + 1, n_)
    return content(I, s, run.mp, ks, cat(a[1], ONE(MODV), b[1])) + [('ret', m)]


entry_case('Entry::and_modify', tfn('and_modify', 'Entry'), KINDS, p_modify,
           lambda m: [('S', ('u', 'f'), ('adt', 'F', ()))], wrap=True, hooks={'user': modifies}, env={'F': ('adt', 'F', ())},
           facets=dict(INS, ret='C31'))


# ---------------------------------------------------------------- counting

def any_node(m, leaf, root=False):
    """a node of the tree whose subtree holds [ls, lt)"""
    tp = m.tree(h=None)
    m.run.mp = m.map(tree=tp, length=V('len0'))
    for x in ('ls', 'lt', 'len0'):
        m.I.rng[x] = (0, TR.BIG)
    m.I.rng['h'] = (1, 2 ** 31)
    m.I.rng['lh'] = (1, 2 ** 31)
    c = C(m.I, None, m.st, None)
    h = L(0) if leaf else V('lh')
    s, t = V('ls'), V('lt')
    c.le(s, t)
    c.le(t, n_)
    if root:
        h, s, t = V('h'), L(0), n_
    else:
        c.le(h + 1, V('h'))
    return c.node(tp, h, s, t)


def k_count(c, nv):
    nd = Nd(arg_(c, nv))
    return ('I', nd.t - nd.s)


arg_ = TR.arg


def sized_node(name, leaf, root=False):
    @case('entries below a node, ' + name, fn('dfs', n=1), BULK, cfgs=UN, public=False)
    def _(f, cfg):
        def su(m):
            m.I.own[f.method] = k_count
            nv = any_node(m, leaf, root)
            m.run.nd = Nd(nv)
            return [nv]
        run = mk(f, cfg, su, env=ENVQ)

        def spec(I, kind, s, v):
            if kind == 'unw':
                return [('panic', 'panics')]
            nd = run.nd
            return [('ret', None if I.need_eq(s, v[1], nd.t - nd.s) else
                     'counts %r entries below a node that has %r' % (v[1], nd.t - nd.s))]
        return run, spec


sized_node('leaf', True)
sized_node('internal', False)
sized_node('root', False, True)


@case('BTreeMap::recalc_length', mapfn('recalc_length'), dict(BULK, ret='C21'), cfgs=UN, public=False)
def _(f, cfg):
    def su(m):
        m.I.own['dfs'] = k_count
        m.I.rng['len0'] = (0, TR.BIG)
        m.run.mp = m.map(length=V('len0'))
        return [m.run.mp]
    run = mk(f, cfg, su, env=ENVQ)

    def spec(I, kind, s, v):
        if kind == 'unw':
            return [('panic', 'panics')]
        return same_map(I, s, run.mp)
    return run, spec


# ---------------------------------------------------------------- repairing borders

def border(m, mode):
    m.I.any_mode = True
    tp = m.tree(mode=mode, fix=V('h'))
    m.run.mp = m.map(tree=tp)
    return m.run.mp


def fix_case(method, mode, done=True):
    @case('BTreeMap::' + method + ('' if done else ', ' + ('right' if mode == RB else 'left') + ' border'), mapfn(method),
          dict(BULK, shape=('C24', 'C32')), cfgs=UN, public=False)
    def _(f, cfg):
        def su(m):
            m.I.split_flags, m.I.max_heads, m.I.project = True, 16, True
            m.I.consts += (5, 6)
            return [border(m, mode)]
        run = mk(f, cfg, su, env=ENVQ)

        def spec(I, kind, s, v):
            if kind == 'unw':
                return [('panic', 'panics')]
            o = content(I, s, run.mp, *whole())
            if not done:
                # the levels below are not looked at
                tp, t, ln = tree_of(I, s, run.mp)
                c = C(I, None, s, None)
                h = t[H_][1]
                ok_ = I.need_le(s, h, 0) or I.need_le(s, 1, c.nlen(tp, h, L(0), t[N_][1]))
                o = [x for x in o if x[0] != 'shape'] + [('shape', None if ok_ else 'the root has no entry')]
            return o
        return run, spec


fix_case('fix_top', RB, False)
fix_case('fix_top', LB, False)
fix_case('fix_right_border', RB)
fix_case('fix_left_border', LB)


# ---------------------------------------------------------------- outermost leaves

def k_outer(last):
    def k(c, nv):
        nd = Nd(nv)
        if c.I.need_le(c.st, nd.h, 0):
            p = nd.t if last else nd.s
            return c.edge(nd, p, p, nd.n if last else L(0))
        x = nd.s if c.I.eq(c.st, nd.s, nd.t) else c.fresh('a' if last else 'b')
        c.le(nd.s, x)
        c.le(x, nd.t)
        s, t = (x, nd.t) if last else (nd.s, x)
        f = Nd(c.node(nd.tp, L(0), s, t, nd.root))
        p = t if last else s
        return c.edge(f, p, p, f.n if last else L(0))
    return k


def outer_case(method, last):
    for name, leaf, root in (('leaf', True, False), ('internal', False, False), ('root', False, True)):
        @case('%s, %s' % (method, name), fn(method, n=1), dict(BULK, ret=('C32', 'C28')), cfgs=UN, public=False)
        def _(f, cfg, leaf=leaf, root=root):
            def su(m):
                nv = any_node(m, leaf, root)
                m.run.nd = Nd(nv)
                return [nv]
            run = mk(f, cfg, su, env=ENVQ)

            def spec(I, kind, s, v):
                if kind == 'unw':
                    return [('panic', 'panics')]
                nd, h = run.nd, Hd(v)
                m = None
                p = nd.t if last else nd.s
                if h.kv or not I.need_eq(s, h.node.h, 0) or not I.need_eq(s, h.b, p):
                    m = 'does not give the %s position below the node' % ('last' if last else 'first')
                elif not I.need_eq(s, h.i, h.node.n if last else 0):
                    m = 'gives a wrong index in the leaf'
                return same_map(I, s, run.mp)[:1] + [('ret', m)]
            return run, spec


outer_case('first_leaf_edge', False)
outer_case('last_leaf_edge', True)


# ---------------------------------------------------------------- splitting

def root_tp(c, mp):
    return fld(c.I, c.I.deref_val(c.st, mp), 'root')[3][0]


def k_fix(mode):
    def k(c, mp):
        tp = root_tp(c, mp)
        if c.mode(tp) == mode and not c.excs(tp) and c.I.need_le(c.st, c.num(tp, TR.H_), c.num(tp, TR.FIX_)):
            h = c.fresh('H', 0, 2 ** 32)
            c.le(h, c.num(tp, TR.H_))
            c.forget(tp)
            c.put(tp, mode=I_(NORMAL), fix=I_(0), room=I_(-1), H=('I', h))
        return UNIT
    return k


def k_recalc(c, mp):
    m = c.I.deref_val(c.st, mp)
    tp = root_tp(c, mp)
    i = idx(c.I, 'length')
    c.I.store(c.st, mp[1], mp[2] + (i,), ('I', c.num(tp, N_)))
    return UNIT


def p_split(I, s, v, fd, run):
    def success(p):
        if run.sh:
            return content(I, s, run.mp, cat(), cat()) + content(I, s, p, cat(), cat(), what='the returned map')
        return content(I, s, run.mp, *part(0, r_)) + content(I, s, p, *part(r_, n_), what='the returned map')
    return fallible(I, s, v, run, success)


def split_args(m, k):
    m.I.own.update(fix_right_border=k_fix(RB), fix_left_border=k_fix(LB), recalc_length=k_recalc,
                   first_leaf_edge=k_outer(False), last_leaf_edge=k_outer(True))
    m.I.split_flags, m.I.max_heads, m.I.project = True, 16, True
    return [k]


T.both('BTreeMap::split_off', mapfn('split_off'), BULK, split_args, p_split)


# ---------------------------------------------------------------- copying

def cl_(ar, tag):
    return tuple((a, b, ('S', ('clone', t), tag)) for a, b, t in ar)


def copy_items(c, tp, s, t):
    ks, vs = c.items(tp, s, t)
    ks, vs = (c.I.ar_get(c.st, ('AR', x), L(0), t - s) for x in (ks, vs))
    return cl_(ks, KT), cl_(vs, VT)


def k_clone(c, nv):
    """a map with clones of the entries below the node, as high, with as many entries in its root"""
    nd = Nd(nv)
    I, fall = c.I, 'TryClone' in c.f.name or c.fallible
    outs = [('unw', c.st.copy(), None)]
    if fall:
        outs.append(c.fail())
    st = c.st
    ks, vs = copy_items(c, nd.tp, nd.s, nd.t)
    es = ()
    if not I.ge(st, nd.n - TR.MIN):
        es = (TR.rec(0, nd.h, L(0), nd.t - nd.s, nd.n),)
    o = I.alloc(st, TR.tree_val(nd.t - nd.s, nd.h, ks, vs, exc=es))
    if not es:
        c.remember(('P', o, ()), 0, nd.h, L(0), nd.t - nd.s, nd.n)
    m = struct(I, 'BTreeMap', root=('A', 'Root', 0, (('P', o, ()),)), length=('I', nd.t - nd.s))
    return outs + [('ret', st, TR.ok(m) if fall else m)]


def copied(I, s, v, run, a, b):
    """the map v has clones of the entries [a, b)"""
    c = C(I, None, s, None)
    ks, vs = part(a, b)
    return content(I, s, v, (cl_(ks[0], KT), ks[1]), (cl_(vs[0], VT), vs[1]), 'ret', 'the copy')


CLONE = dict(BULK, content=('C07', 'C22'), unchanged=('C07', 'C20'), ret='C07', panic='C07')


def subtree_case(outer, fall):
    for name, leaf, root in (('leaf', True, False), ('internal', False, False), ('root', False, True)):
        @case('clone_subtree of %s, %s' % (outer, name), local('clone_subtree', outer), CLONE, cfgs=UN, public=False)
        def _(f, cfg, leaf=leaf, root=root):
            def su(m):
                m.I.own[f.method] = own(fall)
                m.I.split_flags, m.I.max_heads, m.I.project, m.I.keep_root = True, 16, True, True
                nv = any_node(m, leaf, root)
                m.run.nd = Nd(nv)
                return [nv]
            run = mk(f, cfg, su, env=ENVQ)

            def spec(I, kind, s, v):
                o = same_map(I, s, run.mp)[:1]
                if kind == 'unw':
                    return o
                if fall:
                    e, v = is_err(I, s, v)
                    o.append(('surface', None if e == T.tick_failed(I, s) else 'reports success or failure wrongly'))
                    if e:
                        return o
                nd = run.nd
                o += copied(I, s, v, run, nd.s, nd.t)
                tp, t, ln = T.tree_of(I, s, v)
                m = None
                if not I.need_eq(s, t[TR.H_][1], nd.h):
                    m = 'the copy has another height than the node'
                elif not leaf:
                    ns = [e[3] for e in C(I, None, s, None).excs(tp) if I.eq(s, e[0], nd.h)]
                    if len(ns) != 1 or not I.need_eq(s, ns[0], nd.n):
                        m = 'the root of the copy has another number of entries than the node'
                return o + [('shape', m)]
            return run, spec


def own(fall):
    def k(c, nv):
        c.fallible = fall
        return k_clone(c, nv)
    return k


C.fallible = False
subtree_case('try_clone', True)
subtree_case('clone', False)


def p_copy(fall):
    def p(I, s, v, fd, run):
        if fall:
            e, v = is_err(I, s, v)
            o = [('surface', None if e == T.tick_failed(I, s) else 'reports success or failure wrongly')]
        else:
            e, o = False, []
        o += T.same(I, s, run)
        if e:
            return o
        if run.sh:
            return o + content(I, s, v, cat(), cat(), 'ret', 'the copy')
        return o + copied(I, s, v, run, 0, n_)
    return p


def copy_args(fall):
    def a(m, k):
        m.I.own['clone_subtree'] = own(fall)
        return []
    return a


T.both('BTreeMap::try_clone', tfn('try_clone', 'BTreeMap', 'TryClone'), CLONE, copy_args(True), p_copy(True), lambda I, s, run: T.same(I, s, run))
T.both('BTreeMap::clone', tfn('clone', 'BTreeMap', 'Clone'), CLONE, copy_args(False), p_copy(False), lambda I, s, run: T.same(I, s, run))


# ---------------------------------------------------------------- building from a sorted sequence
# While the tree is built, the nodes beside the right border are (nearly) full and those of the border hold any number of entries (mode BUILD;
# FIX = height up to which the border is known to be full).  fix_top leaves a root with entries, fix_right_edge refills the border.

TOPPED = -1


def right_edge_case(leaf):
    @case('BTreeMap::fix_right_edge, ' + ('one leaf' if leaf else 'several levels'), mapfn('fix_right_edge'),
          dict(BULK, shape=('C24', 'C32')), cfgs=UN, public=False)
    def _(f, cfg):
        def su(m):
            I = m.I
            I.split_flags, I.max_heads, I.project, I.any_mode, I.keep_root = True, 16, True, True, True
            I.consts += (5, 6)
            h = L(0) if leaf else V('h')
            if not leaf:
                I.rng['h'] = (1, 2 ** 31)
            tp = m.tree(mode=RB, h=h, fix=h, room=h)
            m.run.mp = m.map(tree=tp)
            if not leaf:
                I.rng['rn'] = (1, TR.CAP)
                c = C(I, None, m.st, None)
                c.remember(tp, 0, h, L(0), n_, V('rn'))
                c.setexc(tp, [(h, L(0), n_, V('rn'))])
            return [m.run.mp]
        run = mk(f, cfg, su, env=ENVQ)

        def spec(I, kind, s, v):
            if kind == 'unw':
                return [('panic', 'panics')]
            return content(I, s, run.mp, *whole())
        return run, spec


right_edge_case(True)
right_edge_case(False)


def k_top(c, mp):
    """fix_top: levels without entries at the top go"""
    tp = root_tp(c, mp)
    if c.mode(tp) in (BUILD, EMPTYSPINE):
        h = c.fresh('H', 0, 2 ** 32)
        c.le(h, c.num(tp, TR.H_))
        c.forget(tp)
        c.setexc(tp, [])
        c.put(tp, mode=I_(BUILD), fix=I_(TOPPED), H=('I', h))
    return UNIT


def k_right_edge(c, mp):
    tp = root_tp(c, mp)
    if c.mode(tp) == BUILD and c.I.eq(c.st, c.num(tp, TR.FIX_), TOPPED):
        c.forget(tp)
        c.put(tp, mode=I_(NORMAL), fix=I_(0))
    return UNIT


def k_build_last(c, nv):
    """last_leaf_edge; an empty leaf is the beginning of a tree under construction"""
    nd = Nd(nv)
    if c.mode(nd.tp) == NORMAL and c.I.need_le(c.st, c.num(nd.tp, N_), 0) and c.I.need_le(c.st, c.num(nd.tp, TR.H_), 0):
        c.I.deep = True      # the first rounds of a building loop never fill a node
        c.put(nd.tp, mode=I_(BUILD), fix=I_(0))
    return k_outer(True)(c, nv)


NEXT = ('Iterator', 'next')
ITEM = ('v', ('u', NEXT, VIDX), 1, 0)


def items_seq(n):
    """keys and values of the first n items of the iterator"""
    return tuple((((L(0), n, ('S', ('f', ITEM, i), ty)),), n) for i, ty in ((0, KT), (1, VT)))


def building(m):
    m.I.any_mode = True
    m.I.own.update(fix_top=k_top, fix_right_edge=k_right_edge, last_leaf_edge=k_build_last, first_leaf_edge=k_outer(False))
    m.I.split_flags, m.I.max_heads, m.I.project = True, 16, True


@case('BTreeMap::from_sorted_iter', mapfn('from_sorted_iter'), dict(BULK, ret='C32'), cfgs=UN, public=False)
def _(f, cfg):
    def su(m):
        building(m)
        m.run.mp = m.map(shared=True)
        return [m.run.mp, ('S', ('u', 'iter'), ('adt', 'I', ()))]
    run = mk(f, cfg, su, env=dict(ENVQ, I=('adt', 'I', ())))

    def spec(I, kind, s, v):
        n = T.tree_of(I, s, run.mp)[1][N_][1]
        o = content(I, s, run.mp, *items_seq(n))
        k = count(I, s, NEXT)
        if not I.need_eq(s, k, n + 1) and not (kind == 'unw' and I.need_eq(s, k, n)):
            o.append(('content', 'the number of entries differs from the number of items the iterator produced'))
        return unwound(o) if kind == 'unw' else o
    return run, spec


# ---------------------------------------------------------------- merging

LK, RK = (('S', ('u', x + 'key'), KT) for x in 'lr')
LI, RI = (T.tup(k, ('S', ('u', x + 'val'), VT)) for x, k in (('l', LK), ('r', RK)))
PEEKS = (('not looked at', lambda it: NONE), ('none left', lambda it: TR.some(NONE)), ('known', lambda it: TR.some(TR.some(it))))


def gives(I, fr, st, what, arg):
    """the iterators: each has at most the one item that matters"""
    if what != NEXT:
        return None
    p = arg[0]
    side, it = ('l', LI) if p[2][0] == idx(I, 'left', 'MergeIter') else ('r', RI)
    if happened(I, st, side + 'next'):
        I.tick(st, side + 'again')
    I.tick(st, side + 'next')
    a, b = st.copy(), st.copy()
    I.tick(b, side + 'some')
    I.tick(st, side + 'none')
    return [('ret', st, NONE), ('ret', b, TR.some(it)), ('unw', a, None)]


def merge_case(ln, lp, rn, rp):
    @case('MergeIter::next, left %s, right %s' % (ln, rn), tfn('next', 'MergeIter', 'Iterator'), dict(BULK, ret=('C32', 'C22')), cfgs=UN, public=False)
    def _(f, cfg):
        def su(m):
            I = m.I
            sides = [('A', 'Peekable', 0, (('S', ('u', x + 'iter'), ('adt', 'I', ())), pk(it)))
                     for x, pk, it in (('l', lp, LI), ('r', rp, RI))]
            o = ('o', ('merge',), ('adt', '#M', ()))
            m.st.mem[o] = struct(I, 'MergeIter', left=sides[0], right=sides[1])
            m.run.p = ('P', o, ())
            for k, r in ((LK, 'rl'), (RK, 'rr')):
                I.ranks[k[1]] = (V(r), ('sym', ('found', r)))
                I.rng[r] = (0, TR.BIG)
            I.pairs.add((LK[1], RK[1]))
            return [m.run.p]
        run = mk(f, cfg, su, env=dict(ENVQ, I=('adt', 'I', ()), **{'I::Item': ('tuple', (KT, VT))}), hooks={'user': gives})

        def spec(I, kind, s, v):
            mv = I.deref_val(s, run.p)
            have, left = [], []
            for x, pn, it, fl in (('l', ln, LI, 'left'), ('r', rn, RI, 'right')):
                # what this side has to give: an item, nothing, or not known since it was never asked
                have.append({'none left': False, 'known': True}.get(pn, True if happened(I, s, x + 'some') else
                                                                    False if happened(I, s, x + 'none') else None))
                left.append(I.force(s, fld(I, mv, fl)[3][1]))
                if happened(I, s, x + 'again') or pn != 'not looked at' and happened(I, s, x + 'next') and kind != 'unw' and \
                        pn == 'known':
                    return [('ret', 'takes more than one item from the %s side' % fl)]

            def still(j):
                """side j still has its item, or knows that there is none, or was not asked"""
                p = left[j]
                if have[j] is None:
                    return p == NONE
                if p[2] != 1:
                    return not have[j]          # asking again gives nothing again
                q = I.force(s, p[3][0])
                return (q[2] == 1) == have[j] and (not have[j] or same_val(I, s, q[3][0], (LI, RI)[j]))
            if kind == 'unw':
                # of equal keys the left item may be gone already: it is dropped anyway
                gone = I.truth(s, ('sym', ('same', LK[1], RK[1]))) is True
                return [('unw', None if (gone or still(0)) and still(1) else 'an item is lost when user code panics')]
            v = I.force(s, v)
            if None in have:
                return [('ret', 'does not look at both sides')]
            got = None if v[2] == 0 else v[3][0]
            if have == [False, False]:
                return [('ret', None if got is None else 'yields an item after the end')]
            if have[0] and have[1]:
                eq_, lt = (I.truth(s, ('sym', (x, LK[1], RK[1]))) for x in ('same', 'less'))
                if eq_ is None or not eq_ and lt is None:
                    return [('ret', 'yields an item without comparing the keys')]
                want = 'both' if eq_ else 'l' if lt else 'r'
            else:
                want = 'l' if have[0] else 'r'
            it = LI if want == 'l' else RI
            m = None
            if got is None or not same_val(I, s, got, it):
                m = 'does not yield ' + {'l': 'the item of the left side', 'r': 'the item of the right side',
                                         'both': 'the item of the right side for equal keys'}[want]
            elif want != 'both' and not still(1 if want == 'l' else 0):
                m = 'the item of the other side is lost'
            elif any(p[2] == 1 and I.force(s, p[3][0])[2] == 1 for j, p in enumerate(left) if want in ('both', 'lr'[j])):
                m = 'an item that is gone is yielded again'
            return [('ret', m)]
        return run, spec


for _l in PEEKS:
    for _r in PEEKS:
        merge_case(_l[0], _l[1], _r[0], _r[1])


# ---------------------------------------------------------------- append

def merged(l, r, n):
    """the first n items of the merge of the maps called l and r"""
    return tuple((((L(0), L(n), el(w, ('merge', l, r), VIDX)),), L(n)) for w in 'KV')


def remaining(c, it):
    """name of the map whose whole contents an owning iterator has still to give; the tree"""
    I, st = c.I, c.st
    if it[:2] != ('A', 'IntoIter'):
        raise I.Unsupported('iterator ' + show(it)[:80])
    f, b, ln = Hd(fld(I, it, 'front')), Hd(fld(I, it, 'back')), fld(I, it, 'length')[1]
    t = c.T(f.tp)
    n = t[N_][1]
    if f.tp != b.tp or not (I.need_eq(st, f.a, 0) and I.need_eq(st, b.b, n) and I.need_eq(st, ln, n)):
        raise Unsupported('partly consumed iterator')
    g = [x for x in I.ar_get(st, t[KS_], L(0), n) if not I.need_le(st, x[1], x[0])]
    if not g:
        return None, f.tp, n
    if len(g) != 1 or g[0][2][1][0] != 'el' or g[0][2] != el('K', g[0][2][1][1][1], VIDX):
        raise Unsupported('items ' + show(t[KS_])[:80])
    return g[0][2][1][1][1], f.tp, n


def chained(c, mp, it):
    """one sequence after the other is sorted if the last key of the one is known to be less than the first of the other"""
    I, st = c.I, c.st
    sides = []
    for p in it[3]:
        if p[0] != 'A' or p[2] != 1:
            raise Unsupported('iterator ' + show(p)[:80])
        sides.append(remaining(c, p[3][0]))
    (ln, lt, nl), (rn, rt, nr) = sides
    if ln is not None and rn is not None:
        left = {-1, 0, 1, 2}
        odd = False
        for k, v in list(st.refine.items()):
            rev = lambda x, y: x[0] == y[0] == 'S' and x[1][0] == y[1][0] == 'el' and x[1][1] == ('K', rn) and y[1][1] == ('K', ln)
            q = k[1] if k[0] == 'b' and isinstance(k[1], tuple) and len(k[1]) == 3 else k if k[0] == 'cmp' and len(k) == 3 else None
            if q is None or not (isinstance(q[1], tuple) and isinstance(q[2], tuple) and (rev(q[1], q[2]) or rev(q[2], q[1]))):
                continue
            sg = -1 if rev(q[1], q[2]) else 1
            x, y = (q[1], q[2])[::sg]
            if not (I.need_eq(st, x[1][2] + 1, nl) and I.need_eq(st, y[1][2], 0)):
                continue
            if q[0] in models.CMP_OPS and isinstance(v, bool):
                left = {o for o in left if models.CMP_OPS[q[0]](o if o == 2 else o * sg) == v}
            elif q[0] == 'cmp' and isinstance(v, int):
                left &= {sg * ([I.vindex('Ordering', n) for n in ('Less', 'Equal', 'Greater')].index(v) - 1)}
            else:
                odd = True
        if left != {-1}:
            if odd:
                raise Unsupported('order of the last and the first key')
            I.tick(st, 'unsorted')
    for p in (lt, rt):
        I.store(st, p[1], p[2], ('DEAD',))
    n, h = c.fresh('m'), c.fresh('H', 0, 2 ** 32)
    c.equal(n, nl + nr)
    ks, vs = whole(ln or rn or '', n) if ln is None or rn is None else merged(ln, rn, n)
    return built(c, mp, n, h, ks, vs)


def built(c, mp, n, h, ks, vs):
    outs = []
    for kind in ('unw', 'ret'):
        s = c.st.copy()
        o = c.I.alloc(s, TR.tree_val(n, h, ks[0], vs[0]))
        for field, v in (('root', ('A', 'Root', 0, (('P', o, ()),))), ('length', ('I', n))):
            c.I.store(s, mp[1], mp[2] + (idx(c.I, field),), v)
        outs.append((kind, s, UNIT if kind == 'ret' else None))
    return outs


def k_from_sorted(c, mp, it):
    I, st = c.I, c.st
    m = I.deref_val(st, mp)
    tp = fld(I, m, 'root')[3][0]
    if c.T(tp)[SHARED_][1] is True and it[:2] == ('A', 'Chain'):
        return chained(c, mp, it)
    if c.T(tp)[SHARED_][1] is not True:
        if not I.need_le(st, c.num(tp, N_), 0):
            I.tick(st, 'overfull')      # what is built goes behind the entries that are there
            return [('unw', st.copy(), None), ('ret', st, UNIT)]
        raise Unsupported('building in an empty tree')
    if it[:2] != ('A', 'MergeIter'):
        raise Unsupported('building from ' + show(it)[:80])
    sides = []
    for x in ('left', 'right'):
        p = fld(I, it, x)
        if p[:2] != ('A', 'Peekable') or p[3][1] != NONE:
            raise Unsupported('iterator ' + show(p)[:80])
        sides.append(remaining(c, p[3][0]))
    (ln, lt, nl), (rn, rt, nr) = sides
    for p in (lt, rt):
        I.store(st, p[1], p[2], ('DEAD',))
    n, h = c.fresh('m'), c.fresh('H', 0, 2 ** 32)
    if ln is None or rn is None:
        items = whole(ln or rn or '', n)        # one of them, or nothing
    else:
        items = merged(ln, rn, n)
    outs = []
    for kind in ('unw', 'ret'):
        s = st.copy()
        d = C(I, None, s, None)
        if kind == 'ret':
            d.le(nl, n)
            d.le(nr, n)
        d.le(n, nl + nr)
        ks, vs = items
        o = I.alloc(s, TR.tree_val(n, h, ks[0], vs[0]))
        for field, v in (('root', ('A', 'Root', 0, (('P', o, ()),))), ('length', ('I', n))):
            I.store(s, mp[1], mp[2] + (idx(I, field),), v)
        outs.append((kind, s, UNIT if kind == 'ret' else None))
    return outs


def empty_map(I, s, mp, what):
    return content(I, s, mp, cat(), cat(), what=what)


def append_case(sh, sh2):
    nm = lambda b: 'new' if b else 'any'
    @case('BTreeMap::append, %s map and %s other' % (nm(sh), nm(sh2)), mapfn('append'), BULK, cfgs=UN)
    def _(f, cfg):
        def su(m):
            m.I.own['from_sorted_iter'] = k_from_sorted
            m.run.mp = m.map(shared=sh, n=0 if sh else None)
            m.run.m2 = m.map('2', shared=sh2, n=0 if sh2 else None)
            return [m.run.mp, m.run.m2]
        run = mk(f, cfg, su, env=ENVQ)

        def spec(I, kind, s, v):
            n1, n2 = (L(0) if b else V('n' + x) for b, x in ((sh, ''), (sh2, '2')))
            if kind == 'unw':
                o = [('panic', 'panics' if happened(I, s, 'panic') else None)]
                for mp, what in ((run.mp, 'the map'), (run.m2, 'the other map')):
                    n = T.tree_of(I, s, mp)[1][N_][1]
                    o += [('unw', m) for fc, m in content(I, s, mp, cat(), cat(), what=what) if fc in ('length', 'shape')]
                return o
            if happened(I, s, 'overfull'):
                return [('content', 'builds the merged map in one that still has entries')]
            if happened(I, s, 'unsorted'):
                return [('content', 'puts the entries of the other map behind those of the map although their keys may not be greater')]
            if I.need_le(s, n2, 0):
                e = (cat(), cat()) if sh else whole()
                return content(I, s, run.mp, *e) + empty_map(I, s, run.m2, 'the other map')
            if I.need_le(s, n1, 0):
                return content(I, s, run.mp, *whole('2')) + empty_map(I, s, run.m2, 'the other map')
            n = T.tree_of(I, s, run.mp)[1][N_][1]
            return content(I, s, run.mp, *merged('', '2', n)) + empty_map(I, s, run.m2, 'the other map')
        return run, spec


for _a in (False, True):
    for _b in (False, True):
        append_case(_a, _b)


# ---------------------------------------------------------------- extending

EXT = dict(BULK, content=('C22', 'C32'), ret=('C22', 'C32'), panic='C22')


def k_put(is_item):
    """try_insert, as far as extending goes: which items arrive, in which order"""
    def k(c, p, key, val=None):
        I, st = c.I, c.st
        outs = [('unw', st.copy(), None), c.fail()]
        j = count(I, st, NEXT) - 1
        if not (I.need_eq(st, count(I, st, 'put'), j) and is_item(c, j, key, val)):
            I.tick(st, 'wrong')
        I.tick(st, 'put')
        if val is None:
            b = st.copy()
            return outs + [('ret', st, TR.ok(('B', True))), ('ret', b, TR.ok(('B', False)))]
        b = st.copy()
        return outs + [('ret', st, TR.ok(NONE)), ('ret', b, TR.ok(TR.some(('S', ('u', 'old', I.next_id()), VT))))]
    return k


def yields(item):
    def h(I, fr, st, what, arg):
        if what != NEXT:
            return None
        n = I.tick(st, what)
        v = I.mk(('u', what, n), ('adt', 'core::option::Option', (item,)))
        return [('ret', st, v), ('unw', st.copy(), None)]
    return h


def bare(v):
    """what a value is a copy of"""
    while v[0] == 'S' and v[1][0] in ('clone', '*'):
        v = v[1][1] if v[1][0] == 'clone' else ('S', v[1][1], v[2])
    return v


def is_pair(c, j, key, val):
    it = ('v', ('u', NEXT, j), 1, 0)
    return all(same_val(c.I, c.st, bare(x), ('S', ('f', it, i), bare(x)[2])) for i, x in ((0, key), (1, val)))


def is_elem(c, j, key, val):
    it = ('v', ('u', NEXT, j), 1, 0)
    return (val is None or val == UNIT) and same_val(c.I, c.st, bare(key), ('S', it, bare(key)[2]))


def extend_case(name, find, set_, item, is_item, made=False):
    @case(name, find, EXT, cfgs=UN)
    def _(f, cfg):
        def su(m):
            m.I.own['try_insert'] = k_put(is_item)
            m.I.split_flags, m.I.max_heads, m.I.project = True, 16, True
            it = ('S', ('u', 'items'), f.params[-1][1])
            if made:
                return [it]
            if set_:
                from . import set as S
                sp = S.aset(m)
                m.run.mp = S.inner(m.I, sp)
                return [sp, it]
            m.run.mp = m.map()
            return [m.run.mp, it]
        run = mk(f, cfg, su, env=dict(ENVQ, T=('adt', 'T', ())), hooks={'user': yields(item)})

        def spec(I, kind, s, v):
            if kind == 'unw':
                return [('panic', 'panics without a failing allocation' if happened(I, s, 'panic') and not happened(I, s, 'failed') else None)]
            if happened(I, s, 'wrong'):
                return [('ret', 'inserts something else than the items of the iterator in order')]
            if not I.need_eq(s, count(I, s, 'put') + 1, count(I, s, NEXT)):
                return [('ret', 'does not insert every item of the iterator')]
            return [('ret', 'reports success although an allocation failed' if happened(I, s, 'failed') else None)]
        return run, spec


def ext(ty, ref):
    return fn('extend', module=None, cond=lambda f: f.impl is not None and f.impl.trait == 'Extend' and mir.last(f.impl.self_ty[1]) == ty
              and '{closure' not in f.name and ("'ref'" in str(f.impl.trait_args)) == ref)


def from_(ty):
    return fn('from_iter', module=None, cond=lambda f: f.impl is not None and f.impl.trait == 'FromIterator' and mir.last(f.impl.self_ty[1]) == ty)


TT = ('adt', 'T', ())


def ref_to(t):
    return ('ref', False, t)


extend_case('BTreeMap::extend', ext('BTreeMap', False), False, ('tuple', (KT, VT)), is_pair)
extend_case('BTreeMap::extend by reference', ext('BTreeMap', True), False, ('tuple', (ref_to(KT), ref_to(VT))), is_pair)
extend_case('BTreeSet::extend', ext('BTreeSet', False), True, TT, is_elem)
extend_case('BTreeSet::extend by reference', ext('BTreeSet', True), True, ref_to(TT), is_elem)
extend_case('BTreeMap::from_iter', from_('BTreeMap'), False, ('tuple', (KT, VT)), is_pair, True)
extend_case('BTreeSet::from_iter', from_('BTreeSet'), True, TT, is_elem, True)


# ---------------------------------------------------------------- sets: the same, done by the map inside

def wrap_case(name, method, trait=None, other=False, key=False, result=None, tr=None, inner_name=None):
    """the set's operation is the map's, applied to the map inside; result: what comes back (a map or nothing)"""
    @case(name, fn(method, module=None, cond=lambda f: f.impl is not None and f.impl.trait == tr and mir.last(f.impl.self_ty[1]) == 'BTreeSet'
                   and not f.name.endswith('}')), EXT, cfgs=UN)
    def _(f, cfg):
        from . import set as S

        def su(m):
            sp = S.aset(m)
            run = m.run
            run.mp, run.m2 = S.inner(m.I, sp), None
            args = [sp]
            if other:
                s2 = S.aset(m, name='2')
                run.m2 = S.inner(m.I, s2)
                args.append(s2)
            if key:
                run.key = m.key(ty=QT)
                args.append(run.key)

            def k(c, p, *a):
                good = p == run.mp and len(a) == (1 if other or key else 0)
                if good and other:
                    good = a[0] == run.m2
                if good and key:
                    good = TR.key_id(c, a[0]) == TR.key_id(c, run.key)
                c.I.tick(c.st, 'done' if good else 'wrong')
                outs = [('unw', c.st.copy(), None)]
                r = UNIT
                if result:
                    o = c.I.alloc(c.st, TR.tree_val(V('m'), V('mh'), ((L(0), V('m'), el('K', 'new', VIDX)),), ((L(0), V('m'), el('V', 'new', VIDX)),)))
                    r = struct(c.I, 'BTreeMap', root=('A', 'Root', 0, (('P', o, ()),)), length=('I', V('m')))
                    run.made = r
                    if result == 'fallible':
                        outs.append(c.fail())
                        r = TR.ok(r)
                return outs + [('ret', c.st, r)]
            m.I.rng['m'] = (0, TR.BIG)
            m.I.rng['mh'] = (0, 2 ** 31)
            m.I.own[inner_name or method] = k
            return args
        run = mk(f, cfg, su, env=dict(S.ENVS))

        def spec(I, kind, s, v):
            if happened(I, s, 'wrong') or kind == 'ret' and not I.need_eq(s, count(I, s, 'done'), 1):
                return [('ret', 'does something else than the same operation of the map inside')]
            if kind == 'unw':
                return [('panic', 'panics' if happened(I, s, 'panic') else None)]
            if result == 'fallible':
                e, v = is_err(I, s, v)
                if e != happened(I, s, 'failed'):
                    return [('surface', 'reports success or failure wrongly')]
                if e:
                    return [('surface', None)]
            m = None
            if result and v[3][idx(I, 'map', 'BTreeSet')] != run.made:
                m = 'does not hand out the set the operation made'
            return [('ret', m)]
        return run, spec


wrap_case('BTreeSet::append', 'append', other=True)
wrap_case('BTreeSet::try_split_off', 'try_split_off', key=True, result='fallible', inner_name='split_off')
wrap_case('BTreeSet::clone', 'clone', result='plain', tr='Clone')
