"""B-tree map operations over an abstract tree of any size and height (sa/tree.py).

The map under analysis has N items: key K[i] with value V[i], in order; the searched key has rank r (the number of smaller
keys) and is either K[r] or absent."""
import re
from .common import *
from .. import tree as TR
from ..tree import (TreeInterp, tree_val, node_val, handle_val, el, Nd, Hd, C, NORMAL, RB, LB, BUILD, EMPTYSPINE, FREE,
                    N_, H_, KS_, VS_, SHARED_, EXC_, MODE_, FIX_, NULLP)
from ..node import struct, fld

UN = ('unstable',)
KT, VT, QT = ('adt', 'K', ()), ('adt', 'V', ()), ('adt', 'Q', ())
MAPT = ('adt', 'BTreeMap', (KT, VT))
n_, r_ = V('n'), V('r')


def ONE(x):
    return ((L(0), L(1), x),), L(1)


def cat(*ps):
    return concat(*ps)


class M:
    """set-up helper"""

    def __init__(self, run):
        self.run, self.I, self.st = run, run.I, run.st
        self.I.rng.setdefault('n', (0, TR.BIG))
        self.I.rng.setdefault('h', (0, 2 ** 32))

    def tree(self, name='', shared=False, n=None, h=None, mode=NORMAL, fix=0, room=-1):
        n = V('n' + name) if n is None else L(n)
        h = V('h' + name) if h is None else L(h)
        if not shared:
            self.I.rng.setdefault('n' + name, (0, TR.BIG))
            self.I.rng.setdefault('h' + name, (0, 2 ** 32))
            v = tree_val(n, h, ((L(0), n, el('K', name, VIDX)),), ((L(0), n, el('V', name, VIDX)),), mode=mode, fix=fix, room=room)
        else:
            v = tree_val(0, 0, (), (), True)
        o = ('o', ('tree', name), ('adt', '#Tree', ()))
        self.st.mem[o] = v
        return ('P', o, ())

    def map(self, name='', shared=False, length=None, tree=None, **kw):
        tp = tree or self.tree(name, shared, **kw)
        n = self.st.mem[tp[1]][3][N_]
        v = struct(self.I, 'BTreeMap', root=('A', 'Root', 0, (tp,)), length=n if length is None else ('I', L(length)))
        o = ('o', ('map', name), MAPT)
        self.st.mem[o] = v
        return ('P', o, ())

    def key(self, name='key', by='ref', ty=QT, rank=None, found=None):
        """the key to look for; its rank in the (unnamed) tree is r, found is a predicate"""
        v = ('S', ('u', name), ty)
        self.I.rng.setdefault('r', (0, TR.BIG))
        f = self.st.facts.add_ge(n_ - r_, self.I.nn)
        self.st.facts = f
        self.I.ranks[v[1]] = (r_ if rank is None else rank, ('sym', ('found', name)) if found is None else found)
        tp = ('P', ('o', ('tree', ''), ('adt', '#Tree', ())), ())
        self.I.searched = self.st.mem[tp[1]][3][KS_]
        if by == 'val':
            return v
        o = ('o', ('keyvar', name), ty)
        self.st.mem[o] = v
        return ('P', o, ())

    def ref(self, v):
        return ('P', self.I.alloc(self.st, v), ())


def mk(f, cfg, setup, **kw):
    def su(run):
        run.args = setup(M(run))
    return Run(f, cfg, cls=TreeInterp, args=[], setup=su, **kw)


def fn(method, module='btree::map', cond=None, n=None, **kw):
    def find(p):
        return [f for f in p.find(method=method, module=module, **kw)
                if (cond is None or cond(f)) and (n is None or len(f.params) == n)]
    return find


def mapfn(method, n=None):
    """a method of BTreeMap itself (no trait)"""
    return fn(method, n=n, cond=lambda f: f.impl is not None and f.impl.trait is None
              and mir.last(f.impl.self_ty[1]) == 'BTreeMap')


def tfn(method, ty, trait=None, cond=None):
    def c(f):
        if f.impl is None:
            return False
        t = f.impl.self_ty
        while t[0] == 'ref':
            t = t[2]
        if t[0] != 'adt' or mir.last(t[1]) != ty:
            return False
        tr = f.impl.trait
        if trait is None:
            return tr is None and (cond is None or cond(f))
        return tr is not None and mir.last(tr[1] if isinstance(tr, tuple) else tr) == trait and (cond is None or cond(f))
    return fn(method, cond=c)


# ---------------------------------------------------------------- reading exit states

def tree_of(I, s, mp):
    m = I.deref_val(s, mp) if mp[0] == 'P' else mp
    rt = fld(I, m, 'root')
    if rt == X:
        raise Bad('moved', 'the root of the map was moved out')
    tp = rt[3][0]
    t = I.load(s, tp[1], tp[2])
    if t == ('DEAD',) or t == X:
        raise Bad('dangling', 'the map refers to a tree that was freed')
    return tp, t[3], fld(I, m, 'length')[1]


def content(I, s, mp, ks, vs, facet='content', what='the map'):
    """the map holds exactly these items, its length is right and its nodes are well filled"""
    tp, t, ln = tree_of(I, s, mp)
    n = t[N_][1]
    out = []
    m = None
    for w, e, nm in ((KS_, ks, 'keys'), (VS_, vs, 'values')):
        r = same_seq(I, s, I.ar_get(s, t[w], L(0), n), n, e[0], e[1])
        if r:
            m = m or 'the %s of %s: %s' % (nm, what, r)
    out.append((facet, m))
    out.append(('length', None if I.need_eq(s, ln, n) else 'the length of %s is %r but it has %r entries' % (what, ln, n)))
    out.append(('shape', wellformed(I, s, tp)))
    return out


def wellformed(I, s, tp):
    t = I.load(s, tp[1], tp[2])[3]
    c = C(I, None, s, None)
    if I.truth(s, t[SHARED_][1]) is True:
        return None
    TR.settle(c, tp)
    for h, a, b, n in c.excs(tp):
        if c.is_root(tp, h) and (I.need_le(s, h, 0) or I.need_le(s, 1, n)):
            continue
        if I.need_le(s, TR.MIN, n):
            continue
        return 'a node is left with too few entries :: height %r, %r entries' % (h, n)
    m = c.mode(tp)
    if m == NORMAL:
        return None
    if m in (RB, LB) and I.need_le(s, t[FIX_][1], 0):
        if I.need_le(s, t[H_][1], 0) or I.need_le(s, 1, c.nlen(tp, t[H_][1], L(0), t[N_][1])):
            return None
        return 'the root has no entry'
    if m in (EMPTYSPINE,) and I.need_le(s, t[H_][1], 0):
        return None
    return 'the nodes at the border of the tree are not refilled'


def whole(name='', n=None):
    n = V('n' + name) if n is None else n
    return (((L(0), n, el('K', name, VIDX)),), n), (((L(0), n, el('V', name, VIDX)),), n)


def part(a, b, name=''):
    a, b = L(a), L(b)
    return ((((L(0), b - a, shift_t(el('K', name, VIDX), a)),), b - a),
            (((L(0), b - a, shift_t(el('V', name, VIDX), a)),), b - a))


def shift_t(t, a):
    return shift((L(0), L(0), t), -a)[2]


def same_map(I, s, mp, facet='unchanged', name='', shared=False):
    if shared:
        return content(I, s, mp, cat(), cat(), facet)
    return content(I, s, mp, *whole(name), facet=facet)


def unwound(o):
    """findings about the state user code leaves by panicking"""
    return [('unw' if f in ('content', 'length', 'shape', 'unchanged') else f, m and 'after a panic of user code: ' + m)
            for f, m in o]


def found(I, s, name='key'):
    p = I.ranks[('u', name)][1]
    t = I.truth(s, p)
    if t is None:
        raise NeedFork([p, pnot(p)])
    if t:
        # a key that is present is not the end of the map
        f = s.facts.add_ge(n_ - r_ - 1, I.nn)
        if f is None:
            return None
        s.facts = f
    return t


def itemref(I, s, v, which, pos, tp=None):
    """v must be a reference to the key/value at pos in the tree"""
    if v[0] != 'P':
        v = I.force(s, v)
    if v[0] != 'P':
        raise Unsupported('not a reference: ' + show(v))
    w = KS_ if which == 'K' else VS_
    p = v[2]
    if v[1][1][0:1] != ('tree',) or len(p) != 2 or p[0] != w:
        return 'returns a reference to something else'
    if not I.need_eq(s, p[1][1], pos):
        return 'returns a reference to entry %r instead of %r' % (p[1][1], pos)
    return None


# ---------------------------------------------------------------- lookup

SEARCH = {'ret': 'C26', 'unchanged': 'C26', 'content': 'C26', 'length': 'C21', 'shape': 'C26', 'alloc': 'C14', 'unw': 'C36',
          'panic': 'C26'}


def lookup(name, find, post, mut=False, panics=False, extra_set=False):
    @case(name, find, SEARCH, cfgs=UN)
    def _(f, cfg):
        out = []
        for sh in (False, True):
            def su(m, sh=sh):
                mp = m.map(shared=sh, n=0 if sh else None)
                m.run.mp = mp
                return [mp, m.key()]
            run = mk(f, cfg, su, env=ENVQ)
            run.tag = 'shared' if sh else 'owned'

            def spec(I, kind, s, v, run=run, sh=sh):
                if sh:
                    s.facts = s.facts.add_ge(-n_, I.nn)
                    fd = False
                    if I.truth(s, ('sym', ('found', 'key'))) is True:
                        return []
                else:
                    fd = found(I, s)
                if fd is None:
                    return []
                o = same_map(I, s, run.mp, shared=sh)
                if kind == 'unw':
                    return [('panic', 'panics' if happened(I, s, 'panic') else None)] + unwound(o)
                return o + [('ret', post(I, s, v, fd))]
            out.append((run, spec))
        return out


ENVQ = {'K': KT, 'V': VT, 'Q': QT}


def p_get(I, s, v, fd):
    v = I.force(s, v)
    if not fd:
        return None if v[2] == 0 else 'finds an entry for a key that is absent'
    if v[2] != 1:
        return 'does not find a key that is present'
    return itemref(I, s, v[3][0], 'V', r_)


def p_kv(I, s, v, fd):
    v = I.force(s, v)
    if not fd:
        return None if v[2] == 0 else 'finds an entry for a key that is absent'
    if v[2] != 1:
        return 'does not find a key that is present'
    return itemref(I, s, v[3][0][3][0], 'K', r_) or itemref(I, s, v[3][0][3][1], 'V', r_)


def p_bool(I, s, v, fd):
    t = I.truth(s, v[1])
    if t is None:
        raise NeedFork([v[1], pnot(v[1])])
    return None if t == fd else 'reports %s for a key that is %s' % (t, 'present' if fd else 'absent')


def p_key(I, s, v, fd):
    v = I.force(s, v)
    if not fd:
        return None if v[2] == 0 else 'finds an entry for a key that is absent'
    if v[2] != 1:
        return 'does not find a key that is present'
    return itemref(I, s, v[3][0], 'K', r_)


lookup('BTreeMap::get', mapfn('get'), p_get)
lookup('BTreeMap::get_key_value', mapfn('get_key_value'), p_kv)
lookup('BTreeMap::contains_key', mapfn('contains_key'), p_bool)
lookup('BTreeMap::get_mut', mapfn('get_mut'), p_get)
lookup('BTreeMap Recover::get', tfn('get', 'BTreeMap', 'Recover'), p_key)


# ---------------------------------------------------------------- the search itself

def stree(name, leaf, present):
    @case('search_tree, %s, key %s' % (name, 'present' if present else 'absent'), fn('search_tree', module='btree::search'), SEARCH, cfgs=UN, public=False)
    def _(f, cfg):
        def su(m):
            tp = m.tree(h=0 if leaf else None)
            if not leaf:
                m.I.rng['h'] = (1, 2 ** 31)
            m.run.mp = m.map(tree=tp)
            k = m.key(found=present)
            c = C(m.I, None, m.st, None)
            if present:
                c.le(r_ + 1, n_)
            return [c.node(tp, c.num(tp, H_), L(0), n_), k]
        run = mk(f, cfg, su, env=ENVQ)

        def spec(I, kind, s, v):
            fd = found(I, s)
            if fd is None:
                return []
            o = same_map(I, s, run.mp)
            if kind == 'unw':
                return [('panic', 'panics' if happened(I, s, 'panic') else None)] + unwound(o)
            v = I.force(s, v)
            h = Hd(v[3][0])
            if v[2] != I.vindex('SearchResult', 'Found' if fd else 'GoDown') or h.kv != fd:
                return o + [('ret', 'reports a key that is %s as %s' % (('present', 'absent') if fd else ('absent', 'present')))]
            m = None
            if not I.need_eq(s, h.a, r_):
                m = 'ends at entry %r instead of %r' % (h.a, r_)
            elif not fd and not I.need_le(s, h.node.h, 0):
                m = 'does not end at a leaf'
            return o + [('ret', m)]
        return run, spec


for _pr in (True, False):
    stree('root leaf', True, _pr)
    stree('tree', False, _pr)


@case('search_linear', fn('search_linear', module='btree::search'), SEARCH, cfgs=UN, public=False)
def _(f, cfg):
    def su(m):
        tp = m.tree()
        m.run.mp = m.map(tree=tp)
        k = m.key()
        for x in ('ls', 'lt'):
            m.I.rng[x] = (0, TR.BIG)
        m.I.rng['lh'] = (0, 2 ** 31)
        c = C(m.I, None, m.st, None)
        m.I.rng['nn'] = (0, 11)
        nv = node_val(tp, V('lh'), V('ls'), V('lt'), V('nn'))
        m.run.n = V('nn')
        m.I.rng['nr'] = (0, 11)
        c.le(V('nr'), m.run.n)
        kv = m.I.deref_val(m.st, k)
        m.I.noderanks[kv[1]] = (V('nr'), ('sym', ('found', 'key')))
        return [m.ref(nv), k]
    run = mk(f, cfg, su, env=ENVQ)

    def spec(I, kind, s, v):
        p = ('sym', ('found', 'key'))
        t = I.truth(s, p)
        if t is None:
            raise NeedFork([p, pnot(p)])
        if t:
            # a key that is present is one of the node's
            f_ = s.facts.add_ge(run.n - V('nr') - 1, I.nn)
            if f_ is None:
                return []
            s.facts = f_
        o = same_map(I, s, run.mp)
        if kind == 'unw':
            return [('panic', 'panics' if happened(I, s, 'panic') else None)] + unwound(o)
        ok_ = I.need_eq(s, v[3][0][1], V('nr')) and I.truth(s, v[3][1][1]) == t
        return o + [('ret', None if ok_ else 'returns %r, %s for a key with %r smaller ones in the node that is %s' % (
            v[3][0][1], I.truth(s, v[3][1][1]), V('nr'), 'present' if t else 'absent'))]
    return run, spec


# ---------------------------------------------------------------- construction and size

NEW = {'content': ('C26', 'C21'), 'length': 'C21', 'shape': 'C24', 'alloc': 'C14', 'panic': 'C14'}


@case('BTreeMap::new', mapfn('new'), NEW, cfgs=UN)
def _(f, cfg):
    def su(m):
        return []
    run = mk(f, cfg, su, env=ENVQ)

    def spec(I, kind, s, v):
        if kind == 'unw':
            return [('panic', 'panics')]
        return content(I, s, v, cat(), cat())
    return run, spec


def sized(name, find, what):
    @case(name, find, dict(NEW, ret='C21'), cfgs=UN)
    def _(f, cfg):
        def su(m):
            m.run.mp = m.map()
            return [m.run.mp]
        run = mk(f, cfg, su, env=ENVQ)

        def spec(I, kind, s, v):
            if kind == 'unw':
                return [('panic', 'panics')]
            o = content(I, s, run.mp, *whole())
            if what == 'len':
                return o + [('ret', None if I.need_eq(s, v[1], n_) else 'returns %r for a map of n entries' % (v[1],))]
            t = I.truth(s, v[1])
            if t is None:
                raise NeedFork([v[1], pnot(v[1])])
            return o + [('ret', None if t == I.need_le(s, n_, 0) else 'is wrong')]
        return run, spec


sized('BTreeMap::len', mapfn('len'), 'len')
sized('BTreeMap::is_empty', mapfn('is_empty'), 'is_empty')


# ---------------------------------------------------------------- insertion

INS = {'content': ('C31', 'C22'), 'ret': 'C31', 'length': 'C21', 'shape': ('C24', 'C35'), 'alloc': 'C01', 'surface': ('C20', 'C02'),
       'unchanged': 'C20', 'panic': 'C24', 'unw': 'C36'}


def leaf_edge(m, tp, p):
    """a symbolic leaf edge at position p"""
    c = C(m.I, None, m.st, None)
    s, t = V('ls'), V('lt')
    m.I.rng['ls'] = m.I.rng['lt'] = (0, TR.BIG)
    for e in (p - s, t - p, c.num(tp, N_) - t):
        c.ge(e)
    return c, s, t


def tick_failed(I, s):
    return happened(I, s, 'failed')


def inserted():
    k, v = ONE(('S', ('u', 'key'), KT)), ONE(('S', ('u', 'val'), VT))
    a, b = part(0, r_), part(r_, n_)
    return cat(a[0], k, b[0]), cat(a[1], v, b[1])


VAL = ('S', ('u', 'val'), VT)


def vacant(m, leaf):
    """a vacant entry for an absent key of rank r"""
    tp = m.tree(h=0 if leaf else None)
    mp = m.run.mp = m.map(tree=tp)
    if not leaf:
        m.I.rng['h'] = (1, 2 ** 31)
    k = m.key(by='val', ty=KT)
    rootp = ('P', mp[1], (idx(m.I, 'root'),))
    c = C(m.I, None, m.st, None)
    if leaf:
        s, t = L(0), n_
    else:
        s, t = V('ls'), V('lt')
        m.I.rng['ls'] = m.I.rng['lt'] = (0, TR.BIG)
        c.le(s, r_)
        c.le(r_, t)
        c.le(t, n_)
    hd = handle_val(c.node(tp, L(0), s, t, rootp), r_, r_, r_ - s, False)
    ln = ('P', mp[1], (idx(m.I, 'length'),))
    return struct(m.I, 'VacantEntry', key=k, handle=hd, length=ln)


def occupied(m, where):
    """an occupied entry for the key at position r; where: 'root leaf', 'leaf', 'root', 'internal'"""
    tp = m.tree(h=0 if where == 'root leaf' else None)
    mp = m.run.mp = m.map(tree=tp)
    if where != 'root leaf':
        m.I.rng['h'] = (1, 2 ** 31)
    m.I.rng['r'] = (0, TR.BIG)
    rootp = ('P', mp[1], (idx(m.I, 'root'),))
    c = C(m.I, None, m.st, None)
    c.le(r_ + 1, n_)
    if where == 'root leaf':
        h, s, t, i = L(0), L(0), n_, r_
    else:
        s, t = V('ls'), V('lt')
        m.I.rng['ls'] = m.I.rng['lt'] = (0, TR.BIG)
        i = V('li')
        m.I.rng['li'] = (0, 10)
        if where == 'root':
            h, s, t = V('h'), L(0), n_
        else:
            c.le(s, r_)
            c.le(r_ + 1, t)
            c.le(t, n_)
            if where == 'leaf':
                h, i = L(0), r_ - s
            else:
                m.I.rng['lh'] = (1, 2 ** 31)
                h = V('lh')
                c.le(h + 1, V('h'))
    nd = c.node(tp, h, s, t, rootp)
    if where in ('root', 'internal'):
        c.le(i + 1, Nd(nd).n)
    hd = handle_val(nd, r_, r_, i, True)
    return struct(m.I, 'OccupiedEntry', handle=hd, length=('P', mp[1], (idx(m.I, 'length'),)))


WHERE = ('root leaf', 'leaf', 'root', 'internal')
OCC = lambda w: ('occupied ' + w, lambda m: (occupied(m, w), True))
VAC = lambda l: ('vacant ' + ('root leaf' if l else 'leaf'), lambda m: (vacant(m, l), False))
OCCS = [OCC(w) for w in WHERE]
VACS = [VAC(True), VAC(False)]


def entry_case(name, find, kinds, post, args=lambda m: [], ref=False, wrap=False, facets=INS, env=None, unw='user', **kw):
    """post(I, s, v, occ, run) -> findings of a normal exit; unw: 'no' / 'user' (only user code may unwind)"""
    for tag, make in kinds:
        entry_one(name + ', ' + tag, find, make, post, args, ref, wrap, facets, env, unw, kw)


def entry_one(name, find, make, post, args, ref, wrap, facets, env, unw, kw):
    @case(name, find, facets, cfgs=UN)
    def _(f, cfg):
        box = {}

        def su(m):
            e, occ = make(m)
            box['occ'] = occ
            if wrap:
                e = ('A', 'Entry', m.I.vindex('Entry', 'Occupied' if occ else 'Vacant'), (e,))
            return [m.ref(e) if ref else e] + args(m)
        run = mk(f, cfg, su, env=dict(ENVQ, **(env or {})), **kw)

        def spec(I, kind, s, v):
            if kind == 'unw':
                return [('panic', 'panics' if happened(I, s, 'panic') else None)] + (
                    unwound(same_map(I, s, run.mp)) if unw == 'user' else unwound(unw(I, s, run)) if unw != 'no'
                    else [('panic', 'unwinds')])
            return post(I, s, v, box['occ'], run)
        return run, spec


def p_ins(I, s, v, occ, run):
    return ins_result(I, s, v, run.mp)


entry_case('VacantEntry::try_insert', tfn('try_insert', 'VacantEntry'), VACS, p_ins, lambda m: [VAL], unw='no')


def p_vkey(I, s, v, occ, run):
    return same_map(I, s, run.mp) + [('ret', None if same_val(I, s, v, KEYV) else 'returns something else than the key')]


KEYV = ('S', ('u', 'key'), KT)


def same_val(I, s, v, exp):
    if v[0] == 'P':
        v = I.deref_val(s, v)
    return I.same(s, v, exp)


entry_case('VacantEntry::key', tfn('key', 'VacantEntry'), VACS, p_vkey, ref=True, unw='no')
entry_case('VacantEntry::into_key', tfn('into_key', 'VacantEntry'), VACS, p_vkey, unw='no')


def p_item(which):
    def p(I, s, v, occ, run):
        return same_map(I, s, run.mp) + [('ret', itemref(I, s, v, which, r_))]
    return p


entry_case('OccupiedEntry::key', tfn('key', 'OccupiedEntry'), OCCS, p_item('K'), ref=True, unw='no')
for _n in ('get', 'get_mut'):
    entry_case('OccupiedEntry::' + _n, tfn(_n, 'OccupiedEntry'), OCCS, p_item('V'), ref=True, unw='no')
entry_case('OccupiedEntry::into_mut', tfn('into_mut', 'OccupiedEntry'), OCCS, p_item('V'), unw='no')


def replaced():
    ks = whole()[0]
    a, b = part(0, r_), part(r_ + 1, n_)
    return ks, cat(a[1], ONE(VAL), b[1])


def p_occ_insert(I, s, v, occ, run):
    return content(I, s, run.mp, *replaced()) + [
        ('ret', None if I.same(s, v, el('V', '', r_)) else 'does not return the previous value')]


entry_case('OccupiedEntry::insert', tfn('insert', 'OccupiedEntry'), OCCS, p_occ_insert, lambda m: [VAL], ref=True, unw='no')

REM = dict(INS, content=('C35', 'C22'), ret='C35', unchanged='C35')


def removed():
    a, b = part(0, r_), part(r_ + 1, n_)
    return cat(a[0], b[0]), cat(a[1], b[1])


def p_remove(pair):
    def p(I, s, v, occ, run):
        exp = ('A', 'tuple', 0, (el('K', '', r_), el('V', '', r_))) if pair else el('V', '', r_)
        got = v
        if pair:
            ok_ = I.same(s, v[3][0], exp[3][0]) and I.same(s, v[3][1], exp[3][1])
        else:
            ok_ = I.same(s, v, exp)
        return content(I, s, run.mp, *removed()) + [('ret', None if ok_ else 'does not return the removed entry')]
    return p


entry_case('OccupiedEntry::remove_entry', tfn('remove_entry', 'OccupiedEntry'), OCCS, p_remove(True), facets=REM, unw='no')
entry_case('OccupiedEntry::remove', tfn('remove', 'OccupiedEntry'), OCCS, p_remove(False), facets=REM,
           unw=lambda I, s, run: content(I, s, run.mp, *removed()))


# ---------------------------------------------------------------- operations of the map itself

def both(name, find, facets, args, post, unw=None, env=None, shareds=(False, True), ty=QT, by='ref', **kw):
    """an operation on a map with a key of rank r, for a map of any size and for one that still shares the empty root.
    post(I, s, v, fd, run) -> findings; unw(I, s, run) -> findings, default: unchanged"""
    for sh in shareds:
        one_of(name + (', new map' if sh else ''), find, facets, args, post, unw, env, sh, ty, by, kw)


def one_of(name, find, facets, args, post, unw, env, sh, ty, by, kw):
    @case(name, find, facets, cfgs=UN)
    def _(f, cfg):
        def su(m):
            mp = m.run.mp = m.map(shared=sh, n=0 if sh else None)
            return [mp] + args(m, m.key(by=by, ty=ty))
        run = mk(f, cfg, su, env=dict(ENVQ, **(env or {})), **kw)
        run.sh = sh

        def spec(I, kind, s, v):
            if sh:
                f_ = s.facts.add_ge(-n_, I.nn)
                if f_ is None:
                    return []
                s.facts = f_
                fd = False
                if I.truth(s, ('sym', ('found', 'key'))) is True:
                    return []
            else:
                fd = found(I, s)
            if fd is None:
                return []
            if kind == 'unw':
                o = [('panic', 'panics' if happened(I, s, 'panic') else None)]
                return o + unwound(unw(I, s, run) if unw else same(I, s, run))
            return post(I, s, v, fd, run)
        return run, spec


def same(I, s, run, **kw):
    """the map is as it was (a new map may own an empty leaf by now)"""
    if run.sh:
        return content(I, s, run.mp, cat(), cat(), 'unchanged')
    return same_map(I, s, run.mp, **kw)


def fallible(I, s, v, run, success):
    """reports success exactly when no allocation failed; a failure changes nothing"""
    e, p = is_err(I, s, v)
    fl = tick_failed(I, s)
    out = [('surface', None if e == fl else 'reports success or failure wrongly')]
    return out + (same(I, s, run) if e else success(p))


def opt(I, s, v, exp, what):
    """v must be None (exp None) or Some(exp)"""
    v = I.force(s, v)
    if exp is None:
        return None if v[2] == 0 else 'returns something although ' + what
    if v[2] != 1:
        return 'does not return ' + what
    return None if I.same(s, v[3][0], exp) else 'returns something else than ' + what


def p_try_insert(I, s, v, fd, run):
    def success(p):
        if fd:
            return content(I, s, run.mp, *replaced()) + [('ret', opt(I, s, p, el('V', '', r_), 'the previous value'))]
        return content(I, s, run.mp, *inserted()) + [('ret', opt(I, s, p, None, 'the key was absent'))]
    return fallible(I, s, v, run, success)


def u_try_insert(I, s, run):
    """the key that is not needed may panic when it is dropped; the map is unchanged then"""
    return same(I, s, run)


both('BTreeMap::try_insert', mapfn('try_insert'), INS, lambda m, k: [k, VAL], p_try_insert, u_try_insert, by='val', ty=KT)


def p_m_remove(I, s, v, fd, run):
    if not fd:
        return same(I, s, run) + [('ret', opt(I, s, v, None, 'the key is absent'))]
    return content(I, s, run.mp, *removed()) + [('ret', opt(I, s, v, el('V', '', r_), 'the removed value'))]


def changed_or(done):
    """user code unwinds before anything happened, or (a destructor) after everything"""
    def u(I, s, run):
        o = same(I, s, run)
        if run.sh or not any(x for _, x in o):
            return o
        return done(I, s, run)
    return u


both('BTreeMap::remove', mapfn('remove'), REM, lambda m, k: [k], p_m_remove,
     changed_or(lambda I, s, run: content(I, s, run.mp, *removed())))


def p_take(I, s, v, fd, run):
    if not fd:
        return same(I, s, run) + [('ret', opt(I, s, v, None, 'the key is absent'))]
    return content(I, s, run.mp, *removed()) + [('ret', opt(I, s, v, el('K', '', r_), 'the removed key'))]


REC = dict(REM, content=('C35', 'C33', 'C22'), ret=('C35', 'C33'), unchanged=('C35', 'C33'))
both('BTreeMap Recover::take', tfn('take', 'BTreeMap', 'Recover'), REC, lambda m, k: [k], p_take,
     changed_or(lambda I, s, run: content(I, s, run.mp, *removed())))


def p_replace(I, s, v, fd, run):
    def success(p):
        a, b = part(0, r_), part(r_ + 1, n_)
        if fd:
            ks = cat(a[0], ONE(KEYV), b[0])
            return content(I, s, run.mp, ks, whole()[1]) + [('ret', opt(I, s, p, el('K', '', r_), 'the previous key'))]
        ks, vs = inserted()
        vs = cat(part(0, r_)[1], ONE(UNIT), part(r_, n_)[1])
        return content(I, s, run.mp, ks, vs) + [('ret', opt(I, s, p, None, 'the key was absent'))]
    return fallible(I, s, v, run, success)


both('BTreeMap Recover::replace', tfn('replace', 'BTreeMap', 'Recover'), dict(INS, ret=('C31', 'C33'), content=('C31', 'C33', 'C22')),
     lambda m, k: [k], p_replace, by='val', ty=KT)


def p_try_entry(I, s, v, fd, run):
    def success(p):
        out = same(I, s, run)
        p = I.force(s, p)
        tp, t, ln = tree_of(I, s, run.mp)
        if p[2] != I.vindex('Entry', 'Occupied' if fd else 'Vacant'):
            return out + [('ret', 'the entry is %s although the key is %s' % (
                'vacant' if fd else 'occupied', 'present' if fd else 'absent'))]
        e = p[3][0]
        h = Hd(fld(I, e, 'handle'))
        m = None
        if h.tp != tp:
            m = 'the entry refers to another tree'
        elif h.kv != fd or not I.need_eq(s, h.a, r_):
            m = 'the entry refers to position %r instead of %r' % (h.a, r_)
        elif not fd and not I.need_le(s, h.node.h, 0):
            m = 'the entry of an absent key is not at a leaf'
        elif fld(I, e, 'length') != ('P', run.mp[1], (idx(I, 'length'),)):
            m = 'the entry does not refer to the length of the map'
        elif not fd and not I.same(s, fld(I, e, 'key'), KEYV):
            m = 'the entry does not hold the key'
        elif h.node.root not in (NULLP, ('P', run.mp[1], (idx(I, 'root'),))):
            m = 'the entry refers to another root'
        return out + [('ret', m)]
    return fallible(I, s, v, run, success)


both('BTreeMap::try_entry', mapfn('try_entry'), INS, lambda m, k: [k], p_try_entry, by='val', ty=KT)


def p_clear(I, s, v, fd, run):
    return content(I, s, run.mp, cat(), cat())


both('BTreeMap::clear', mapfn('clear'), REM, lambda m, k: [], p_clear,
     lambda I, s, run: content(I, s, run.mp, cat(), cat()))


@case('BTreeMap Default::default', tfn('default', 'BTreeMap', 'Default'), NEW, cfgs=UN)
def _(f, cfg):
    run = mk(f, cfg, lambda m: [], env=ENVQ)

    def spec(I, kind, s, v):
        if kind == 'unw':
            return [('panic', 'panics')]
        return content(I, s, v, cat(), cat())
    return run, spec


def p_index(I, s, v, fd, run):
    if not fd:
        return [('ret', 'returns something although the key is absent')]
    return same(I, s, run) + [('ret', itemref(I, s, v, 'V', r_))]


def u_index(I, s, run):
    if happened(I, s, 'panic') and not run.sh and found(I, s):
        return [('ret', 'panics although the key is present')]
    return same(I, s, run)


both('BTreeMap Index::index', tfn('index', 'BTreeMap', 'Index'), {k: v for k, v in SEARCH.items() if k != 'panic'}, lambda m, k: [k], p_index, u_index)


# ---------------------------------------------------------------- entries

def p_or(valid):
    """or_try_insert and the like: the value of an occupied entry is kept, a vacant one is filled"""
    def p(I, s, v, occ, run):
        if not occ:
            return ins_result(I, s, v, run.mp, val=valid)
        e, q = is_err(I, s, v)
        return same_map(I, s, run.mp) + [('ret', 'fails for an occupied entry' if e else itemref(I, s, q, 'V', r_)),
                                         ('ret', 'makes a value although the key is present' if happened(I, s, 'made') else None)]
    return p


KINDS = VACS + OCCS


def gives_val(I, fr, st, what, arg):
    # the closure / Default::default makes the value
    if re.search(r'call|default', str(what)):
        I.tick(st, 'made')
        return [('ret', st, VAL), ('unw', st.copy(), None)]


GV = {'user': gives_val}
entry_case('Entry::or_try_insert', tfn('or_try_insert', 'Entry'), KINDS, p_or(VAL), lambda m: [VAL], wrap=True)
entry_case('Entry::or_try_insert_with', tfn('or_try_insert_with', 'Entry'), KINDS, p_or(VAL),
           lambda m: [('S', ('u', 'f'), ('adt', 'F', ()))], wrap=True, hooks=GV, env={'F': ('adt', 'F', ())})
entry_case('Entry::or_default', tfn('or_default', 'Entry'), KINDS, p_or(VAL), wrap=True, hooks=GV)


def p_ekey(I, s, v, occ, run):
    if occ:
        return same_map(I, s, run.mp) + [('ret', itemref(I, s, v, 'K', r_))]
    return p_vkey(I, s, v, occ, run)


entry_case('Entry::key', tfn('key', 'Entry'), KINDS, p_ekey, wrap=True, ref=True, unw='no')


def ins_result(I, s, v, mp, ref=True, val=VAL):
    e, p = is_err(I, s, v)
    fl = tick_failed(I, s)
    out = [('surface', None if e == fl else 'reports success or failure wrongly')]
    if e:
        return out + same_map(I, s, mp)
    out += content(I, s, mp, *inserted())
    if ref:
        p = p if p[0] == 'P' else I.force(s, p)
        if p[0] == 'P' and p[1][1][0] == 'slot':
            out.append(('ret', None if p[1][1][1] == ('v', repr(I.resolve(s, val))) else
                        'returns a reference to something else than the inserted value'))
        else:
            out.append(('ret', itemref(I, s, p, 'V', r_)))
    return out


def idx(I, field, name='BTreeMap'):
    c = [q for q in I.prog.src.structs if mir.last(q) == name and q.startswith('btree')]
    return [n for n, _ in I.prog.src.structs[c[0]]].index(field)


# ---------------------------------------------------------------- iterators

IT = {'ret': 'C28', 'pos': 'C28', 'len': ('C28', 'C21'), 'unchanged': 'C28', 'length': 'C21', 'shape': 'C24', 'alloc': 'C14',
      'panic': 'C28'}
p_, q_ = V('p'), V('q')


def leaf_at(m, tp, p, nm, leaf):
    c = C(m.I, None, m.st, None)
    if leaf:
        s, t = L(0), c.num(tp, N_)
    else:
        s, t = V(nm + 's'), V(nm + 't')
        m.I.rng[nm + 's'] = m.I.rng[nm + 't'] = (0, TR.BIG)
    for e in (p - s, t - p, c.num(tp, N_) - t, s):
        c.ge(e)
    h = handle_val(c.node(tp, L(0), s, t), p, p, p - s, False)
    m.st.facts = c.st.facts
    return h


def iterstate(m, kind, leaf):
    """an iterator of this kind that has entries [p, q) left"""
    tp = m.tree(h=0 if leaf else None)
    m.run.mp = m.map(tree=tp)
    if not leaf:
        m.I.rng['h'] = (1, 2 ** 31)
    m.I.rng['p'] = m.I.rng['q'] = (0, TR.BIG)
    c = C(m.I, None, m.st, None)
    for e in (q_ - p_, n_ - q_):
        c.ge(e)
    return make_iter(m, kind, leaf_at(m, tp, p_, 'f', leaf), leaf_at(m, tp, q_, 'b', leaf), q_ - p_)


def make_iter(m, kind, f, b, ln):
    I = m.I
    if kind in ('Range', 'RangeMut'):
        return struct(I, kind, front=f, back=b)
    if kind == 'IntoIter':
        return struct(I, kind, front=f, back=b, length=('I', ln))
    if kind in ('Iter', 'IterMut'):
        return struct(I, kind, range=make_iter(m, 'Range' + kind[4:], f, b, ln), length=('I', ln))
    return struct(I, kind, inner=make_iter(m, 'IterMut' if kind == 'ValuesMut' else 'Iter', f, b, ln))


def iter_of(I, v):
    """(front, back, length or None) of an iterator value"""
    k = v[1]
    if k in ('Keys', 'Values', 'ValuesMut'):
        return iter_of(I, fld(I, v, 'inner'))
    if k in ('Iter', 'IterMut'):
        f, b, _ = iter_of(I, fld(I, v, 'range'))
        return f, b, fld(I, v, 'length')[1]
    f, b = fld(I, v, 'front'), fld(I, v, 'back')
    if X in (f, b):
        raise Bad('moved', 'the iterator was moved out')
    return Hd(f), Hd(b), fld(I, v, 'length')[1] if k == 'IntoIter' else None


def iter_is(I, s, v, tp, p, q):
    """the iterator covers exactly [p, q) of the tree"""
    while v[0] == 'P':
        v = I.deref_val(s, v)
    f, b, ln = iter_of(I, v)
    out = []
    m = None
    for h, x, nm in ((f, p, 'front'), (b, q, 'back')):
        if h.tp != tp:
            m = m or 'the %s is in another tree' % nm
        elif not I.need_eq(s, h.a, x):
            m = m or 'the %s is before entry %r instead of %r' % (nm, h.a, x)
        elif not (h.node.h.const() == 0 or I.need_le(s, h.node.h, 0)) or not I.eq(s, h.a, h.b) or h.kv:
            m = m or 'the %s is not a leaf position' % nm
        elif not I.need_eq(s, h.i, h.a - h.node.s):
            m = m or 'the %s has the wrong index' % nm
    out.append(('pos', m))
    if ln is not None:
        out.append(('len', None if I.need_eq(s, ln, q - p) else 'reports a length of %r although %r entries are left' % (ln, q - p)))
    return out


YIELD = {'Iter': 'KV', 'IterMut': 'KV', 'Range': 'KV', 'RangeMut': 'KV', 'Keys': 'K', 'Values': 'V', 'ValuesMut': 'V'}


def yields(I, s, v, kind, pos):
    """v is the item for entry pos, or None"""
    v = I.force(s, v)
    if pos is None:
        return None if v[2] == 0 else 'yields something although no entry is left'
    if v[2] != 1:
        return 'yields nothing although an entry is left'
    x = v[3][0]
    y = YIELD[kind]
    if len(y) == 1:
        return itemref(I, s, x, y, pos)
    x = I.force(s, x)
    return itemref(I, s, x[3][0], 'K', pos) or itemref(I, s, x[3][1], 'V', pos)


def iter_case(kind, method, front, leaf):
    trait = 'Iterator' if front else 'DoubleEndedIterator'

    @case('%s::%s, %s' % (kind, method, 'root leaf' if leaf else 'leaf'), tfn(method, kind, trait), IT, cfgs=UN)
    def _(f, cfg):
        def su(m):
            it = iterstate(m, kind, leaf)
            m.run.it = m.ref(it)
            return [m.run.it]
        run = mk(f, cfg, su, env=ENVQ)

        def spec(I, kind_, s, v):
            if kind_ == 'unw':
                return [('panic', 'panics')]
            tp = ('P', ('o', ('tree', ''), ('adt', '#Tree', ())), ())
            o = same_map(I, s, run.mp)
            if I.need_le(s, q_, p_):
                return o + [('ret', yields(I, s, v, kind, None))] + iter_is(I, s, run.it, tp, p_, p_)
            if front:
                return o + [('ret', yields(I, s, v, kind, p_))] + iter_is(I, s, run.it, tp, p_ + 1, q_)
            return o + [('ret', yields(I, s, v, kind, q_ - 1))] + iter_is(I, s, run.it, tp, p_, q_ - 1)
        return run, spec


for _k in YIELD:
    for _leaf in (True, False):
        iter_case(_k, 'next', True, _leaf)
        iter_case(_k, 'next_back', False, _leaf)


def iter_len(kind, method, trait):
    @case('%s::%s' % (kind, method), tfn(method, kind, trait), IT, cfgs=UN)
    def _(f, cfg):
        def su(m):
            m.run.it = m.ref(iterstate(m, kind, False))
            return [m.run.it]
        run = mk(f, cfg, su, env=ENVQ)

        def spec(I, kind_, s, v):
            if kind_ == 'unw':
                return [('panic', 'panics')]
            tp = ('P', ('o', ('tree', ''), ('adt', '#Tree', ())), ())
            o = same_map(I, s, run.mp) + iter_is(I, s, run.it, tp, p_, q_)
            d = q_ - p_
            if method == 'len':
                return o + [('len', None if I.need_eq(s, v[1], d) else 'returns %r' % (v[1],))]
            if method == 'clone':
                return o + [(a if a != 'pos' else 'ret', m) for a, m in iter_is(I, s, v, tp, p_, q_)]
            u = I.force(s, v[3][1])
            okv = I.need_eq(s, v[3][0][1], d) and u[2] == 1 and I.need_eq(s, u[3][0][1], d)
            return o + [('len', None if okv else 'returns a wrong bound')]
        return run, spec


for _k in ('Iter', 'IterMut', 'IntoIter', 'Keys', 'Values', 'ValuesMut'):
    iter_len(_k, 'len', 'ExactSizeIterator')
    iter_len(_k, 'size_hint', 'Iterator')
for _k in ('Iter', 'Range', 'Keys', 'Values'):
    iter_len(_k, 'clone', 'Clone')


def makes(name, find, shared, byval=False):
    @case(name + (', new map' if shared else ''), find, IT, cfgs=UN)
    def _(f, cfg):
        def su(m):
            mp = m.run.mp = m.map(shared=shared, n=0 if shared else None)
            return [m.st.mem[mp[1]] if byval else mp]
        run = mk(f, cfg, su, env=ENVQ)

        def spec(I, kind_, s, v):
            if kind_ == 'unw':
                return [('panic', 'panics')]
            tp = ('P', ('o', ('tree', ''), ('adt', '#Tree', ())), ())
            run.sh = shared
            o = [] if byval else same(I, s, run)
            return o + iter_is(I, s, v, tp, L(0), L(0) if shared else n_)
        return run, spec


def refimpl(mutable):
    def c(f):
        if f.impl is None or f.impl.trait is None or mir.last(f.impl.trait[1]) != 'IntoIterator':
            return False
        t = f.impl.self_ty
        return t[0] == 'ref' and t[2][0] == 'adt' and mir.last(t[2][1]) == 'BTreeMap' and bool(t[1] == 'mut' or t[1] is True) == mutable
    return fn('into_iter', cond=c)


for _sh in (False, True):
    for _k in ('iter', 'iter_mut', 'keys', 'values', 'values_mut'):
        makes('BTreeMap::' + _k, mapfn(_k), _sh)
    makes('BTreeMap::into_iter', fn('into_iter', cond=lambda f: f.impl is not None and f.impl.self_ty[0] == 'adt'
                                    and mir.last(f.impl.self_ty[1]) == 'BTreeMap'), _sh, byval=True)


for _mut in (False, True):
    for _sh in (False, True):
        makes('&%sBTreeMap::into_iter' % ('mut ' if _mut else ''), fn('into_iter', cond=lambda f, _mut=_mut: f.impl is not None
              and f.impl.trait == 'IntoIterator' and f.impl.self_ty[0] == 'ref' and f.impl.self_ty[1] == _mut
              and mir.last(f.impl.self_ty[2][1]) == 'BTreeMap'), _sh)


# ---------------------------------------------------------------- owning iterator and destructors

OWN = {'ret': 'C28', 'pos': 'C28', 'len': ('C28', 'C21'), 'free': 'C28', 'panic': 'C28', 'moved': 'C28'}
TPV = ('P', ('o', ('tree', ''), ('adt', '#Tree', ())), ())


def moved_tree(m, leaf, shared=False):
    """the tree below an owning iterator: entries outside [p, q) were moved out"""
    if shared:
        return m.tree(shared=True)
    tp = m.tree(h=0 if leaf else None)
    if not leaf:
        m.I.rng['h'] = (1, 2 ** 31)
    m.I.rng['p'] = m.I.rng['q'] = (0, TR.BIG)
    c = C(m.I, None, m.st, None)
    for e in (q_ - p_, n_ - q_):
        c.ge(e)
    for w, nm in ((KS_, 'K'), (VS_, 'V')):
        t = list(m.st.mem[tp[1]][3])
        t[w] = ('AR', ((L(0), p_, X), (p_, q_, el(nm, '', VIDX)), (q_, n_, X)))
        m.st.mem[tp[1]] = m.st.mem[tp[1]][:3] + (tuple(t),)
    return tp


def owned_iter(m, leaf, shared=False):
    tp = moved_tree(m, leaf, shared)
    if shared:
        f = b = handle_val(node_val(tp, L(0), L(0), L(0), L(0)), L(0), L(0), L(0), False)
        return make_iter(m, 'IntoIter', f, b, L(0))
    return make_iter(m, 'IntoIter', leaf_at(m, tp, p_, 'f', leaf), leaf_at(m, tp, q_, 'b', leaf), q_ - p_)


def rest(I, s, p, q):
    """the entries still in the tree are exactly [p, q)"""
    t = I.load(s, TPV[1], ())
    if t == ('DEAD',):
        raise Bad('freed', 'the tree was freed')
    for w, nm in ((KS_, 'K'), (VS_, 'V')):
        exp = ((L(0), p, X), (p, q, el(nm, '', VIDX)), (q, n_, X))
        r = same_seq(I, s, I.ar_get(s, t[3][w], L(0), n_), n_, exp, n_)
        if r:
            return 'the entries left in the iterator are wrong :: ' + r
    return None


def own_case(method, front, leaf, shared=False):
    trait = 'Iterator' if front else 'DoubleEndedIterator'

    @case('IntoIter::%s, %s' % (method, 'new map' if shared else 'root leaf' if leaf else 'leaf'),
          tfn(method, 'IntoIter', trait), OWN, cfgs=UN)
    def _(f, cfg):
        def su(m):
            m.run.it = m.ref(owned_iter(m, leaf, shared))
            return [m.run.it]
        run = mk(f, cfg, su, env=ENVQ)

        def spec(I, kind_, s, v):
            if kind_ == 'unw':
                return [('panic', 'panics')]
            if shared:
                return [('ret', opt(I, s, v, None, 'no entry is left'))] + iter_is(I, s, run.it, TPV, L(0), L(0))
            a, b = p_, q_
            if I.need_le(s, q_, p_):
                o = [('ret', opt(I, s, v, None, 'no entry is left'))]
            else:
                x = p_ if front else q_ - 1
                o = [('ret', opt(I, s, v, tup(el('K', '', x), el('V', '', x)), 'the next entry'))]
                a, b = (p_ + 1, q_) if front else (p_, q_ - 1)
            return o + iter_is(I, s, run.it, TPV, a, b) + [('moved', rest(I, s, a, b))]
        return run, spec


for _m in ('next', 'next_back'):
    for _leaf in (True, False):
        own_case(_m, _m == 'next', _leaf)
    own_case(_m, _m == 'next', True, True)


def freed(I, s):
    t = s.mem[TPV[1]]
    if t == ('DEAD',) or I.truth(s, t[3][SHARED_][1]) is True:
        return None
    return 'nodes of the tree are not freed'


def drop_case(name, ty, make):
    for tag, leaf, shared in (('root leaf', True, False), ('tree', False, False), ('new map', True, True)):
        drop_one(name + ', ' + tag, ty, make, leaf, shared)


def drop_one(name, ty, make, leaf, shared):
    @case(name, tfn('drop', ty, 'Drop'), OWN, cfgs=UN)
    def _(f, cfg):
        def su(m):
            m.run.it = make(m, leaf, shared)
            return [m.run.it]
        run = mk(f, cfg, su, env=ENVQ)

        def spec(I, kind_, s, v):
            if kind_ == 'unw':
                return [('panic', 'panics' if happened(I, s, 'panic') else None)]
            o = [('free', freed(I, s))]
            t = s.mem[TPV[1]]
            if t != ('DEAD',) and I.truth(s, t[3][SHARED_][1]) is not True:
                o.append(('moved', rest(I, s, n_, n_)))
            if ty == 'IntoIter' and not shared:
                for w in 'KV':
                    d = count(I, s, 'dropped ' + w)
                    o.append(('moved', None if I.need_eq(s, d, q_ - p_) else 'not every entry left is dropped'))
            return o
        return run, spec


drop_case('IntoIter::drop', 'IntoIter', lambda m, leaf, sh: m.ref(owned_iter(m, leaf, sh)))
drop_case('BTreeMap::drop', 'BTreeMap', lambda m, leaf, sh: m.map(shared=sh, n=0 if sh else None, h=0 if leaf else None))
