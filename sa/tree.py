"""B-tree map code over an abstract tree: the node operations are replaced by contracts.

A tree is a record (number of items, height, sequence of keys, sequence of values, ...).  A node is its height and the
span [s, t) of items in its subtree, an edge is the span of the child below it, a key/value pair is a position.  The
contracts say what the node-operation cases (props/node.py) establish for each operation of btree/node.rs."""
from . import mir, src
from .interp import Interp, NeedFork, Bad, Unsupported, NeedSplit, tyname
from .lin import Lin, V, L
from .vals import *
from .node import struct, fld

CAP = 11
MIN = 4            # entries in any node other than the root (an insertion may split 7/4)
BIG = 2 ** 60

# what the shape of the tree is known to satisfy
NORMAL, RB, LB, BUILD, EMPTYSPINE, FREE = range(6)
# while a tree is built: entries of the nodes beside the right border; as many as a neighbour may take from them and leave the minimum
FULL = 9
N_, H_, KS_, VS_, SHARED_, EXC_, CACHE_, MODE_, FIX_, ROOM_ = range(10)
NULLP = ('P', ('null',), ())


CMP = {'cmp': None, 'partial_cmp': None, 'eq': lambda o: o == 0, 'ne': lambda o: o != 0, 'lt': lambda o: o < 0,
       'le': lambda o: o <= 0, 'gt': lambda o: o > 0, 'ge': lambda o: o >= 0}


class Infeasible(Exception):
    pass


def el(tag, name, i):
    return ('S', ('el', (tag, name), L(i)), ('adt', tag, ()))


def tree_val(n, h, ks, vs, shared=False, exc=(), mode=NORMAL, fix=0, room=-1):
    return ('A', 'Tree', 0, (I(n), I(h), ('AR', tuple(ks)), ('AR', tuple(vs)), ('B', shared), ('A', 'L', 0, tuple(exc)),
                             ('A', 'L', 0, ()), I(mode), I(fix), I(room)))


def node_val(tp, h, s, t, n, root=NULLP):
    return ('A', 'NodeRef', 0, (tp, I(h), I(s), I(t), I(n), root))


def handle_val(node, a, b, i, kv):
    return ('A', 'Handle', 0, (node, I(a), I(b), I(i), I(1 if kv else 0)))


def rec(kind, *ls):
    return ('A', 'r%d' % kind, 0, tuple(I(x) for x in ls))


class Nd:
    """decoded node reference"""

    def __init__(self, v):
        if v[0] != 'A' or v[1] != 'NodeRef':
            raise Unsupported('not a node reference: ' + show(v))
        self.v = v
        self.tp, self.root = v[3][0], v[3][5]
        self.h, self.s, self.t, self.n = (x[1] for x in v[3][1:5])


class Hd:
    def __init__(self, v):
        if v[0] != 'A' or v[1] != 'Handle':
            raise Unsupported('not a handle: ' + show(v))
        self.v = v
        self.node = Nd(v[3][0])
        self.a, self.b, self.i = (x[1] for x in v[3][1:4])
        self.kv = v[3][4][1].const() == 1
        self.tp = self.node.tp
        self.p = self.a


class TreeInterp(Interp):
    consts = (4, 3, -11, -10)
    any_mode = False      # trees in different modes meet
    keep_root = False     # the length of the root is of interest
    COPY = {'NodeRef', 'Handle', 'Root', 'BoxedNode'}

    def __init__(self, prog, prelude=None, models=None):
        super().__init__(prog, prelude, models)
        self.copy_types = set(self.COPY)
        self.ranks = {}          # key identity -> (rank, found predicate) in the tree self.searched
        self.searched = None
        self.noderanks = {}      # likewise for the entries of the one node under analysis
        self.pairs = set()       # pairs of searched keys whose mutual order may be asked for
        self.bounds = []         # violated preconditions of node operations: (fn, what)
        self.owned_up = []
        self.own = {}            # further contracts by (module, name)
        self.dropped = []

    def is_copy(self, v):
        if v[0] == 'A' and v[1] in self.COPY:
            return True
        return super().is_copy(v)

    def needs_drop(self, ty):
        if ty[0] == 'adt' and mir.last(ty[1]) in ('NodeRef', 'Handle', 'Root', 'BoxedNode', 'InsertResult_', 'LeafNode'):
            return False
        return super().needs_drop(ty)

    # pointers to an entry name its slot: once entries change places between nodes they may name another one
    def load(self, st, obj, path):
        return super().load(st, obj, self.settled(st, obj, path))

    def store(self, st, obj, path, val):
        return super().store(st, obj, self.settled(st, obj, path), val)

    def settled(self, st, obj, path):
        if len(path) < 2 or path[0] not in (KS_, VS_) or not isinstance(path[1], tuple) or path[1][0] != 'i' or len(path[1]) > 2:
            return path
        if st.mem.get(obj, X)[:2] != ('A', 'Tree'):
            return path
        if not self.need_le(st, st.mem.get(('g', ('moved', obj)), I(0))[1], 0):
            raise Bad('stale', 'the pointer to an entry is used after entries were moved between nodes')
        cut = st.mem.get(('g', ('cut', obj)))
        if cut is not None and not self.need_le(st, path[1][1], cut[1] - 1):
            # the slots of the leaf behind the removed entry are refilled, those of other nodes keep their entries
            end = st.mem[('g', ('cutend', obj))][1]
            if not self.need_le(st, end, path[1][1]):
                raise Unsupported('a pointer to an entry behind a removed one')
            return (path[0], ('i', path[1][1] - 1)) + tuple(path[2:])
        return path

    def on_trim(self, st):
        for o, v in list(st.mem.items()):
            if v[0] == 'A' and v[1] == 'Tree':
                if self.split_flags:
                    congruent(C(self, None, st, None), ('P', o, ()))
                v = st.mem[o]
                st.mem[o] = v[:3] + (v[3][:CACHE_] + (('A', 'L', 0, ()),) + v[3][CACHE_ + 1:],)
                c = C(self, None, st, None)
                settle(c, ('P', o, ()), True)
                if self.any_mode and c.mode(('P', o, ())) in (RB, LB) and len(c.excs(('P', o, ()))) > 2:
                    c.put(('P', o, ()), mode=I(FREE))       # more nodes than the one at work are too small
                    c.setexc(('P', o, ()), [])

    # ------------------------------------------------ comparisons of user keys
    def user_call(self, fr, st, what, args, rty):
        m = what[1] if isinstance(what, tuple) and len(what) > 1 else what
        if m == 'borrow' and len(args) == 1:
            return [('ret', st, args[0]), ('unw', st.copy(), None)]
        if m in CMP and len(args) == 2:
            st = st.copy()
            try:
                o = self.compare(st, args[0], args[1])
            except Infeasible:
                return []
            if o is not None:
                if m == 'cmp':
                    v = ('A', 'Ordering', self.vindex('Ordering', ('Less', 'Equal', 'Greater')[o + 1]), ())
                elif m == 'partial_cmp':
                    v = some(('A', 'Ordering', self.vindex('Ordering', ('Less', 'Equal', 'Greater')[o + 1]), ()))
                else:
                    v = ('B', CMP[m](o))
                return [('ret', st, v), ('unw', st.copy(), None)]
        return super().user_call(fr, st, what, args, rty)

    def compare(self, st, a, b):
        """outcome of comparing two keys when their order is known or can be split on; None: unknown"""
        x, y = (self.deref_all(st, v) for v in (a, b))
        if x[0] != 'S' or y[0] != 'S':
            return None
        if self.same(st, x, y):
            return 0
        for u, v, sg in ((x, y, 1), (y, x, -1)):
            rk = {}
            if v[1][0] == 'el' and v[1][1][0] == 'K':
                rk = self.ranks if v[1][1][1] == '' else self.noderanks
            if u[1] in rk:
                # against an entry of the map, or of the node
                r, fd = rk[u[1]]
                i = v[1][2]
                if self.need_le(st, i + 1, r):
                    return sg
                if self.need_le(st, r + 1, i):
                    return -sg
                t = self.truth(st, fd)
                if t is None:
                    raise NeedFork([fd, pnot(fd)])
                return 0 if t else -sg
        if x[1] in self.ranks and y[1] in self.ranks:
            for u, v, sg in ((x, y, 1), (y, x, -1)):
                lt, eq = ('sym', ('less', u[1], v[1])), ('sym', ('same', u[1], v[1]))
                if (u[1], v[1]) in self.pairs:
                    for p in (eq, lt):
                        t = self.truth(st, p)
                        if t is None:
                            raise NeedFork([p, pnot(p)])
                        if t:
                            self.ordered(st, u, v, 0 if p == eq else -1)
                            return 0 if p == eq else -sg
                    self.ordered(st, u, v, 1)
                    return sg
        return None

    def order(self, st, a, b):
        st = st.copy()
        try:
            o = self.compare(st, a, b)
        except Infeasible:
            return []
        return None if o is None else [(st, o)]

    def split_compare(self, st, a, b):
        try:
            return self.compare(st, a, b)
        except Infeasible:
            return None

    def ordered(self, st, u, v, o):
        """what the order of two keys says about their ranks"""
        (ru, fu), (rv, fv) = self.ranks[u[1]], self.ranks[v[1]]
        c = C(self, None, st, None)
        if o == 0:
            c.equal(ru, rv)
            t = [self.truth(st, f) for f in (fu, fv)]
            if None in t:
                raise NeedFork([(fu, fv)[t.index(None)], pnot((fu, fv)[t.index(None)])])
            if t[0] != t[1]:
                raise Infeasible()
            return
        if o > 0:
            ru, fu, rv, fv = rv, fv, ru, fu
        t = self.truth(st, fu)
        if t is None:
            raise NeedFork([fu, pnot(fu)])
        c.le(ru + (1 if t else 0), rv)

    def deref_all(self, st, v):
        while v[0] == 'P':
            v = self.deref_val(st, v)
        return v

    def drop_opaque(self, fr, st, a, v, ty):
        if v[0] == 'S' and v[1][0] == 'el' and v[1][1][0] in ('K', 'V'):
            self.tick(st, 'dropped ' + v[1][1][0])
        return super().drop_opaque(fr, st, a, v, ty)

    def was_read(self, st, p, v):
        # an entry read out of a node is moved out
        if p[0] == 'P' and len(p[2]) == 2 and p[2][0] in (KS_, VS_) and v[0] == 'S':
            t = st.mem.get(p[1])
            if t is not None and t[0] == 'A' and t[1] == 'Tree':
                self.store(st, p[1], p[2], X)

    def ar_cut(self, st, ar, x):
        """like the general one, but a segment may be cut at its end without knowing whether a part is empty"""
        for i, (lo, hi, t) in enumerate(ar[1]):
            if self.le(st, x, lo):
                return ar
            if self.le(st, hi, x):
                continue
            if self.le(st, lo, x) and self.le(st, x, hi):
                return ('AR', ar[1][:i] + ((lo, x, t), (x, hi, t)) + ar[1][i + 1:])
            break
        return super().ar_cut(st, ar, x)

    # ------------------------------------------------ drop glue of whole maps
    def drop_at(self, fr, st, a, v, ty, span=''):
        nm = mir.last(ty[1]) if ty[0] == 'adt' else ''
        if nm in ('BTreeMap', 'IntoIter') and v[0] == 'A' and v[1] == nm and len(v[3]) > 1 and \
                'map::%s<K, V> as Drop' % nm not in (self.entry or ''):
            return self.drop_tree(fr, st, a, v, nm)
        return super().drop_at(fr, st, a, v, ty, span)

    def drop_tree(self, fr, st, a, v, nm):
        """every entry is dropped and every node freed, whatever a destructor does (props: BTreeMap::drop, IntoIter::drop)"""
        st = st.copy()
        c = C(self, fr, st, None)
        if nm == 'BTreeMap':
            rt = fld(self, v, 'root')
            if rt == X:
                raise Bad('double-drop', 'the map was moved out')
            tp = rt[3][0]
            lo, hi = L(0), c.num(tp, N_)
            ln = fld(self, v, 'length')[1]
        else:
            f, b = fld(self, v, 'front'), fld(self, v, 'back')
            if f == X or b == X:
                raise Bad('double-drop', 'the iterator was moved out')
            f, b = Hd(f), Hd(b)
            tp, lo, hi = f.tp, f.b, b.a
            ln = fld(self, v, 'length')[1]
        t = c.T(tp)
        if not self.need_eq(st, ln, hi - lo):
            raise Bad('length', 'the length recorded in a %s that is dropped is %r but it has %r entries' % (nm, ln, hi - lo))
        for w in (KS_, VS_):
            for x, y, u in self.ar_get(st, t[w], lo, hi):
                if u == X and not self.need_le(st, y, x):
                    raise Bad('double-drop', 'a %s is dropped of which an entry was already dropped or moved out' % nm)
        shared = self.truth(st, t[SHARED_][1]) is True
        if not shared:
            self.store(st, tp[1], tp[2], ('DEAD',))
        self.kill(st, a)
        if shared or self.le(st, hi, lo):
            return [('ret', st)]
        return self.user_effect(fr, st, 'drop', None)

    # ------------------------------------------------ contracts
    def contract(self, f):
        c = super().contract(f)
        if c:
            return c
        k = src.fn_key(f)
        m = self.own.get(f.method)
        if m is not None and k.startswith('btree::map::') and '{closure' not in f.name:
            return lambda I, fr, st, f, env, args, tys, rty: self.run_contract(m, fr, st, f, args, env)
        if k == self.entry:
            return None
        if '{closure' in f.name:
            return None
        if k.startswith('btree::node::'):
            nm = f.method
            m = getattr(self, 'c_' + nm, None)
            if m is None:
                raise Unsupported('node operation without contract: ' + nm)
            return lambda I, fr, st, f, env, args, tys, rty: self.run_contract(m, fr, st, f, args, env)
        if k.endswith('map::IntoIter<K, V> as Iterator>::next'):
            return lambda I, fr, st, f, env, args, tys, rty: self.run_contract(own_next, fr, st, f, args, env)
        if k.startswith('btree::search::'):
            m = getattr(self, 's_' + f.method, None)
            if m is None:
                return None
            return lambda I, fr, st, f, env, args, tys, rty: self.run_contract(m, fr, st, f, args, env)
        return None

    def run_contract(self, m, fr, st, f, args, env):
        st = st.copy()
        try:
            r = m(C(self, fr, st, f, env), *args)
        except Infeasible:
            return []
        return r if isinstance(r, list) else [('ret', st, r)]


class C:
    """one contract application"""

    def __init__(self, I, fr, st, f, env=None):
        self.I, self.fr, self.st, self.f, self.env = I, fr, st, f, env or {}

    # facts
    def ge(self, e):
        f = self.st.facts.add_ge(L(e), self.I.nn)
        if f is None:
            raise Infeasible()
        self.st.facts = f

    def le(self, a, b):
        self.ge(L(b) - a)

    def equal(self, a, b):
        self.ge(L(a) - b)
        self.ge(L(b) - a)

    def fresh(self, nm, lo=0, hi=BIG):
        return self.I.fresh(nm, lo, hi)

    def need(self, ok, what):
        """precondition of the operation"""
        if not ok:
            raise Bad('precondition', '%s: %s' % (self.f.method, what))

    # trees
    def T(self, tp):
        if tp[0] != 'P':
            raise Unsupported('tree ' + show(tp))
        v = self.I.load(self.st, tp[1], tp[2])
        if v == X or v == ('DEAD',):
            raise Bad('dangling', 'use of a tree that was freed')
        if v[0] != 'A' or v[1] != 'Tree':
            raise Unsupported('tree ' + show(v))
        return v[3]

    def put(self, tp, **kw):
        names = dict(N=N_, H=H_, ks=KS_, vs=VS_, shared=SHARED_, exc=EXC_, cache=CACHE_, mode=MODE_, fix=FIX_, room=ROOM_)
        f = list(self.T(tp))
        for k, v in kw.items():
            f[names[k]] = v
        self.I.store(self.st, tp[1], tp[2], ('A', 'Tree', 0, tuple(f)))

    def num(self, tp, i):
        return self.T(tp)[i][1]

    def mode(self, tp):
        m = self.num(tp, MODE_).const()
        if m is None:
            if self.I.any_mode:
                return FREE         # nothing is known about the lengths of the nodes
            raise Unsupported('tree mode')
        return m

    def excs(self, tp):
        return [tuple(x[1] for x in e[3]) for e in self.T(tp)[EXC_][3]]

    def setexc(self, tp, es):
        self.put(tp, exc=('A', 'L', 0, tuple(rec(0, *e) for e in es)))

    def cached(self, tp, kind, *key):
        for e in self.T(tp)[CACHE_][3]:
            if e[1] == 'r%d' % kind and all(self.I.eq(self.st, x[1], k) for x, k in zip(e[3], key)):
                return tuple(x[1] for x in e[3][len(key):])
        return None

    def remember(self, tp, kind, *vals):
        self.put(tp, cache=('A', 'L', 0, self.T(tp)[CACHE_][3] + (rec(kind, *vals),)))

    def forget(self, tp):
        self.put(tp, cache=('A', 'L', 0, ()))

    def changed(self, tp):
        self.forget(tp)

    # nodes
    def is_root(self, tp, h):
        H = self.num(tp, H_)
        return self.I.need_le(self.st, H, h)

    def spine(self, tp, s, t):
        """may the node be one whose length is unrestricted in the present mode"""
        m = self.mode(tp)
        if m == FREE:
            return True
        if m in (RB, BUILD):
            return self.I.need_le(self.st, self.num(tp, N_), t)
        if m == LB:
            return self.I.need_le(self.st, s, 0)
        if m == EMPTYSPINE:
            return True
        return False

    def nlen(self, tp, h, s, t):
        """number of entries of the node at height h with span [s, t)"""
        I, st = self.I, self.st
        for (eh, es, et, en) in self.excs(tp):
            if I.need_eq(st, eh, h) and I.need_eq(st, es, s):
                return en
        m = self.mode(tp)
        if m == EMPTYSPINE:
            return L(0)
        if m == LB and I.ge(st, self.num(tp, ROOM_)) and I.ge(st, h - self.num(tp, ROOM_) - 1):
            return L(0)
        leaf = I.need_le(st, h, 0)
        c = self.cached(tp, 0, h, s, t)
        if c:
            return c[0]
        n = t - s if leaf else self.fresh('n', 0, CAP)
        root = self.is_root(tp, h)
        self.ge(n)
        self.le(n, CAP)
        if root:
            self.equal(s, 0)
            self.equal(t, self.num(tp, N_))
            if not leaf and m in (NORMAL,):
                self.le(1, n)
        elif m == BUILD and not self.spine(tp, s, t):
            self.le(FULL, n)
        elif not self.spine(tp, s, t):
            self.le(FULL if m == RB and I.ge(st, self.num(tp, ROOM_) - h - 1) else MIN, n)
        if not leaf:
            self.le(n, t - s)
            if m == NORMAL and not self.excs(tp):
                self.le(n.scale(MIN + 1) + MIN, t - s)
        self.remember(tp, 0, h, s, t, n)
        return n

    def node(self, tp, h, s, t, root=NULLP):
        return node_val(tp, h, s, t, self.nlen(tp, h, s, t), root)

    def begin(self, nd, b, kid_last=None):
        """start of the child of node nd that ends at b (not the first child)"""
        tp = nd.tp
        c = self.cached(tp, 2, nd.h, b)
        if c:
            return c[0]
        a = self.fresh('a')
        self.le(a, b)
        self.remember(tp, 2, nd.h, b, a)
        self.remember(tp, 1, nd.h, a, b)
        return a

    def end(self, nd, a):
        tp = nd.tp
        c = self.cached(tp, 1, nd.h, a)
        if c:
            return c[0]
        b = self.fresh('b')
        self.le(a, b)
        self.remember(tp, 1, nd.h, a, b)
        self.remember(tp, 2, nd.h, b, a)
        return b

    def kidmin(self, nd):
        """least number of items below a child of nd that is certainly no exception"""
        return 0

    def seen(self, h):
        """an edge handle tells where the child lies"""
        if not h.kv and not self.I.eq(self.st, h.node.h, 0):
            for kind, x, y in ((1, h.a, h.b), (2, h.b, h.a)):
                if not self.cached(h.tp, kind, h.node.h, x):
                    self.remember(h.tp, kind, h.node.h, x, y)

    def edge(self, nd, a, b, i):
        return handle_val(nd.v, a, b, i, False)

    def kv(self, nd, p, i):
        return handle_val(nd.v, p, p, i, True)

    def after(self, nd, p, i):
        """the edge right of entry p (index i)"""
        I, st = self.I, self.st
        if I.need_le(st, nd.h, 0):
            return self.edge(nd, p + 1, p + 1, i + 1)
        if I.need_eq(st, i, nd.n - 1):
            b = nd.t
        else:
            b = self.end(nd, p + 1)
            self.le(b, nd.t - 1)
        return self.edge(nd, p + 1, b, i + 1)

    def before(self, nd, p, i):
        I, st = self.I, self.st
        if I.need_le(st, nd.h, 0):
            return self.edge(nd, p, p, i)
        if I.need_eq(st, i, 0):
            a = nd.s
        else:
            a = self.begin(nd, p)
            self.le(nd.s + 1, a)
        return self.edge(nd, a, p, i)

    def first(self, nd):
        I, st = self.I, self.st
        if I.need_le(st, nd.h, 0):
            return self.edge(nd, nd.s, nd.s, L(0))
        if I.need_le(st, nd.n, 0):
            return self.edge(nd, nd.s, nd.t, L(0))
        b = self.end(nd, nd.s)
        r = self.cached(nd.tp, 4, nd.h, nd.s, L(0))
        if r:
            self.equal(b, r[0])
        self.le(b, nd.t - 1)
        return self.edge(nd, nd.s, b, L(0))

    def last(self, nd):
        I, st = self.I, self.st
        if I.need_le(st, nd.h, 0):
            return self.edge(nd, nd.t, nd.t, nd.n)
        if I.need_le(st, nd.n, 0):
            return self.edge(nd, nd.s, nd.t, L(0))
        a = self.begin(nd, nd.t)
        r = self.cached(nd.tp, 4, nd.h, nd.s, nd.n - 1)
        if r:
            self.equal(a, r[0] + 1)
        self.le(nd.s + 1, a)
        return self.edge(nd, a, nd.t, nd.n)

    # contents
    def insert_items(self, tp, p, ks, vs, cnt):
        """put cnt items (segments starting at 0) at position p"""
        I, st = self.I, self.st
        f = self.T(tp)
        n = f[N_][1]
        out = []
        for ar, new in ((f[KS_], ks), (f[VS_], vs)):
            l = I.ar_get(st, ar, L(0), p)
            r = I.ar_get(st, ar, p, n)
            segs = list(l) + [shift(x, p) for x in new] + [shift(x, p + cnt) for x in r]
            out.append(('AR', tuple(I.ar_norm(st, segs))))
        self.put(tp, ks=out[0], vs=out[1], N=('I', n + cnt))
        self.le(n + cnt, 4 * BIG)       # what fits into memory
        self.changed(tp)

    def items(self, tp, lo, hi):
        """segments of [lo, hi) rebased to 0"""
        I, st = self.I, self.st
        f = self.T(tp)
        return tuple(tuple(I.ar_get(st, f[w], lo, hi)) for w in (KS_, VS_))

    def cut_items(self, tp, lo, hi):
        I, st = self.I, self.st
        f = self.T(tp)
        n = f[N_][1]
        ks, vs = self.items(tp, lo, hi)
        out = []
        for w in (KS_, VS_):
            l = I.ar_get(st, f[w], L(0), lo)
            r = I.ar_get(st, f[w], hi, n)
            out.append(('AR', tuple(I.ar_norm(st, list(l) + [shift(x, lo) for x in r]))))
        self.put(tp, ks=out[0], vs=out[1], N=('I', n - (hi - lo)))
        self.changed(tp)
        return ks, vs

    def one(self, tp, w, p):
        I, st = self.I, self.st
        g = I.ar_get(st, self.T(tp)[w], p, p + 1)
        if len(g) != 1:
            raise Unsupported('entry of the tree')
        return at(g[0][2], L(0))

    def fail(self):
        """the outcome in which the allocator fails"""
        a = self.st.copy()
        self.I.tick(a, 'failed')
        return ('ret', a, err(('S', ('u', 'TryReserveError', self.I.next_id()), ('adt', 'TryReserveError', ()))))


def exc_shift(es, at_, d, h=None):
    """exceptions after d items were inserted at position at_ (spans that contain the position grow)"""
    return es


# ---------------------------------------------------------------- node operations

def contract(fn):
    setattr(TreeInterp, 'c_' + fn.__name__.rstrip('_'), staticmethod(fn))
    return fn


def variant(c, enum, name, *vs):
    return ('A', enum, c.I.vindex(enum, name), tuple(vs))


def deref(c, p):
    return c.I.deref_val(c.st, p) if p[0] == 'P' else p


def arg(c, p):
    """self by value or by reference"""
    v = p
    while v[0] == 'P':
        v = c.I.deref_val(c.st, v)
    return v


def both(c, v):
    v = arg(c, v)
    return (Nd(v), None) if v[1] == 'NodeRef' else (None, Hd(v))


@contract
def as_ref(c, p):
    r = arg(c, p)
    tp = r[3][0]
    return c.node(tp, c.num(tp, H_), L(0), c.num(tp, N_))


@contract
def as_mut(c, p):
    v = arg(c, p)
    if v[1] == 'Handle' or v[1] == 'NodeRef':
        raise Unsupported('as_mut of a node')
    tp = v[3][0]
    if c.T(tp)[SHARED_][1] is True and False:
        pass
    return c.node(tp, c.num(tp, H_), L(0), c.num(tp, N_), p)


@contract
def into_ref(c, v):
    tp = arg(c, v)[3][0]
    nv = c.node(tp, c.num(tp, H_), L(0), c.num(tp, N_))
    return nv


@contract
def is_shared_root(c, v):
    v = arg(c, v)
    return c.T(v[3][0])[SHARED_]


@contract
def shared_empty_root(c):
    o = c.I.alloc(c.st, tree_val(0, 0, (), (), True))
    return ('A', 'Root', 0, (('P', o, ()),))


@contract
def new_leaf(c):
    bad = c.fail()
    o = c.I.alloc(c.st, tree_val(0, 0, (), ()))
    return [bad, ('ret', c.st, ok(('A', 'Root', 0, (('P', o, ()),))))]


@contract
def push_level(c, p):
    tp = arg(c, p)[3][0]
    c.need(c.T(tp)[SHARED_][1] is not True, 'a level is put above the shared empty root')
    bad = c.fail()
    f = c.T(tp)
    h, n = f[H_][1], f[N_][1]
    m = c.mode(tp)
    old = None
    if m != EMPTYSPINE and not c.I.need_le(c.st, n, 0):
        old = c.nlen(tp, h, L(0), n)
    elif m == NORMAL:
        c.put(tp, mode=I(EMPTYSPINE))
        m = EMPTYSPINE
    c.forget(tp)
    c.put(tp, H=('I', h + 1))
    es = c.excs(tp)
    if m not in (EMPTYSPINE, BUILD, FREE):
        # the old root is an ordinary node now
        if old is not None and not c.I.ge(c.st, old - MIN) and not any(c.I.eq(c.st, e[0], h) for e in es):
            es.append((h, L(0), n, old))
        es.append((h + 1, L(0), n, L(0)))
        c.setexc(tp, es)
    v = node_val(tp, h + 1, L(0), n, L(0), p)
    if m == BUILD:
        if old is not None and c.I.eq(c.st, c.num(tp, FIX_), h) and c.I.ge(c.st, old - FULL):
            c.put(tp, fix=('I', h + 1))
        c.remember(tp, 0, h + 1, L(0), n, L(0))
    return [bad, ('ret', c.st, ok(v))]


@contract
def pop_level(c, p):
    tp = arg(c, p)[3][0]
    f = c.T(tp)
    h, n = f[H_][1], f[N_][1]
    c.need(c.I.need_le(c.st, 1, h), 'the tree has only one level')
    l = c.nlen(tp, h, L(0), n)
    c.need(c.I.need_le(c.st, l, 0), 'the removed root still has entries')
    es = [e for e in c.excs(tp) if not c.I.eq(c.st, e[0], h)]
    c.forget(tp)
    c.setexc(tp, es)
    fx = f[FIX_][1]
    kw = {}
    if c.mode(tp) in (RB, LB):
        kw['fix'] = ('I', h - 1) if c.I.need_le(c.st, h, fx) else f[FIX_]
    c.put(tp, H=('I', h - 1), **kw)
    return UNIT


@contract
def height(c, v):
    h = Nd(arg(c, v)).h
    c.le(h, 2 ** 40)        # no tree of such a height fits into memory
    return ('I', h)


@contract
def len_(c, v):
    return ('I', Nd(arg(c, v)).n)


@contract
def keys(c, v):
    nd = Nd(arg(c, v))
    o = c.I.alloc(c.st, ('AR', ((L(0), nd.n, el('K', ('node', repr(nd.h), repr(nd.s)), VIDX)),)))
    return ('F', ('P', o, (('i', L(0)),)), nd.n)


@contract
def forget_type(c, v):
    return v


@contract
def forget_node_type(c, v):
    return v


@contract
def reborrow(c, v):
    v = arg(c, v)
    if v[1] == 'NodeRef':
        return v[:3] + (v[3][:5] + (NULLP,),)
    nd = v[3][0]
    return v[:3] + ((nd[:3] + (nd[3][:5] + (NULLP,),),) + v[3][1:],)


@contract
def reborrow_mut(c, v):
    return arg(c, v)


@contract
def force(c, v):
    nd = Nd(v) if v[1] == 'NodeRef' else Hd(v).node
    leaf = c.I.need_le(c.st, nd.h, 0)
    if leaf:
        c.equal(nd.n, nd.t - nd.s)
        if v[1] == 'Handle':
            hd = Hd(v)
            c.equal(hd.i, hd.a - nd.s)
            if not hd.kv:
                c.equal(hd.a, hd.b)
    return variant(c, 'ForceResult', 'Leaf' if leaf else 'Internal', v)


@contract
def into_node(c, v):
    return v[3][0]


@contract
def first_edge(c, v):
    return c.first(Nd(v))


@contract
def last_edge(c, v):
    return c.last(Nd(v))


@contract
def first_kv(c, v):
    nd = Nd(v)
    c.need(c.I.need_le(c.st, 1, nd.n), 'the node has no entry')
    e = Hd(c.first(nd))
    return c.kv(nd, e.b, L(0))


@contract
def last_kv(c, v):
    nd = Nd(v)
    c.need(c.I.need_le(c.st, 1, nd.n), 'the node has no entry')
    e = Hd(c.last(nd))
    return c.kv(nd, e.a - 1, nd.n - 1)


@contract
def right_kv(c, v):
    h = Hd(v)
    I, st, nd = c.I, c.st, h.node
    c.seen(h)
    if I.le(st, h.i + 1, nd.n) or I.need_le(st, h.b + 1, nd.t):
        c.le(h.i + 1, nd.n)
        c.le(h.b + 1, nd.t)
        return ok(c.kv(nd, h.b, h.i))
    c.equal(h.i, nd.n)
    c.equal(h.b, nd.t)
    return err(v)


@contract
def left_kv(c, v):
    h = Hd(v)
    I, st, nd = c.I, c.st, h.node
    c.seen(h)
    if I.le(st, 1, h.i) or I.need_le(st, nd.s + 1, h.a):
        c.le(1, h.i)
        c.le(nd.s + 1, h.a)
        return ok(c.kv(nd, h.a - 1, h.i - 1))
    c.equal(h.i, 0)
    c.equal(h.a, nd.s)
    return err(v)


@contract
def right_edge(c, v):
    h = Hd(v)
    return c.after(h.node, h.p, h.i)


@contract
def left_edge(c, v):
    h = Hd(v)
    return c.before(h.node, h.p, h.i)


@contract
def descend(c, v):
    h = Hd(v)
    nd = h.node
    if c.I.need_le(c.st, nd.h, 0):
        raise Bad('precondition', 'descend below a leaf')
    tp = nd.tp
    m = c.mode(tp)
    r = c.node(tp, nd.h - 1, h.a, h.b, nd.root)
    k = Nd(r)
    if m in (RB, LB) and c.num(tp, FIX_) is not None:
        f = c.num(tp, FIX_)
        border = c.I.eq(c.st, h.b, c.num(tp, N_)) if m == RB else c.I.eq(c.st, h.a, 0)
        if border and c.I.eq(c.st, f, nd.h) and (c.I.ge(c.st, nd.n - MIN) or c.is_root(tp, nd.h)):
            # everything above nd, and nd itself, is in order
            c.put(tp, fix=('I', nd.h - 1 if c.I.ge(c.st, k.n - MIN) else nd.h))
    return r


@contract
def ascend(c, v):
    nd = Nd(v)
    bt = c.env.get('BorrowType')
    if bt and bt[0] == 'adt' and mir.last(bt[1]) == 'Owned':
        raise Bad('leak', 'ascends from an owned node, which is lost without being freed')
    tp = nd.tp
    I, st = c.I, c.st
    if c.is_root(tp, nd.h):
        c.equal(nd.s, 0)
        c.equal(nd.t, c.num(tp, N_))
        return err(v)
    return ok(up(c, nd))


def up(c, nd):
    tp = nd.tp
    I, st = c.I, c.st
    h = nd.h + 1
    n = c.num(tp, N_)
    if c.is_root(tp, h) or I.le(st, n, 0) or (c.mode(tp) == LB and I.ge(st, c.num(tp, ROOM_)) and I.ge(st, h - c.num(tp, ROOM_))):
        # the levels above hold nothing else
        s, t = L(0), n
    else:
        r = c.cached(tp, 3, h, nd.s)
        if r:
            s, t = r
        else:
            s, t = c.fresh('s'), c.fresh('t')
            c.remember(tp, 3, h, nd.s, s, t)
            c.le(s, nd.s)
            c.le(nd.t, t)
            c.le(t, n)
    p = Nd(c.node(tp, h, s, t, nd.root))
    if c.mode(tp) == EMPTYSPINE or I.eq(st, p.n, 0):
        i = L(0)
    elif I.need_eq(st, nd.s, s):
        i = L(0)
        c.equal(nd.s, s)
    elif I.need_eq(st, nd.t, t):
        i = p.n
    else:
        i = c.fresh('i', 0, CAP)
        c.le(1, i)
        c.le(i, p.n - 1)
    if c.mode(tp) == BUILD:
        f = c.num(tp, FIX_)
        if I.eq(st, f, nd.h) and I.eq(st, nd.t, n) and I.ge(st, nd.n - FULL):
            c.put(tp, fix=('I', h))
    return c.edge(p, nd.s, nd.t, i)


@contract
def into_root_mut(c, v):
    nd = Nd(v)
    c.need(c.is_root(nd.tp, nd.h), 'the node is not the root')
    if nd.root == NULLP:
        raise Unsupported('no way to the root')
    if not c.cached(nd.tp, 0, nd.h, nd.s, nd.t):
        c.remember(nd.tp, 0, nd.h, nd.s, nd.t, nd.n)
    return nd.root


@contract
def into_kv(c, v):
    h = Hd(v)
    i = ('i', h.p)
    if any(('g', (w, h.tp[1])) in c.st.mem for w in ('moved', 'cut')):
        i += (1,)
    return tup(('P', h.tp[1], h.tp[2] + (KS_, i)), ('P', h.tp[1], h.tp[2] + (VS_, i)))


@contract
def into_kv_mut(c, v):
    return into_kv(c, v)


@contract
def kv_mut(c, v):
    return into_kv(c, arg(c, v))


@contract
def eq(c, a, b):
    x, y = Hd(arg(c, a)), Hd(arg(c, b))
    if x.kv or y.kv:
        raise Unsupported('comparison of entries')
    if x.tp != y.tp:
        raise Unsupported('comparison of handles into different trees')
    return ('B', peq(x.a - y.a))


@contract
def new_edge(c, nv, i):
    nd, i = Nd(nv), i[1]
    I, st = c.I, c.st
    c.need(I.need_le(st, i, nd.n), 'no such edge')
    if I.need_le(st, nd.h, 0):
        c.equal(nd.n, nd.t - nd.s)
        return c.edge(nd, nd.s + i, nd.s + i, i)
    r = c.cached(nd.tp, 5, nd.h, nd.s, i)
    zero, full = I.need_eq(st, i, 0), I.need_eq(st, i, nd.n)
    if r and (zero or full):
        if zero:
            c.equal(r[0], nd.s)
        if full:
            c.equal(r[1], nd.t)
        else:
            c.le(r[1], nd.t - 1)
        if not zero:
            c.le(nd.s + 1, r[0])
        for j, x in ((i - 1, r[0] - 1), (i, r[1])):
            q = c.cached(nd.tp, 4, nd.h, nd.s, j)
            if q:
                c.equal(q[0], x)
        h = c.edge(nd, r[0], r[1], i)
        c.seen(Hd(h))
        return h
    if zero:
        return c.first(nd)
    if full:
        return c.last(nd)
    r = c.cached(nd.tp, 4, nd.h, nd.s, i - 1)
    a = r[0] + 1 if r else None
    r = c.cached(nd.tp, 4, nd.h, nd.s, i)
    b = r[0] if r else None
    r = c.cached(nd.tp, 5, nd.h, nd.s, i)
    if r:
        if a is not None:
            c.equal(r[0], a)
        if b is not None:
            c.equal(r[1], b)
        a, b = r
    if a is None:
        a = c.begin(nd, b) if b is not None else c.fresh('a')
    if b is None:
        b = c.end(nd, a)
    c.le(nd.s + 1, a)
    c.le(b, nd.t - 1)
    c.le(a, b)
    c.remember(nd.tp, 5, nd.h, nd.s, i, a, b)
    return c.edge(nd, a, b, i)


@contract
def new_kv(c, nv, i):
    nd, i = Nd(nv), i[1]
    I, st = c.I, c.st
    c.need(I.need_le(st, i + 1, nd.n), 'no such entry')
    if I.need_le(st, nd.h, 0):
        c.equal(nd.n, nd.t - nd.s)
        return c.kv(nd, nd.s + i, i)
    r = c.cached(nd.tp, 4, nd.h, nd.s, i)
    if r:
        p = r[0]
    else:
        p = c.fresh('p')
        c.le(nd.s, p)
        c.le(p, nd.t - 1)
        c.remember(nd.tp, 4, nd.h, nd.s, i, p)
    return c.kv(nd, p, i)


# ---------------------------------------------------------------- changes

def grow_exc(c, tp, h, s, p, d):
    """exception spans after d items appeared at p inside the node at height h starting at s"""
    out = []
    I, st = c.I, c.st
    for (eh, es, et, en) in c.excs(tp):
        if I.need_le(st, p, es) and not I.need_eq(st, p, es):
            out.append((eh, es + d, et + d, en))
        elif I.need_le(st, es, p) and I.need_le(st, p, et):
            out.append((eh, es, et + d, en))
        else:
            out.append((eh, es, et, en))
    return out


def set_len(c, tp, h, s, t, n):
    """record the length of a node that may deviate from what the mode promises"""
    I, st = c.I, c.st
    es = [e for e in c.excs(tp) if not (I.eq(st, e[0], h) and I.eq(st, e[1], s))]
    es.append((h, s, t, n))
    c.setexc(tp, es)


KEYS = {0: 3, 1: 2, 2: 2, 4: 3, 5: 3}    # cached facts: length of the key


def congruent(c, tp):
    """what was asked twice has one answer, even if the questions turned out to be the same only later"""
    I, st = c.I, c.st
    recs = [(int(e[1][1:]), [x[1] for x in e[3]]) for e in c.T(tp)[CACHE_][3]]
    try:
        for a, (k, x) in enumerate(recs):
            n = KEYS.get(k)
            if n is None:
                continue
            for k2, y in recs[a + 1:]:
                if k2 == k and all(I.eq(st, p, q) for p, q in zip(x[:n], y[:n])):
                    for p, q in zip(x[n:], y[n:]):
                        if not I.eq(st, p, q):
                            c.equal(p, q)
    except Infeasible:
        pass


def settle(c, tp, loose=False):
    """forget exceptions that are none (loose: and the length of a root that may have any)"""
    I, st = c.I, c.st
    out = []
    m = c.mode(tp)
    if m == FREE:
        c.setexc(tp, [])
        return
    for e in c.excs(tp):
        h, s, t, n = e
        if I.ge(st, n - MIN) and I.ge(st, L(CAP) - n) and m != BUILD and not (I.keep_root and I.eq(st, h, c.num(tp, H_))):
            continue
        if I.eq(st, h, c.num(tp, H_)) and (I.eq(st, h, 0) or I.ge(st, n - 1)) and not I.keep_root:
            continue
        if loose and m in (RB, LB) and not I.keep_root and I.eq(st, h, c.num(tp, H_)) and I.ge(st, n) and I.ge(st, L(CAP) - n):
            continue
        out.append(e)
    c.setexc(tp, out)


@contract
def push(c, p, k, v, sub=None):
    nd = Nd(arg(c, p))
    tp = nd.tp
    I, st = c.I, c.st
    c.need(c.T(tp)[SHARED_][1] is not True, 'push into the shared empty root')
    c.need(I.need_le(st, nd.n, CAP - 1), 'the node is full')
    ks, vs = ((L(0), L(1), k),), ((L(0), L(1), v),)
    cnt = L(1)
    m = c.mode(tp)
    es = []
    if sub is not None:
        rt = sub[3][0]
        f = c.T(rt)
        c.need(I.need_eq(st, f[H_][1], nd.h - 1), 'the subtree has the wrong height')
        c.need(f[SHARED_][1] is not True, 'the shared empty root becomes part of a tree')
        sm = c.mode(rt)
        n2 = f[N_][1]
        if m == BUILD:
            c.need(I.eq(st, nd.t, c.num(tp, N_)), 'not the last node')
            if not (I.need_eq(st, c.num(tp, FIX_), nd.h) and (sm == EMPTYSPINE or I.eq(st, n2, 0))):
                c.put(tp, mode=I_(FREE))
            else:
                c.put(tp, fix=I_(0))
        else:
            if sm == EMPTYSPINE:
                c.put(tp, mode=I_(FREE))
            elif sm != NORMAL:
                raise Unsupported('subtree in an intermediate state')
            else:
                l = c.nlen(rt, f[H_][1], L(0), n2)
                for (eh, e0, e1, en) in c.excs(rt):
                    es.append((eh, nd.t + 1 + e0, nd.t + 1 + e1, en))
                if not I.ge(st, l - MIN) and not any(I.eq(st, e[0], f[H_][1]) for e in es):
                    es.append((f[H_][1], nd.t + 1, nd.t + 1 + n2, l))
        a, b = c.items(rt, L(0), n2)
        ks = ks + tuple(shift(x, L(1)) for x in a)
        vs = vs + tuple(shift(x, L(1)) for x in b)
        cnt = cnt + n2
        I.store(st, rt[1], rt[2], ('DEAD',))
    else:
        if m == BUILD:
            c.need(I.eq(st, nd.t, c.num(tp, N_)), 'not the last node')
            c.put(tp, fix=I_(0))
        elif m == EMPTYSPINE:
            c.put(tp, mode=I_(NORMAL) if I.eq(st, c.num(tp, H_), 0) else I_(FREE))
    old = c.excs(tp) if m != FREE else []
    c.setexc(tp, [])
    c.insert_items(tp, nd.t, ks, vs, cnt)
    new = []
    for (eh, e0, e1, en) in old:
        if I.eq(st, eh, nd.h) and I.eq(st, e0, nd.s):
            continue
        if I.ge(st, nd.t - e1) and I.eq(st, eh, nd.h - 1):
            new.append((eh, e0, e1, en))           # a child left of the new entry
        elif I.le(st, e0, nd.s) and I.le(st, nd.t, e1) and I.le(st, nd.h + 1, eh):
            new.append((eh, e0, e1 + cnt, en))     # an ancestor
        elif I.le(st, e1, nd.t):
            new.append((eh, e0, e1, en))
        else:
            raise Unsupported('node of unusual length after an insertion')
    if m not in (BUILD, FREE):
        new.append((nd.h, nd.s, nd.t + cnt, nd.n + 1))
    c.setexc(tp, new + es)
    settle(c, tp)
    nv = node_val(tp, nd.h, nd.s, nd.t + cnt, nd.n + 1, nd.root)
    if m == BUILD:
        c.remember(tp, 0, nd.h, nd.s, nd.t + cnt, nd.n + 1)
    I.store(st, p[1], p[2], nv)
    return UNIT


def I_(n):
    return ('I', L(n))


@contract
def insert(c, hv, k, v, sub=None):
    h = Hd(hv)
    nd, tp = h.node, h.tp
    I, st = c.I, c.st
    c.need(c.T(tp)[SHARED_][1] is not True, 'insertion into the shared empty root')
    leaf = sub is None
    if c.mode(tp) != NORMAL:
        raise Unsupported('insertion into a tree under construction')
    ks, vs = ((L(0), L(1), k),), ((L(0), L(1), v),)
    cnt = L(1)
    if not leaf:
        rt = sub[3][0]
        f = c.T(rt)
        c.need(I.need_eq(st, f[H_][1], nd.h - 1), 'the subtree has the wrong height')
        a, b = c.items(rt, L(0), f[N_][1])
        ks = ks + tuple(shift(x, L(1)) for x in a)
        vs = vs + tuple(shift(x, L(1)) for x in b)
        cnt = cnt + f[N_][1]
    pos = h.b if not leaf else h.a
    room = not leaf and I.eq(st, c.num(tp, ROOM_), nd.h)
    if room or I.need_le(st, nd.n, CAP - 1):
        if room:
            c.le(nd.n, CAP - 1)
        es = grow_exc(c, tp, nd.h, nd.s, pos, cnt)
        c.setexc(tp, [])
        c.insert_items(tp, pos, ks, vs, cnt)
        c.setexc(tp, [(a, b, t, n + 1 if I.eq(st, a, nd.h) and I.eq(st, b, nd.s) else n) for a, b, t, n in es])
        settle(c, tp)
        c.put(tp, room=I_(-1))
        if not leaf:
            I.store(st, rt[1], rt[2], ('DEAD',))
        nv = node_val(tp, nd.h, nd.s, nd.t + cnt, nd.n + 1, nd.root)
        fit = variant(c, 'InsertResult', 'Fit', handle_val(nv, pos, pos, h.i, True))
        if leaf:
            return ok(tup(fit, ('P', tp[1], tp[2] + (VS_, ('i', pos)))))
        return ok(fit)
    # full: allocates (the new node and whatever room the ancestors need), then splits
    bad = c.fail()
    root = c.is_root(tp, nd.h)
    if leaf:
        left = I.need_le(st, h.i, 6)
        nl = L(7) if left else L(6)
        m = nd.s + nl
    else:
        nl = c.fresh('n', MIN, CAP - 1)
        m = c.fresh('m')
        c.le(nd.s + nl, m)
        c.le(m + 1, nd.t + cnt)
    es = grow_exc(c, tp, nd.h, nd.s, pos, cnt)
    if es:
        raise Unsupported('split in a tree with nodes of unusual length')
    slot = ('P', tp[1], tp[2] + (VS_, ('i', pos)))
    c.insert_items(tp, pos, ks, vs, cnt)
    if not leaf:
        I.store(st, rt[1], rt[2], ('DEAD',))
    mk, mv = c.one(tp, KS_, m), c.one(tp, VS_, m)
    rk, rv = c.items(tp, m + 1, nd.t + cnt)
    c.cut_items(tp, m, nd.t + cnt)
    rn = nd.t + cnt - m - 1
    o = I.alloc(st, tree_val(rn, nd.h, rk, rv))
    right = ('A', 'Root', 0, (('P', o, ()),))
    nr = L(CAP) - nl
    if not leaf or True:
        cc = C(I, c.fr, st, c.f)
        cc.remember(('P', o, ()), 0, nd.h, L(0), rn, nr)
    if root:
        c.put(tp, H=('I', nd.h + 1))
        c.setexc(tp, [(nd.h + 1, L(0), c.num(tp, N_), L(0))])
    c.put(tp, room=('I', nd.h + 1))
    c.remember(tp, 0, nd.h, nd.s, m, nl)
    lv = node_val(tp, nd.h, nd.s, m, nl, nd.root)
    sp = variant(c, 'InsertResult', 'Split', lv, mk, mv, right)
    if leaf:
        q = ('P', ('o', ('slot', ('v', repr(v))), ('adt', 'V', ())), ())
        return [bad, ('ret', st, ok(tup(sp, q)))]
    return [bad, ('ret', st, ok(sp))]


@contract
def remove(c, hv):
    h = Hd(hv)
    nd, tp = h.node, h.tp
    I, st = c.I, c.st
    if not I.eq(st, nd.h, 0):
        raise Unsupported('removal of an entry of an internal node')
    k, v = c.one(tp, KS_, h.p), c.one(tp, VS_, h.p)
    if c.excs(tp):
        raise Unsupported('removal in a tree with nodes of unusual length')
    c.cut_items(tp, h.p, h.p + 1)
    again = ('g', ('cut', tp[1])) in st.mem
    st.mem[('g', ('cut', tp[1]))] = ('I', L(0) if again else h.p)
    st.mem[('g', ('cutend', tp[1]))] = ('I', L(1 << 62) if again else nd.t)
    set_len(c, tp, nd.h, nd.s, nd.t - 1, nd.n - 1)
    settle(c, tp)
    nv = node_val(tp, nd.h, nd.s, nd.t - 1, nd.n - 1, nd.root)
    return tup(handle_val(nv, h.p, h.p, h.i, False), k, v)


def siblings(c, h):
    """the children left and right of an entry: (a, p, nleft), (p + 1, b, nright)"""
    nd = h.node
    l, r = Hd(c.before(nd, h.p, h.i)), Hd(c.after(nd, h.p, h.i))
    if c.I.need_le(c.st, nd.h, 0):
        raise Bad('precondition', 'the entry is in a leaf')
    nl = c.nlen(h.tp, nd.h - 1, l.a, l.b)
    nr = c.nlen(h.tp, nd.h - 1, r.a, r.b)
    return (l.a, l.b, nl), (r.a, r.b, nr)


@contract
def can_merge(c, hv):
    h = Hd(arg(c, hv))
    l, r = siblings(c, h)
    return ('B', pge(L(CAP) - 1 - l[2] - r[2]))


def relen(c, tp, ups):
    """new lengths of nodes (h, s, t, n); exceptions of the nodes they replace go"""
    I, st = c.I, c.st
    es = c.excs(tp)
    c.forget(tp)
    out = []
    for e in es:
        drop = False
        for (h, s, t, n) in ups:
            if I.eq(st, e[0], h) and I.ge(st, e[1] - s) and I.ge(st, t - e[2]):
                drop = True
        if not drop:
            out.append(e)
    m = c.mode(tp)
    for u in ups:
        h, s, t, n = u
        out.append(u)
    c.setexc(tp, out)
    settle(c, tp)
    for (h, s, t, n) in ups:
        if not any(I.eq(st, e[0], h) and I.eq(st, e[1], s) for e in c.excs(tp)):
            c.remember(tp, 0, h, s, t, n)


@contract
def merge(c, hv):
    h = Hd(hv)
    nd, tp = h.node, h.tp
    I, st = c.I, c.st
    l, r = siblings(c, h)
    st.mem[('g', ('moved', tp[1]))] = ('I', L(1))
    c.need(I.need_le(st, l[2] + r[2] + 1, CAP), 'the merged node would hold more than %d entries' % CAP)
    n = l[2] + r[2] + 1
    relen(c, tp, [(nd.h - 1, l[0], r[1], n), (nd.h, nd.s, nd.t, nd.n - 1)])
    nv = node_val(tp, nd.h, nd.s, nd.t, nd.n - 1, nd.root)
    return handle_val(nv, l[0], r[1], h.i, False)


def steal(c, hv, cnt, left):
    h = Hd(arg(c, hv))
    nd, tp = h.node, h.tp
    I, st = c.I, c.st
    (a, p, nl), (q, b, nr) = siblings(c, h)
    src_, dst = (nl, nr) if left else (nr, nl)
    c.need(I.need_le(st, cnt, src_), 'more entries are taken than the node has')
    c.need(I.need_le(st, dst + cnt, CAP), 'the node would hold more than %d entries' % CAP)
    c.need(I.need_le(st, 1, cnt), 'nothing to move')
    st.mem[('g', ('moved', tp[1]))] = ('I', L(1))
    if I.eq(st, nd.h, 1):
        p2 = p - cnt if left else p + cnt
    else:
        p2 = c.fresh('p')
        if left:
            c.le(a + src_ - cnt, p2)
            c.le(p2 + cnt, p)
        else:
            c.le(p + cnt, p2)
            c.le(p2 + 1 + src_ - cnt, b)
    d = -cnt if left else cnt
    if c.mode(tp) == RB and I.ge(st, c.num(tp, ROOM_)):
        c.put(tp, room=('I', nd.h - 1))     # the nodes beside the border are full only below
    relen(c, tp, [(nd.h - 1, a, p2, nl + d), (nd.h - 1, p2 + 1, b, nr - d)])
    c.remember(tp, 0, nd.h, nd.s, nd.t, nd.n)
    c.remember(tp, 1, nd.h, a, p2)
    c.remember(tp, 2, nd.h, p2, a)
    if not I.eq(st, b, nd.t):
        c.remember(tp, 1, nd.h, p2 + 1, b)
        c.remember(tp, 2, nd.h, b, p2 + 1)
    if hv[0] == 'P':
        I.store(st, hv[1], hv[2], c.kv(nd, p2, h.i))
    return UNIT


@contract
def steal_left(c, hv):
    return steal(c, hv, L(1), True)


@contract
def steal_right(c, hv):
    return steal(c, hv, L(1), False)


@contract
def bulk_steal_left(c, hv, n):
    return steal(c, hv, n[1], True)


@contract
def bulk_steal_right(c, hv, n):
    return steal(c, hv, n[1], False)


@contract
def move_suffix(c, hp, rp):
    h = Hd(arg(c, hp))
    r = Nd(arg(c, rp))
    nd, tp = h.node, h.tp
    I, st = c.I, c.st
    c.need(I.need_le(st, r.n, 0), 'the right node is not empty')
    c.need(I.need_eq(st, r.h, nd.h), 'the nodes have different heights')
    c.need(c.T(r.tp)[SHARED_][1] is not True, 'moves into the shared empty root')
    # entries and children after the edge follow whatever is below the right node already
    ks, vs = c.cut_items(tp, h.b, nd.t)
    cnt = nd.t - h.b
    # the levels above are still empty; the roots are in order by themselves
    c.put(r.tp, mode=I_(LB), fix=('I', c.num(r.tp, H_)), room=('I', r.h))
    c.insert_items(r.tp, r.t, ks, vs, cnt)
    c.put(tp, mode=I_(RB), fix=('I', c.num(tp, H_)))
    c.setexc(tp, [])
    I.store(st, hp[1], hp[2], handle_val(node_val(tp, nd.h, nd.s, h.b, h.i, nd.root), h.a, h.b, h.i, False))
    I.store(st, rp[1], rp[2], node_val(r.tp, r.h, r.s, r.t + cnt, nd.n - h.i, r.root))
    return UNIT


@contract
def deallocate_and_ascend(c, v):
    nd = Nd(v)
    tp = nd.tp
    I, st = c.I, c.st
    c.need(I.truth(st, c.T(tp)[SHARED_][1]) is not True, 'the shared empty root is deallocated')
    f = c.T(tp)
    root = c.is_root(tp, nd.h)
    if root:
        c.equal(nd.s, 0)
        c.equal(nd.t, c.num(tp, N_))
    for w in (KS_, VS_):
        for lo, hi, t in I.ar_get(st, f[w], nd.s, nd.t):
            if t != X and not I.need_le(st, hi, lo):
                raise Bad('leak', 'a node is deallocated before its entries were taken out')
    if root:
        I.store(st, tp[1], tp[2], ('DEAD',))
        return NONE
    return some(up(c, nd))


# ---------------------------------------------------------------- search

def scontract(fn):
    setattr(TreeInterp, 's_' + fn.__name__.rstrip('_'), staticmethod(fn))
    return fn


def key_id(c, key):
    """identity of the key a reference leads to"""
    v = key
    while v[0] == 'P':
        v = c.I.deref_val(c.st, v)
    if v[0] == 'S':
        return v[1]
    raise Unsupported('key ' + show(v))


def rank(c, tp, key):
    """(number of smaller keys, is the key present)"""
    I, st = c.I, c.st
    kid_ = key_id(c, key)
    f = c.T(tp)
    if I.searched is not None and kid_ in I.ranks and I.same(st, f[KS_], I.searched):
        r, found = I.ranks[kid_]
    else:
        i = I.next_id()
        r, found = c.fresh('rank'), ('sym', ('found', i))
    c.ge(r)
    c.le(r, f[N_][1])
    t = I.truth(st, found)
    if t is None:
        raise NeedFork([found, pnot(found)])
    if t:
        c.le(r + 1, f[N_][1])
    return r, t


@scontract
def search_tree(c, nv, key):
    nd = Nd(nv)
    I, st = c.I, c.st
    unw = ('unw', st.copy(), None)
    r, t = rank(c, nd.tp, key)
    if not (I.eq(st, nd.s, 0) and I.eq(st, nd.t, c.num(nd.tp, N_))):
        raise Unsupported('search below the root')
    tp = nd.tp
    n = c.num(tp, N_)
    if I.need_le(st, n, 0):
        nd0 = nd
        c.equal(r, 0)
        return [unw, ('ret', st, variant(c, 'SearchResult', 'GoDown', c.edge(nd, L(0), L(0), L(0))))]
    h = c.fresh('h', 0, 2 ** 32) if t else L(0)
    H = c.num(tp, H_)
    c.le(h, H)
    if c.is_root(tp, h):
        h = H
        s, e = L(0), n
    else:
        s, e = c.fresh('s'), c.fresh('t')
        c.le(s, r)
        c.le(r + 1 if t else r, e)
        c.le(e, n)
        if I.need_le(st, h, 0):
            h = L(0)
    x = Nd(c.node(tp, h, s, e, nd.root))
    if I.need_le(st, x.h, 0):
        i = r - s
    else:
        i = c.fresh('i', 0, CAP)
        c.le(i, x.n - 1)
    if t:
        return [unw, ('ret', st, variant(c, 'SearchResult', 'Found', c.kv(x, r, i)))]
    return [unw, ('ret', st, variant(c, 'SearchResult', 'GoDown', c.edge(x, r, r, i)))]


@scontract
def search_linear(c, np_, key):
    nd = Nd(arg(c, np_))
    I, st = c.I, c.st
    tp = nd.tp
    unw = ('unw', st.copy(), None)
    r, t = rank(c, tp, key)
    if not (I.le(st, nd.s, r) and I.le(st, r, nd.t)):
        # the key is left or right of the whole node
        if I.need_le(st, nd.s, r):
            if not I.need_le(st, r, nd.t):
                return [unw, ('ret', st, tup(('I', nd.n), FALSE))]
        else:
            return [unw, ('ret', st, tup(('I', L(0)), FALSE))]
    if I.need_le(st, nd.h, 0):
        c.equal(nd.n, nd.t - nd.s)
        if t and I.need_le(st, r + 1, nd.t):
            return [unw, ('ret', st, tup(('I', r - nd.s), TRUE))]
        return [unw, ('ret', st, tup(('I', r - nd.s), FALSE))]
    i = c.fresh('i', 0, CAP)
    c.le(i, nd.n)
    outs = [unw]
    if t:
        # the key is one of this node's
        for c2 in consistent(c, nd, i, r, r, True):
            try:
                c2.le(r + 1, nd.t)
                c2.le(i + 1, nd.n)
                c2.remember(tp, 4, nd.h, nd.s, i, r)
                outs.append(('ret', c2.st, tup(('I', i), TRUE)))
            except Infeasible:
                pass
    a, b = c.fresh('a'), c.fresh('b')
    for c2 in consistent(c, nd, i, a, b, False):
        try:
            c2.le(nd.s, a)
            c2.le(b, nd.t)
            c2.le(a, r)
            c2.le(r, b)
            if t and I.le(c2.st, r + 1, nd.t):
                c2.le(r + 1, b)
            c2.remember(tp, 5, nd.h, nd.s, i, a, b)
            outs.append(('ret', c2.st, tup(('I', i), FALSE)))
        except Infeasible:
            pass
    return outs


def consistent(c, nd, i, a, b, kv):
    """contexts in which the result of this search in the node (entry or edge i, at a..b) agrees with earlier searches in it"""
    tp = nd.tp
    todo = [C(c.I, c.fr, c.st.copy(), c.f)]
    for e in c.T(tp)[CACHE_][3]:
        if e[1] != 'r6':
            continue
        h, s, i0, a0, b0, kv0 = (x[1] for x in e[3])
        if not (c.I.eq(c.st, h, nd.h) and c.I.eq(c.st, s, nd.s)):
            continue
        kv0 = kv0.const() == 1
        opts = []
        if kv == kv0:
            # the same entry / child, or one to the right or the left
            opts = [[(i, i0), (i0, i), (a, a0), (a0, a), (b, b0), (b0, b)], [(i0 + 1, i), (b0 + 1, a)], [(i + 1, i0), (b + 1, a0)]]
        elif kv:
            # entry i lies right of edge i0 iff i >= i0
            opts = [[(i0, i), (b0, a)], [(i + 1, i0), (a + 1, a0)]]
        else:
            opts = [[(i, i0), (b, a0)], [(i0 + 1, i), (a0 + 1, a)]]
        new = []
        for x in todo:
            for o in opts:
                y = C(c.I, c.fr, x.st.copy(), c.f)
                try:
                    for u, v in o:
                        y.le(u, v)
                    new.append(y)
                except Infeasible:
                    pass
        todo = new
    for x in todo:
        x.remember(tp, 6, nd.h, nd.s, i, a, b, L(1 if kv else 0))
    return todo


# ---------------------------------------------------------------- iterators as a whole (cases IntoIter::next)

def own_next(c, itp):
    I, st = c.I, c.st
    it = I.deref_val(st, itp)
    f, b = fld(I, it, 'front'), fld(I, it, 'back')
    if X in (f, b):
        raise Bad('moved', 'the iterator was moved out')
    f, b, ln = Hd(f), Hd(b), fld(I, it, 'length')[1]
    p, q, tp = f.b, b.a, f.tp
    c.need(I.need_eq(st, ln, q - p), 'the iterator counts %r entries but has %r' % (ln, q - p))
    if I.need_le(st, q, p):
        return NONE
    k, v = c.one(tp, KS_, p), c.one(tp, VS_, p)
    if k == X or v == X:
        raise Bad('double-drop', 'the entry was already taken')
    for w in (KS_, VS_):
        I.store(st, tp[1], tp[2] + (w, ('i', p)), X)
    if c.is_root(tp, L(0)):
        s, t = L(0), c.num(tp, N_)
    else:
        s, t = c.fresh('s'), c.fresh('t')
    c.le(s, p + 1)
    c.le(p + 1, t)
    c.le(t, c.num(tp, N_))
    nf = handle_val(c.node(tp, L(0), s, t), p + 1, p + 1, p + 1 - s, False)
    I.store(st, itp[1], itp[2], struct(I, 'IntoIter', front=nf, back=b.v, length=('I', ln - 1)))
    return some(tup(k, v))
