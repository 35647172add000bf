"""Set algebra: two ordered sets A and B are ghost sequences of elements; iterators over them are positions.

A position counts the elements taken since the last reference point (function entry or loop head); the elements taken since then are symbols
A0 < A1 < ..., of which the comparisons made so far (and membership tests) are kept as facts.  At every loop head and exit the elements taken
must have been dealt with: the result denoted by what is left (plus what is returned) is the result denoted before.  The reference point then
moves, so any number of iterations is covered by checking one."""
from .tree import *
from .loops import project

TT = ('adt', 'T', ())
SIDES = ('A', 'B')
GHOST = ('o', ('alg',), ('adt', '#Alg', ()))


def elem(side, k):
    return ('P', ('o', ('x', side, k), TT), ())


def setptr(side):
    return ('P', ('o', ('set', side), ('adt', 'BTreeSet', (TT,))), ())


def un(k):
    return ('A', 'L', 0, (UNIT,) * k)


def it(side, k=0):
    return ('A', '#It', 0, (('A', '#side', SIDES.index(side), ()), un(k)))


def it_of(v):
    """(side, position) of a ghost iterator"""
    if v[:2] != ('A', '#It'):
        return None
    return SIDES[v[3][0][2]], len(v[3][1][3])


class G:
    """the ghost record: number of elements not taken at the reference point, facts, whether the reference point has moved, what went wrong"""

    def __init__(self, st):
        v = st.mem[GHOST][3]
        self.n = {s: v[i][3][0][1] for i, s in enumerate(SIDES)}
        self.done = {s: v[i][2] == 1 for i, s in enumerate(SIDES)}
        self.facts = [dec(f) for f in v[2][3]]
        self.moved = v[3][2] == 1
        self.broken = v[4][2] == 1
        self.idle = frozenset(x[2] for x in v[7][3])
        self.taken = {s: len(v[5 + i][3]) for i, s in enumerate(SIDES)}

    def put(self, st):
        st.mem[GHOST] = ('A', '#Alg', 0, (*(('A', '#n', int(self.done[s]), (('I', L(self.n[s])),)) for s in SIDES),
                                         ('A', 'L', 0, tuple(enc(f) for f in sorted(set(self.facts)))),
                                         ('A', '#flag', int(self.moved), ()), ('A', '#flag', int(self.broken), ()),
                                         *(un(self.taken[s]) for s in SIDES), ('A', 'L', 0, tuple(('A', '#loop', x, ()) for x in sorted(self.idle)))))


# facts: ('lt'|'eq', x, y) on elements x, y = (side, k); ('in'|'out', x, side)
KINDS = ('lt', 'eq', 'in', 'out')


def enc(f):
    k, x, y = f
    e = lambda z: ('A', '#e', SIDES.index(z[0]), (un(z[1]),))
    return ('A', '#f', KINDS.index(k), (e(x), e(y) if k in ('lt', 'eq') else e((y, 0))))


def dec(v):
    k = KINDS[v[2]]
    d = lambda e: (SIDES[e[2]], len(e[3][0][3]))
    x, y = (d(e) for e in v[3])
    return k, x, y if k in ('lt', 'eq') else y[0]


def begin(st, na, nb, taken=None):
    g = G.__new__(G)
    g.n, g.facts, g.moved, g.broken = {'A': L(na), 'B': L(nb)}, [], False, False
    g.done = {'A': False, 'B': False}
    g.taken = dict(taken or {'A': 0, 'B': 0})
    g.idle = frozenset()
    g.put(st)


class Order:
    """closure of the comparisons and of the order within each set; known = number of elements taken on each side"""

    def __init__(self, I, st, g, known):
        self.I, self.st, self.g = I, st, g
        self.known = dict(known)
        for k, x, y in g.facts:
            for e in (x, y) if k in ('lt', 'eq') else (x,):
                self.known[e[0]] = max(self.known[e[0]], e[1] + 1)
        ns = [(s, k) for s in SIDES for k in range(self.known[s])]
        d = {}
        for s in SIDES:
            for k in range(self.known[s] - 1):
                d[(s, k), (s, k + 1)] = 1
        for k, x, y in g.facts:
            if k == 'lt':
                d[x, y] = 1
            elif k == 'eq':
                for p in ((x, y), (y, x)):
                    d[p] = max(0, d.get(p, 0))
        for m in ns:
            for x in ns:
                if (x, m) in d:
                    for y in ns:
                        if (m, y) in d:
                            w = max(d[x, m], d[m, y])
                            if d.get((x, y), -1) < w:
                                d[x, y] = w
        self.d = d

    def cmp(self, x, y):
        if x == y:
            return 0
        if self.d.get((x, y)) == 1:
            return -1
        if self.d.get((y, x)) == 1:
            return 1
        if (x, y) in self.d and (y, x) in self.d:
            return 0
        return None

    def lt(self, x, y):
        return self.cmp(x, y) == -1

    def le(self, x, y):
        return x == y or (x, y) in self.d

    def ended(self, s, k):
        """side s has no element from index k on"""
        return bool(self.I.ge(self.st, L(k) - self.g.n[s]))

    def equal_in(self, x, s, lo, hi):
        """index in [lo, hi) of the element of s known to equal x"""
        for k in range(lo, min(hi, self.known[s])):
            if self.cmp(x, (s, k)) == 0:
                return k
        return None

    def member(self, x, s):
        """is x in s (from the reference point on)?"""
        if x[0] == s:
            return True
        if ('in', x, s) in self.g.facts or self.equal_in(x, s, 0, self.known[s]) is not None:
            return True
        if ('out', x, s) in self.g.facts:
            return False
        for k in range(self.known[s] + 1):
            # beyond the elements below k, before element k
            if k and not self.lt((s, k - 1), x):
                return None
            if self.ended(s, k) or k < self.known[s] and self.lt(x, (s, k)):
                return False
        return None

    def below(self, x, s, k):
        """x is less than every element of s from index k on"""
        return self.ended(s, k) or k < self.known[s] and self.lt(x, (s, k)) or \
            any(self.le(x, (s, j)) for j in range(min(k, self.known[s])))

    def consistent(self):
        for x in {p for e in self.d for p in e}:
            if self.d.get((x, x)) == 1:
                return False
        for k, x, s in self.g.facts:
            if k == 'in' and ('out', x, s) in self.g.facts:
                return False
        return True


def step(o, op, at, y=None, end=False):
    """None, or what is wrong with going from the reference point to positions `at`, having yielded element y (None: none; end: `no element left`)"""
    other = {'A': 'B', 'B': 'A'}
    gone = [(s, k) for s in SIDES for k in range(at[s])]

    def rest(s):
        return [(s, k) for k in range(at[s], o.known[s])]

    def unless_left(x, s):
        """x is not among the elements of s that are left"""
        if x[0] == s:
            return x[1] < at[s]
        return o.below(x, s, at[s]) or o.equal_in(x, s, 0, at[s]) is not None or o.member(x, s) is False

    def is_y(x):
        return y is not None and o.cmp(x, y) == 0
    if y is not None:
        m = o.member(y, other[y[0]])
        if op in ('difference', 'symmetric_difference') and m is not False:
            return 'yields an element that may be in both sets'
        if op == 'difference' and y[0] != 'A':
            return 'yields an element of the wrong set'
        if op == 'intersection' and m is not True:
            return 'yields an element that may not be in both sets'
        if op == 'union' and not (unless_left(y, 'A') and unless_left(y, 'B')):
            return 'yields an element that may be yielded again'
        if op != 'union' and y[1] >= at[y[0]] and not (op == 'intersection' and unless_left(y, other[y[0]])):
            return 'yields an element that may be yielded again'
        if op in ('union', 'symmetric_difference') and not all(o.below(y, s, at[s]) or s == y[0] and y[1] < at[s] for s in SIDES):
            return 'yields an element out of order'
    for x in gone:
        t = other[x[0]]
        if is_y(x):
            continue
        m = o.member(x, t)
        left = [e for e in rest(t) if o.cmp(e, x) == 0]
        if op in ('difference', 'subset'):
            if x[0] == 'A' and m is not True:
                return 'an element of the first set is passed over that may not be in the second'
            if x[0] == 'B' and not unless_left(x, 'A'):
                return 'an element of the second set is passed over that may be in what is left of the first'
        elif op in ('intersection', 'disjoint'):
            if m is not False:
                return 'an element is passed over that may be in both sets'
        elif op == 'union':
            if not left:
                return 'an element is passed over'
        else:
            if m is not True or o.equal_in(x, t, 0, at[t]) is None:
                return 'an element is passed over that may be in one set only'
    if end:
        a, b = o.ended('A', at['A']), o.ended('B', at['B'])
        if not {'difference': a, 'subset': a, 'intersection': a or b, 'disjoint': a or b}.get(op, a and b):
            return 'ends although elements may be left'
    return None


class AlgInterp(TreeInterp):
    cycles = True
    op = None                   # the operation whose iterator is at work: what may be passed over

    def contract(self, f):
        k = src.fn_key(f)
        if f.impl is not None and k.startswith('btree::set::') and '{closure' not in f.name:
            t = f.impl.self_ty
            while t[0] == 'ref':
                t = t[2]
            if t[0] == 'adt' and k != self.entry:
                nm = mir.last(t[1])
                m = getattr(self, 'g_%s_%s' % (nm, f.method), None) or self.own.get((nm, f.method))
                if m is not None:
                    return lambda I, fr, st, f, env, args, tys, rty: self.run_contract(m, fr, st, f, args, env)
                if nm == 'Iter':
                    raise Unsupported('iterator operation ' + f.method)
        return super().contract(f)

    # ------------------------------------------------ elements
    def elem(self, st, v):
        while v[0] == 'P':
            if v[1][0] == 'o' and v[1][1][0] == 'x' and not v[2]:
                return v[1][1][1:]
            v = self.deref_val(st, v)
        return None

    def known(self, st):
        return dict(G(st).taken)

    def order_of(self, st):
        g = G(st)
        return Order(self, st, g, self.known(st))

    def order(self, st, a, b):
        x, y = (self.elem(st, v) if v[0] == 'P' else v[1][1][1:] if v[0] == 'S' and v[1][0] == '*' and v[1][1][0] == 'x' else None
                for v in (a, b))
        if x is None or y is None:
            return super().order(st, a, b)
        if 'gone' in (x[0], y[0]):
            return None
        o = self.order_of(st).cmp(x, y)
        if o is not None:
            return [(st, o)]
        outs = []
        for r in (-1, 0, 1):
            s = st.copy()
            g = G(s)
            g.facts.append(('eq', x, y) if r == 0 else ('lt', x, y) if r < 0 else ('lt', y, x))
            g.put(s)
            if self.order_of(s).consistent():
                outs.append((s, r))
        return outs

    # ------------------------------------------------ sets
    def side(self, p):
        if p[0] == 'P' and p[1][0] == 'o' and p[1][1][0] == 'set' and not p[2]:
            return p[1][1][1]
        raise Unsupported('set ' + show(p)[:60])

    def g_BTreeSet_iter(self, c, p):
        return ghost(c, p, lambda s: it(s))

    def g_BTreeSet_into_iter(self, c, p):
        if p[0] != 'P':
            raise Unsupported('set by value')
        return self.g_BTreeSet_iter(c, p)

    def g_BTreeSet_len(self, c, p):
        return ghost(c, p, lambda s: ('I', G(c.st).n[s]))

    def g_BTreeSet_is_empty(self, c, p):
        n = G(c.st).n[self.side(p)]
        if G(c.st).moved:
            raise Unsupported('size of a set in a loop')
        return ('B', self.need_le(c.st, n, 0))

    def g_BTreeSet_contains(self, c, p, v):
        s, x = self.side(p), self.elem(c.st, v)
        if x is None or x[0] == 'gone':
            raise Unsupported('element ' + show(v)[:60])
        o = self.order_of(c.st)
        if o.known[s] and not o.ended(s, 0) and s != x[0]:
            raise Unsupported('search in a set that is walked through')
        t = o.member(x, s)
        outs = [('unw', c.st.copy(), None)]
        for r in (True, False) if t is None else (t,):
            st = c.st.copy()
            if t is None:
                g = G(st)
                g.facts.append(('in' if r else 'out', x, s))
                g.put(st)
                f = st.facts.add_ge(g.n[s] - 1, self.nn) if r else st.facts
                if f is None:
                    continue
                st.facts = f
            outs.append(('ret', st, ('B', r)))
        return outs

    def g_BTreeSet_get(self, c, p, v):
        outs = []
        for o in self.g_BTreeSet_contains(c, p, v):
            if o[0] == 'ret':
                x = self.elem(c.st, v)
                o = ('ret', o[1], some(elem(*x)) if o[2][1] else NONE)
            outs.append(o)
        return outs

    # ------------------------------------------------ iterators over one set
    def g_Iter_next(self, c, p):
        v = deref(c, p)
        r = it_of(v)
        if r is None:
            raise Unsupported('iterator ' + show(v)[:60])
        s, k = r
        n = G(c.st).n[s]
        if self.need_le(c.st, n, k):
            return NONE
        if k >= 6:
            raise Unsupported('too many elements in one step')
        self.store(c.st, p[1], p[2], it(s, k + 1))
        g = G(c.st)
        g.taken[s] = max(g.taken[s], k + 1)
        g.idle = frozenset()            # progress
        g.put(c.st)
        return some(elem(s, k))

    def g_Iter_clone(self, c, p):
        return deref(c, p)

    def g_Iter_len(self, c, p):
        s, k = it_of(deref(c, p)) or self.bad(c, p)
        n = G(c.st).n[s] - k
        c.ge(n)
        return ('I', n)

    def g_Iter_size_hint(self, c, p):
        n = self.g_Iter_len(c, p)
        return ('A', 'tuple', 0, (n, some(n)))

    def bad(self, c, p):
        raise Unsupported('iterator ' + show(deref(c, p))[:60])

    # ------------------------------------------------ loops
    def round_begins(self, st, h):
        g = G(st)
        g.idle |= {h}
        st = st.copy()
        g.put(st)
        return st

    def round_idle(self, st, h):
        """no element was taken since the loop with header h was at its head"""
        g = G(st)
        r = h in g.idle
        g.idle -= {h}
        g.put(st)
        return r

    def on_trim(self, st):
        super().on_trim(st)
        if GHOST not in st.mem or self.op is None:
            return
        g = G(st)
        known = self.known(st)
        refs = set()
        for k, v in st.mem.items():
            if k != GHOST:
                elems(v, refs)
        o = Order(self, st, g, known)
        cands = {}
        keep = {}
        for v in st.mem.values():
            peeked(v, keep)
        for s in SIDES:
            cs = [min(known[s], keep.get(s, known[s]))]
            while cs[-1] > 0 and (s, cs[-1] - 1) in refs:
                cs.append(cs[-1] - 1)
            cands[s] = cs
        best = None
        for a in cands['A']:
            for b in cands['B']:
                if (best is None or (known['A'] - a + known['B'] - b) < best[0]) and step(o, self.op, {'A': a, 'B': b}) is None:
                    best = (known['A'] - a + known['B'] - b, {'A': a, 'B': b})
        if best is None:
            at = {s: cands[s][-1] for s in SIDES}
            g.broken = True
        else:
            at = best[1]
        m = {}
        for s in SIDES:
            for k in range(o.known[s]):
                m['x', s, k] = ('x', s, k - at[s]) if k >= at[s] else ('x', 'gone', s)
            c = g.taken[s] = known[s] - at[s]
            g.done[s] = bool(self.ge(st, L(known[s]) - g.n[s]))
            x = 'm' + s
            st.facts = project(st.facts, self.nn, {x} | {a for a in ('na', 'nb') if a[1] == s.lower()})
            self.rng[x] = (0, BIG)
            g.n[s] = L(c) if g.done[s] else V(x)
            st.facts = st.facts.add_ge(g.n[s] - c, self.nn) or st.facts
        g.moved = True
        for k in list(st.mem):
            if k != GHOST:
                st.mem[k] = shift(st.mem[k], m, at)
        g.facts = []
        g.put(st)


def ghost(c, p, fn):
    s = c.I.side(p)
    if G(c.st).moved:
        raise Unsupported('set taken up again in a loop')
    return fn(s)


def peeked(v, keep):
    """elements held in a Peekable are not taken"""
    if isinstance(v, tuple):
        if v[:2] == ('A', 'Peekable'):
            acc = set()
            elems(v[3][1], acc)
            for s, k in acc:
                if s in SIDES:
                    keep[s] = min(keep.get(s, k), k)
            return
        for x in v:
            if isinstance(x, tuple):
                peeked(x, keep)


def elems(v, out):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'o' and isinstance(v[1], tuple) and v[1][:1] == ('x',):
            out.add(v[1][1:])
            return
        for x in v:
            if isinstance(x, tuple):
                elems(x, out)


def shift(v, m, at):
    if not isinstance(v, tuple):
        return v
    if v[:2] == ('A', '#It'):
        s, k = it_of(v)
        return it(s, max(0, k - at[s]))
    if len(v) == 3 and v[0] == 'o' and isinstance(v[1], tuple) and v[1] in m:
        return ('o', m[v[1]], v[2])
    r = tuple(shift(x, m, at) if isinstance(x, tuple) else x for x in v)
    return v if r == v else r
