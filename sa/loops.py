"""Loop fixpoints: peel the first iteration, then join loop-head states by affine generalisation over
loop counters until the loop body maps the head invariant into itself."""
import itertools
from .lin import Lin, V, L, Facts, project
from .vals import *

_ids = itertools.count(1)
TRACE = False


class Mismatch(Exception):
    pass


class Cand:
    __slots__ = ('G', 'atoms', 'syms', 'outs', 'reps', 'ver', 'relaxed')

    def __init__(self):
        self.relaxed = frozenset()


def trim(I, fr, h, st):
    """forget locals that are dead at the loop head and heap cells nothing refers to"""
    live, taken = I.cfg(fr.f)[2][h]
    st = st.copy()
    for k in list(st.mem):
        if k[0] == 'l' and k[1] == fr.d and k[2] not in live and k[2] not in taken:
            del st.mem[k]
        elif k[0] == 'o' and st.mem[k] == I.objinit(k):
            del st.mem[k]           # as it was on entry
    reach = set()
    work = [v for k, v in st.mem.items() if k[0] != 'h']
    while work:
        v = work.pop()
        for o in heap_refs(v):
            if o not in reach:
                reach.add(o)
                if o in st.mem:
                    work.append(st.mem[o])
    for k in list(st.mem):
        if k[0] == 'h' and k not in reach:
            del st.mem[k]
    I.on_trim(st)
    if I.project:
        tidy(I, st)
    return st


def decided(I, fr, h, st):
    """the state, split until every boolean local that is live at the loop head is a constant"""
    from .interp import NeedFork
    live, taken = I.cfg(fr.f)[2][h]
    out, work = [], [st]
    while work:
        s = work.pop()
        for k, v in s.mem.items():
            if k[0] == 'l' and k[1] == fr.d and v[0] == 'B' and v[1] not in (True, False) and (k[2] in live or k[2] in taken):
                break
        else:
            out.append(s)
            continue
        t = I.truth(s, v[1])
        preds = [v[1], pnot(v[1])] if t is None else [True]
        for p in preds:
            try:
                s2 = s.copy() if p is True else I.assume(s, p)
                if s2 is not None:
                    if s2 is s:
                        return [st]
                    s2 = s2.copy()
                    s2.mem[k] = ('B', t if t is not None else p is preds[0])
                    work.append(s2)
            except NeedFork as e:
                for q in e.preds:
                    s3 = I.assume(s, q)
                    if s3 is s:
                        return [st]
                    if s3 is not None:
                        work.append(s3)
        if len(work) + len(out) > 64:
            return [st]
    return out


def tidy(I, st):
    """project away the facts about quantities nothing refers to"""
    seen = set()
    work = list(st.mem.values()) + list(st.refine)
    while work:
        v = work.pop()
        if isinstance(v, Lin):
            for a, _ in v.m:
                seen.add(a)
                if isinstance(a, tuple):
                    work.extend(x for x in a if isinstance(x, (tuple, Lin)))
        elif isinstance(v, tuple):
            work.extend(x for x in v if isinstance(x, (tuple, Lin)))
    dead = {a for f in st.facts.ge for a in f.atoms() if isinstance(a, tuple) and a[0] in ('t', 'k', 'w') and a not in seen}
    st.facts = project(st.facts, I.nn, dead)


_hr = {}


def heap_refs(v):
    r = _hr.get(v)
    if r is None:
        acc = set()
        _heap(v, acc)
        r = tuple(acc)
        if len(_hr) > 200000:
            _hr.clear()
        _hr[v] = r
    return r


def _heap(v, acc):
    if isinstance(v, Lin):
        for a, _ in v.m:
            if isinstance(a, tuple):
                _heap(a, acc)
        return
    if not isinstance(v, tuple) or not v:
        return
    if v[0] == 'P':
        if v[1][0] == 'h':
            acc.add(v[1])
    for x in v:
        if isinstance(x, (tuple, Lin)):
            _heap(x, acc)


def compat(a, b):
    """templates could describe the same kind of cell"""
    if a == b:
        return 3
    if (a[0] == 'X') != (b[0] == 'X'):
        return 0
    return 1 + like(a, b)


def like(a, b):
    if isinstance(a, Lin) and isinstance(b, Lin):
        return 1
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return 1 if a == b else 0
    if len(a) != len(b) or not a:
        return 0
    if isinstance(a[0], str) and isinstance(b[0], str) and a[0] != b[0]:
        return 0
    return min(like(x, y) for x, y in zip(a, b))


def align(A, B, both=False):
    """pair the segments of two arrays; a segment without counterpart is paired with an empty one
    (marked by a fourth component) or, when `both` is unset, with None on the left"""
    n, m = len(A), len(B)
    if n == m and all(compat(x[2], y[2]) for x, y in zip(A, B)):
        return list(zip(A, B))
    best = {}

    def go(i, j):
        r = best.get((i, j))
        if r is not None:
            return r
        if i == n and j == m:
            r = (0, None)
        else:
            r = (-10**6, None)
            if i < n and j < m:
                c = compat(A[i][2], B[j][2])
                if c:
                    r = (go(i + 1, j + 1)[0] + c, 'm')
            if i < n:
                q = go(i + 1, j)[0] - 1
                if q > r[0]:
                    r = (q, 'a')
            if j < m:
                q = go(i, j + 1)[0] - (1 if both else 1000)
                if q > r[0]:
                    r = (q, 'b')
        best[(i, j)] = r
        return r
    go(0, 0)
    i = j = 0
    out = []

    def edge(S, k):
        if k > 0:
            return S[k - 1][1]
        return S[0][0] if S else other[0][0]
    while (i, j) != (n, m):
        k = best[(i, j)][1]
        if k == 'm':
            out.append((A[i], B[j]))
            i += 1; j += 1
        elif k == 'a':
            other = A
            e = edge(B, j)
            if e is None:
                raise Mismatch('segments')
            out.append((A[i], (e, e, A[i][2], 1)))
            i += 1
        else:
            if not both:
                out.append((None, B[j]))
                j += 1
                continue
            other = B
            e = edge(A, i)
            if e is None:
                raise Mismatch('segments')
            out.append(((e, e, B[j][2], 1), B[j]))
            j += 1
    return out


def moved(a, b):
    """the templates differ by a shift of the index"""
    if isinstance(a, Lin) and isinstance(b, Lin):
        return a == b or (dict(a.m).get(IDX, 0) == dict(b.m).get(IDX, 0) != 0)
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return a == b
    return len(a) == len(b) and all(moved(x, y) for x, y in zip(a, b))


def presplit(I, st, A, B, fixed=None):
    """cut a segment of A where B keeps the same cells, changes some, and goes on with the same cells (or moved ones)"""
    out = []
    for lo, hi, t in A:
        for j, b in enumerate(B):
            if b[2] == t and b[0] == lo and b[1] != hi and contains_idx(t) and (fixed is None or fixed(b[1])) and (
                    t[0] == 'I' or any(moved(x[2], t) for x in B[j + 1:])) and j + 1 < len(B) and \
                    I.le(st, lo, b[1]) and I.le(st, b[1], hi):
                out.append((lo, b[1], t))
                lo = b[1]
                break
        out.append((lo, hi, t))
    return tuple(out)


class Joiner:
    def __init__(self, I, g, s, atoms, syms, reuse=False):
        self.I, self.g, self.s = I, g, s
        self.bij = {}
        self.rev = {}
        self.q = []
        self.leaf = {}
        self.kvar = None
        self.atoms = set(atoms)
        self.old = frozenset(x for x in atoms if x[0] == 'k')
        self.reuse = reuse
        self.new = set()
        self.syms = dict(syms)
        self.varied = []
        self.spans = []

    def lin(self, a, b):
        if a == b:
            return a
        r = self.leaf.get((a, b))
        if r is not None:
            return r
        k = dict(a.m).get(IDX, 0)
        if k and dict(b.m).get(IDX, 0) == k:
            x = VIDX.scale(k)
            r = self.leaf[(a, b)] = self.lin(a - x, b - x) + x
            return r
        d = b - a
        c = d.const()
        if c is not None:
            if self.I.eq(self.s, a, b):
                r = a
            elif self.reuse and any(x in self.old and abs(k) == 1 for x, k in a.m):
                r = a                   # a counter is there already
            else:
                if self.kvar is None:
                    at_ = ('k', next(_ids))
                    self.I.rng[at_] = (0, None)
                    self.kvar = at_
                    self.atoms.add(at_)
                    self.new.add(at_)
                # one counter per join; slope 1 per unit so that equal strides share it
                r = a + V(self.kvar).scale(c) if not self.wide(a) else self.newvar(a, b)
        elif self.I.eq(self.s, a, b):
            r = a
        else:
            r = None
            if len(a.m) == 1 and len(b.m) == 1 and a.c == b.c and a.m[0][1] == b.m[0][1]:
                x, y = a.m[0][0], b.m[0][0]
                if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] and x[0] not in ('t', 'k', 'w'):
                    try:
                        z = self.walk(x, y)
                        if x in self.I.rng:
                            self.I.rng.setdefault(z, self.I.rng[x])
                        r = Lin(a.c, ((z, a.m[0][1]),))
                    except Mismatch:
                        r = None
            if r is None:
                r = self.newvar(a, b)
        self.leaf[(a, b)] = r
        if r != a:
            self.varied.append((r, a, b))
        return r

    def wide(self, a):
        """too many counters already: widen to an unconstrained one"""
        n = sum(1 for x, _ in a.m if x in self.atoms)
        return n > 2 or (n and any(x[0] == 'w' for x, _ in a.m if isinstance(x, tuple)))

    def newvar(self, a, b):
        at_ = ('w', next(_ids))
        lo = 0 if self.I.ge(self.g, a) and self.I.ge(self.s, b) else None
        self.I.rng[at_] = (lo, None)
        self.atoms.add(at_)
        self.new.add(at_)
        return V(at_)

    def obj(self, a, b):
        if a[0] == 'h' and b[0] == 'h':
            o = self.bij.get(a)
            if o is None:
                if b in self.rev:
                    raise Mismatch('alias')
                self.bij[a] = b
                self.rev[b] = a
                self.q.append((a, b))
            elif o != b:
                raise Mismatch('alias')
            return a
        if a[0] != b[0]:
            raise Mismatch('object kind')
        return self.tup(a, b)

    def tup(self, a, b):
        if len(a) != len(b):
            raise Mismatch('shape')
        out = []
        for x, y in zip(a, b):
            out.append(self.walk(x, y))
        return tuple(out)

    def walk(self, a, b):
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.lin(a, b)
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            if a == b:
                return a
            raise Mismatch('%r vs %r' % (a, b))
        if a == b and not heap_refs(a):
            return a
        if not a or not b:
            raise Mismatch('empty')
        if a[0] == 'S' or b[0] == 'S':
            return self.sym(a, b)
        if a[0] != b[0] and isinstance(a[0], str) and isinstance(b[0], str):
            raise Mismatch('%s vs %s' % (show(a), show(b)))
        if a[0] == 'P' and len(a) == 3:
            return ('P', self.obj(a[1], b[1]), self.tup(a[2], b[2]))
        if a[0] == 'AR':
            return ('AR', self.segs(a[1], b[1]))
        if a[0] == 'B' and len(a) == 2:
            try:
                return ('B', self.walk(a[1], b[1]))
            except Mismatch:
                if self.I.split_flags and a[1] in (True, False) and b[1] in (True, False):
                    raise Mismatch('flag')
                return ('B', ('sym', ('gen', next(_ids))))
        return self.tup(a, b)

    def sym(self, a, b):
        I = self.I
        if a[0] != b[0]:
            a, b = I.resolve(self.g, a), I.resolve(self.s, b)
            if a[0] == b[0] and a[0] != 'S':
                return self.walk(a, b)
            raise Mismatch('symbol vs value')
        if a[1] == b[1]:
            return a
        ra, rb = self.g.refine.get(a[1]), self.s.refine.get(b[1])
        if ra is not None or rb is not None:
            if ra != rb:
                raise Mismatch('variant')
            return self.walk(I.resolve(self.g, a), I.resolve(self.s, b))
        nl = dict(self.leaf)
        try:
            return ('S', self.walk(a[1], b[1]), a[2])
        except Mismatch:
            self.leaf = nl
            k = ('gen', next(_ids))
            self.syms[k] = True
            return ('S', k, a[2])

    def segs(self, A, B):
        out = []
        A, B = self.presplit(self.g, A, B), self.presplit(self.s, B, A)
        for sa, sb in align(A, B, True):
            (alo, ahi, ta), (blo, bhi, tb) = sa[:3], sb[:3]
            lo, hi = self.walk(alo, blo), self.walk(ahi, bhi)
            self.spans.append((hi - lo, ahi - alo, bhi - blo))
            if len(sa) == 4 or len(sb) == 4:
                t = ta if len(sb) == 4 else tb
                t = self.single(t, A if len(sb) == 4 else B, *((self.g, alo, ahi) if len(sb) == 4 else (
                    self.s, blo, bhi)))
            elif ta == tb:
                t = ta
                if heap_refs(ta):
                    self.walk(ta, tb)
            else:
                ia, ib = contains_idx(ta), contains_idx(tb)
                if not ia and ib and self.I.eq(self.g, ahi, alo + 1):
                    cand = at(tb, alo)
                    if self.I.same(self.g, cand, ta):
                        out.append((lo, hi, tb))
                        continue
                    if self.I.eq(self.s, bhi, blo + 1):
                        t = self.walk(ta, at(tb, blo))
                        out.append((lo, hi, t))
                        continue
                    # template of b re-based to the start of a: leaves differ affinely
                    ta = self.reidx(ta, tb, alo, blo)
                elif not ib and ia and self.I.eq(self.s, bhi, blo + 1):
                    if self.I.same(self.s, at(ta, blo), tb):
                        out.append((lo, hi, ta))
                        continue
                    if self.I.eq(self.g, ahi, alo + 1):
                        ta = at(ta, alo)
                elif not ia and not ib and self.I.eq(self.g, ahi, alo + 1) and self.I.eq(self.s, bhi, blo + 1):
                    pass
                t = self.walk(ta, tb)
            out.append((lo, hi, t))
        return tuple(out)

    def presplit(self, st, A, B):
        """cut a segment of A where B keeps the same cells, changes some, and goes on with the same cells"""
        return presplit(self.I, st, A, B)

    def single(self, t, S, st, lo, hi):
        """a one-cell counter segment next to cells that count their position counts too"""
        if t[0] == 'I' and not contains_idx(t) and self.I.eq(st, hi, lo + 1) and any(
                x[2][0] == 'I' and dict(x[2][1].m).get(IDX, 0) == 1 for x in S):
            return ('I', t[1] + VIDX - lo)
        return t

    def reidx(self, x, tb, alo, blo):
        """rewrite the constant x as a template of the same shape as tb (IDX leaves where tb has them)"""
        if isinstance(x, Lin) and isinstance(tb, Lin):
            k = dict(tb.m).get(IDX, 0)
            if k:
                return x + (VIDX - alo).scale(k)
            if len(x.m) == 1 and len(tb.m) == 1 and isinstance(x.m[0][0], tuple) and isinstance(tb.m[0][0], tuple):
                return Lin(x.c, ((self.reidx(x.m[0][0], tb.m[0][0], alo, blo), x.m[0][1]),))
            return x
        if isinstance(x, tuple) and isinstance(tb, tuple) and len(x) == len(tb):
            return tuple(self.reidx(p, q, alo, blo) for p, q in zip(x, tb))
        return x

    def run(self):
        from .interp import St
        g, s, I = self.g, self.s, self.I
        mem = {}
        keys = [k for k in g.mem if k[0] != 'h']
        for k in keys:
            if k not in s.mem:
                if k[0] == 'o':
                    I.load_obj(s, k)
                elif k[0] == 'g':
                    s.mem[k] = ('I', L(0))
                else:
                    continue
            mem[k] = self.walk(g.mem[k], s.mem[k])
        for k in s.mem:
            if k[0] == 'o' and k not in g.mem:
                a = I.load_obj(g, k)
                mem[k] = self.walk(a, s.mem[k])
            elif k[0] == 'g' and k not in g.mem:
                mem[k] = self.walk(('I', L(0)), s.mem[k])
        done = set()
        while self.q:
            a, b = self.q.pop()
            if a in done:
                continue
            done.add(a)
            if a in g.mem and b in s.mem:
                mem[a] = self.walk(g.mem[a], s.mem[b])
            elif a in g.mem or b in s.mem:
                raise Mismatch('dead object')
        refine = {k: v for k, v in g.refine.items() if s.refine.get(k) == v}
        if g.pan != s.pan:
            raise Mismatch('panicking')
        return St(mem, Facts(), refine, g.pan)


class Matcher:
    """s is an instance of the invariant G: bind its loop atoms and symbols"""

    def __init__(self, I, c, s):
        self.I, self.c, self.s = I, c, s
        self.eqs = []
        self.bij = {}
        self.rev = {}
        self.q = []
        self.symb = {}

    def m(self, a, b):
        if isinstance(a, Lin) and isinstance(b, Lin):
            if a == b and not self.has(a):
                return
            self.eqs.append((a, b))
            return
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            if a != b:
                raise Mismatch('%r/%r' % (a, b))
            return
        if a == b and not heap_refs(a) and not self.has(a):
            return
        if not a or not b:
            raise Mismatch('empty')
        if a[0] == 'S':
            if a[1] in self.c.syms:
                if b[0] != 'S':
                    raise Mismatch('sym')
                o = self.symb.get(a[1])
                if o is None:
                    self.symb[a[1]] = b[1]
                elif o != b[1]:
                    raise Mismatch('sym')
                return
        if (a[0] == 'S') != (b[0] == 'S'):
            a2, b2 = self.I.resolve(self.c.G, a), self.I.resolve(self.s, b)
            if (a2[0] == 'S') != (b2[0] == 'S'):
                raise Mismatch('symbol/value %s %s' % (show(a), show(b)))
            return self.m(a2, b2)
        if a[0] != b[0] and (isinstance(a[0], str) or isinstance(b[0], str)):
            raise Mismatch('%s/%s' % (show(a), show(b)))
        if a[0] == 'P' and len(a) == 3:
            x, y = a[1], b[1]
            if x[0] == 'h' and y[0] == 'h':
                o = self.bij.get(x)
                if o is None:
                    if y in self.rev:
                        raise Mismatch('alias')
                    self.bij[x] = y
                    self.rev[y] = x
                    self.q.append((x, y))
                elif o != y:
                    raise Mismatch('alias')
            else:
                self.m(x, y)
            self.m(a[2], b[2])
            return
        if a[0] == 'AR':
            for sa, sb in align(a[1], presplit(self.I, self.s, b[1], a[1], lambda x: not self.has(x)) if self.I.project else b[1]):
                if sa is None:
                    raise Mismatch('segments %s / %s' % (show(a), show(b)))
                (alo, ahi, ta), (blo, bhi, tb) = sa, sb[:3]
                self.m(alo, blo)
                self.m(ahi, bhi)
                if len(sb) == 4:
                    continue
                if contains_idx(ta) and not contains_idx(tb) and self.I.eq(self.s, bhi, blo + 1):
                    self.m(at(ta, blo), tb)
                else:
                    self.m(ta, tb)
            return
        if len(a) != len(b):
            raise Mismatch('len')
        if a[0] == 'B' and len(a) == 2 and isinstance(a[1], tuple) and a[1][0] == 'sym' and \
                isinstance(a[1][1], tuple) and a[1][1][0] == 'gen':
            return
        for x, y in zip(a, b):
            self.m(x, y)

    def has(self, x):
        """mentions a loop atom / symbol"""
        if isinstance(x, Lin):
            return any(a in self.c.atoms or (isinstance(a, tuple) and self.has(a)) for a, _ in x.m)
        if isinstance(x, tuple):
            if x and x[0] == 'gen' and x in self.c.syms:
                return True
            return any(self.has(y) for y in x if isinstance(y, (tuple, Lin)))
        return False

    def solve(self):
        """binding of the loop atoms, or Mismatch"""
        I, c, s = self.I, self.c, self.s
        G = c.G
        for k, v in G.mem.items():
            if k[0] == 'h':
                continue
            if k not in s.mem:
                if k[0] == 'o':
                    I.load_obj(s, k)
                elif k[0] == 'g':
                    s.mem[k] = ('I', L(0))
                else:
                    raise Mismatch('missing ' + show(k))
            self.m(v, s.mem[k])
        for k in s.mem:
            if k[0] == 'o' and k not in G.mem:
                self.m(I.load_obj(G, k), s.mem[k])
            elif k[0] == 'g' and k not in G.mem:
                self.m(('I', L(0)), s.mem[k])
        done = set()
        while self.q:
            a, b = self.q.pop()
            if a in done:
                continue
            done.add(a)
            if a in G.mem and b in s.mem:
                self.m(G.mem[a], s.mem[b])
            elif a in G.mem or b in s.mem:
                raise Mismatch('dead object')
        b = {}
        eqs = list(self.eqs)
        ch = True
        while ch:
            ch = False
            for a, y in eqs:
                ub = [(x, k) for x, k in a.m if x in c.atoms and x not in b]
                if len(ub) != 1 or abs(ub[0][1]) != 1:
                    continue
                x, k = ub[0]
                rest = Lin(a.c, tuple((p, q) for p, q in a.m if p != x))
                rest = subst(rest, b)
                if self.nested_unbound(rest, b):
                    continue
                v = (y - rest).scale(k)
                b[x] = v
                ch = True
        # slopes other than 1
        for a, y in eqs:
            ub = [(x, k) for x, k in a.m if x in c.atoms and x not in b]
            if len(ub) == 1:
                x, k = ub[0]
                rest = subst(Lin(a.c, tuple((p, q) for p, q in a.m if p != x)), b)
                d = y - rest
                if d.c % k == 0 and all(q % k == 0 for _, q in d.m):
                    b[x] = Lin(d.c // k, tuple((p, q // k) for p, q in d.m))
        # loop atoms nested inside other atoms
        extra = []
        for a, y in eqs:
            self.nested(a, y, b, extra)
        for x in c.atoms:
            b.setdefault(x, L(0))
        self.b = b
        sm = {}
        for a, y in eqs:
            z = self.ren(subst(a, b))
            if not I.same(s, z, y):
                raise Mismatch('%r -> %r != %r' % (a, z, y))
        return b

    def nested_unbound(self, l, b):
        return any(self._nu(a, b) for a, _ in l.m)

    def _nu(self, a, b):
        if isinstance(a, Lin):
            return any((x in self.c.atoms and x not in b) or self._nu(x, b) for x, _ in a.m)
        if isinstance(a, tuple):
            if a in self.c.atoms:
                return a not in b
            return any(self._nu(x, b) for x in a if isinstance(x, (tuple, Lin)))
        return False

    def nested(self, a, y, b, extra):
        """bind loop atoms that occur inside structured atoms by aligning a with y"""
        if isinstance(a, Lin) and isinstance(y, Lin):
            if len(a.m) == 1 and a.m[0][0] in self.c.atoms and a.m[0][0] not in b and abs(a.m[0][1]) == 1:
                b[a.m[0][0]] = (y - a.c).scale(a.m[0][1])
                return
            ub = [(x, k) for x, k in a.m if x in self.c.atoms and x not in b]
            if len(ub) == 1 and abs(ub[0][1]) == 1:
                rest = subst(Lin(a.c, tuple((p, q) for p, q in a.m if p != ub[0][0])), b)
                if not self.nested_unbound(rest, b):
                    b[ub[0][0]] = (y - rest).scale(ub[0][1])
                return
            if len(a.m) == 1 and len(y.m) == 1:
                self.nested(a.m[0][0], y.m[0][0], b, extra)
            return
        if isinstance(a, tuple) and isinstance(y, tuple) and len(a) == len(y):
            for p, q in zip(a, y):
                self.nested(p, q, b, extra)

    def ren(self, x):
        """rename bound symbols"""
        if not self.symb:
            return x
        return _rename(x, self.symb)


def _rename(x, m):
    if isinstance(x, Lin):
        if not any(isinstance(a, tuple) for a, _ in x.m):
            return x
        acc = Lin(x.c)
        for a, k in x.m:
            acc = acc + Lin(0, ((_rename(a, m) if isinstance(a, tuple) else a, k),))
        return acc
    if isinstance(x, tuple):
        r = m.get(x)
        if r is not None:
            return r
        return tuple(_rename(y, m) if isinstance(y, (tuple, Lin)) else y for y in x)
    return x


def templates(I, J, G, g, s, b1, b2):
    """candidate facts over the varied leaves that hold in both states"""
    out = set()
    varied = []
    seen = set()
    for x, a, b in J.varied:
        if x not in seen:
            seen.add(x)
            varied.append((x, a, b))
    refs = [(x, a, b) for x, a, b in varied]
    atoms = set()
    for st in (g, s):
        for f in st.facts.ge:
            for a in f.atoms():
                atoms.add(a)
    for l in J.leaf_all():
        for a in l.atoms():
            atoms.add(a)
    for a in atoms:
        if a in J.new or a == IDX:
            continue
        refs.append((V(a), V(a), V(a)))
    refs.append((L(0), L(0), L(0)))
    if I.project:
        comp = []
        for l in J.leaf_all(True):
            if len(l.m) > 1 and l not in comp and not contains_idx(l):
                comp.append(l)
        refs += [(l, l, l) for l in comp[:8]]
    for e, ea, eb in J.spans:
        if e.m:
            for c in (1, 0):
                if I.ge(g, ea - c) and I.ge(s, eb - c):
                    out.add(e - c)
                    break
    out |= relations(varied, J)
    for x, a, b in varied:
        for c in I.consts:
            e, ea, eb = (x - c, a - c, b - c) if c > 0 else (-x - c, -a - c, -b - c)
            if I.ge(g, ea) and I.ge(s, eb):
                out.add(e)
        for w, wa, wb in refs:
            if w == x:
                continue
            for e, ea, eb in ((x - w, a - wa, b - wb), (w - x, wa - a, wb - b)):
                if not e.m:
                    continue
                for c in (1, 0, -1) if I.project else (1, 0):
                    if I.ge(g, ea - c) and I.ge(s, eb - c):
                        out.add(e - c)
                        if c == 1 and I.ge(g, L(1) - ea) and I.ge(s, L(1) - eb):
                            out.add(L(1) - e)      # one more, in both
                        break
    return out


def relations(varied, J):
    """sums and differences of two or three varied leaves that have the same value in both states"""
    out = set()
    varied = [v for v in varied if not contains_idx(v[0])]
    for n in (2, 3) if len(varied) <= 14 else (2,):
        for c in itertools.combinations(varied, n):
            for sg in itertools.product((1, -1), repeat=n - 1):
                e, ea, eb = c[0]
                for (x, a, b), k in zip(c[1:], sg):
                    e, ea, eb = e + x.scale(k), ea + a.scale(k), eb + b.scale(k)
                if ea == eb and e != ea and not any(x in J.atoms for x in ea.atoms()):
                    out.add(e - ea)
                    out.add(ea - e)
    return out


def leaf_all(self, objects=False):
    out = []

    def go(x):
        if isinstance(x, Lin):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, (tuple, Lin)):
                    go(y)
    for k, v in self.g.mem.items():
        if k[0] in ('l', 'g') or objects and k[0] in ('o', 'h'):
            go(v)
    return out[:400]


Joiner.leaf_all = leaf_all


def join(I, c, s):
    """least upper bound candidate of c.G and s; None when the shapes differ"""
    if I.project and any(x[0] == 'k' for x in c.atoms):
        n, w = join_by(I, c, s, True)
        if n is not None:
            return n, w
    return join_by(I, c, s, False)


def join_by(I, c, s, reuse):
    J = Joiner(I, c.G, s, c.atoms, c.syms, reuse)
    try:
        G = J.run()
    except Mismatch as e:
        if TRACE:
            print('JOIN', e)
        return None, str(e)
    n = Cand()
    n.G, n.atoms, n.syms, n.outs, n.reps = G, J.atoms, J.syms, None, []
    # bindings of both states
    try:
        M1 = Matcher(I, n, c.G)
        b1 = M1.solve()
        M2 = Matcher(I, n, s)
        b2 = M2.solve()
    except Mismatch as e:
        if TRACE:
            print('REBIND', e)
        return None, 'rebind: ' + str(e)
    facts = set()
    lost = set()
    cand = set(c.G.facts.ge) | templates(I, J, G, c.G, s, b1, b2)
    if I.project:
        # facts about what varied once more, told of what it became
        ren = {a.m[0][0]: r for r, a, b in J.varied if len(a.m) == 1 and not a.c and a.m[0][1] == 1 and a.m[0][0] in c.atoms}
        cand |= {subst(f, ren) for f in c.G.facts.ge if any(x in ren for x in f.atoms())}
    for f in cand:
        f1, f2 = M1.ren(subst(f, b1)), M2.ren(subst(f, b2))
        if I.ge(c.G, f1) and I.ge(s, f2):
            facts.add(f)
        elif f in c.G.facts.ge:
            lost.update(f.atoms())
    if I.project:
        # what the given-up facts implied may still hold
        every = {a for f in c.G.facts.ge for a in f.atoms()}
        for a in lost:
            for x in every - {a}:
                for e in (V(a) - V(x), V(x) - V(a)):
                    for k in (1, 0, -1):
                        if I.ge(c.G, M1.ren(subst(e - k, b1))) and I.ge(s, M2.ren(subst(e - k, b2))):
                            facts.add(e - k)
                            break
    ne = set()
    for f in c.G.facts.ne:
        if I.ne(c.G, M1.ren(subst(f, b1)), 0) and I.ne(s, M2.ren(subst(f, b2)), 0):
            ne.add(f)
    G.facts = Facts(frozenset(facts), frozenset(ne))
    if I.project:
        tidy(I, G)
    return n, ''


def instance(I, c, s):
    """'yes', 'no', or ('weaken', facts, ne, refine)"""
    M = Matcher(I, c, s)
    try:
        b = M.solve()
    except Mismatch as e:
        return 'no:' + str(e)
    for x in c.atoms:
        lo, hi = I.rng.get(x, (0, None))
        if lo is not None and not I.ge(s, b[x] - lo):
            return 'no:range'
    ok_ge = set()
    bad = False
    failed = []
    for f in c.G.facts.ge:
        if I.ge(s, M.ren(subst(f, b))):
            ok_ge.add(f)
        else:
            bad = True
            # a bound that was one too tight: relaxed once, then dropped
            if f + 1 not in c.G.facts.ge and f not in c.relaxed and I.ge(s, M.ren(subst(f + 1, b))):
                ok_ge.add(f + 1)
                c.relaxed = c.relaxed | {f + 1}
            failed.append(f)
            if TRACE:
                print('WEAKEN', c.ver, f, '->', M.ren(subst(f, b)), 'facts', list(s.facts.ge)[:20])
    ok_ne = set()
    for f in c.G.facts.ne:
        if I.ne(s, M.ren(subst(f, b)), 0):
            ok_ne.add(f)
        else:
            bad = True
    if failed and I.project:
        # what the given-up facts implied may still hold
        lost = {a for f in failed for a in f.atoms()}
        every = {a for f in c.G.facts.ge for a in f.atoms()} | lost
        for a in lost:
            for x in every - {a}:
                for e in (V(a) - V(x), V(x) - V(a)):
                    for k in (1, 0, -1):
                        if I.ge(c.G, e - k):
                            if I.ge(s, M.ren(subst(e - k, b))):
                                ok_ge.add(e - k)
                                break
    ref = {}
    for k, v in c.G.refine.items():
        if s.refine.get(M.ren(subst(k, b))) == v:
            ref[k] = v
        elif not relevant(k, c.G):
            pass
        else:
            bad = True
    if failed and c.ver >= 2 and not I.project:
        widen(I, c, s, M, b, failed, ok_ge)
    if bad:
        return ('weaken', frozenset(ok_ge), frozenset(ok_ne), ref)
    if len(ref) != len(c.G.refine):
        pass
    return 'yes'


def widen(I, c, s, M, b, failed, ok_ge):
    """a leaf moves against one bound: keep only those bounds on it, in the same direction, that the body itself
    re-establishes (provable without the bounds assumed at the loop head)"""
    dirs = {(a, k > 0) for f in failed for a, k in f.m if a in c.atoms and b.get(a) != V(a)}
    if not dirs:
        return
    sus = {f for f in c.G.facts.ge if -f not in c.G.facts.ge and any((a, k > 0) in dirs for a, k in f.m)}
    s2 = s.copy()
    s2.facts = Facts(frozenset(x for x in s.facts.ge if x not in sus), s.facts.ne)
    for f in list(ok_ge):
        if f in sus and not I.ge(s2, M.ren(subst(f, b))):
            ok_ge.discard(f)


def relevant(k, G):
    return True


def peel_loop(I, fr, h, st0, body):
    """the first rounds of the loop, without generalising: what later rounds do is left open"""
    from .interp import Unsupported
    out, cur = [], [trim(I, fr, h, st0)]
    for i in range(I.peel + 1):
        nxt = []
        for s in cur:
            for o in I.explore(fr, [(h, I.round_begins(s, h) if I.cycles else s)], body=body, header=h):
                if o[0] == 'back':
                    b = trim(I, fr, h, o[2])
                    if not any(x.mem == b.mem and x.facts == b.facts and x.refine == b.refine for x in nxt):
                        nxt.append(b)
                else:
                    out.append(o)
        cur = nxt
        if not cur or len(cur) > 60:
            break
    if cur:
        I.gaps.append('only the first rounds of the loop in %s are followed' % fr.f.name)
    return out


def run_loop(I, fr, h, st0, body, limit=24):
    if I.peel:
        return peel_loop(I, fr, h, st0, body)

    def explore(s):
        n = len(I.reports)
        outs = I.explore(fr, [(h, I.round_begins(s, h) if I.cycles else s)], body=body, header=h)
        reps = I.reports[n:]
        del I.reports[n:]
        backs = [o[2] for o in outs if o[0] == 'back']
        if I.split_flags:
            backs = [b for s in backs for b in decided(I, fr, h, s)]
        idle = [I.cycles and I.round_idle(b, h) for b in backs]
        backs = [trim(I, fr, h, b) for b in backs]
        if any(i and b.mem == s.mem for b, i in zip(backs, idle)):
            n = len(I.reports)
            I.report('endless', fr, 'a round of the loop changes nothing, so it never ends')
            reps += I.reports[n:]
            del I.reports[n:]
        return [o for o in outs if o[0] != 'back'], backs, reps

    st0 = trim(I, fr, h, st0)
    results, backs, reps = explore(st0)
    I.reports.extend(reps)
    cands = []
    pending = [(None, 0, s) for s in backs]
    rounds = 0
    while pending:
        src, ver, s = pending.pop(0)
        if src is not None and src.ver != ver:
            continue
        rounds += 1
        if rounds > 400:
            from .interp import Unsupported
            raise Unsupported('loop in %s does not stabilise' % fr.f.name)
        target = None
        why = []
        for c in cands:
            r = instance(I, c, s)
            if r == 'yes':
                target = 'done'
                break
            if isinstance(r, tuple):
                target = c
                c.G = c.G.copy()
                c.G.facts = Facts(r[1], r[2])
                c.G.refine = r[3]
                break
            why.append(r)
        if target == 'done':
            continue
        if target is None:
            for c in cands:
                n, w = join(I, c, s)
                if n is not None:
                    c.G, c.atoms, c.syms = n.G, n.atoms, n.syms
                    target = c
                    break
                why.append('join ' + w)
        if target is None:
            c = Cand()
            c.G, c.atoms, c.syms, c.ver = s, set(), {}, 0
            cands.append(c)
            target = c
            if len(cands) > I.max_heads:
                from .interp import Unsupported
                raise Unsupported('loop in %s: too many head shapes (%s)' % (fr.f.name, '; '.join(why[:4])))
        target.ver += 1
        if target.ver > limit:
            from .interp import Unsupported
            raise Unsupported('loop in %s does not stabilise (%s)' % (fr.f.name, '; '.join(why[:3])))
        target.outs, bk, target.reps = explore(target.G)
        pending = [p for p in pending if p[0] is not target]
        pending += [(target, target.ver, x) for x in bk]
    for c in cands:
        results.extend(c.outs)
        I.reports.extend(c.reps)
    return results
