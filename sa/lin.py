"""Linear-inequality domain over integer atoms: affine expressions plus a conjunction of
`e >= 0` facts; entailment by Fourier-Motzkin elimination with integer tightening."""
from math import gcd

MAXU = 2**64 - 1


class Lin:
    __slots__ = ('c', 'm', 'h')

    def __init__(self, c=0, m=()):
        self.c = c
        self.m = m            # sorted tuple of (atom, coef)
        self.h = hash((c, m))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.m == o.m

    def __repr__(self):
        return show_lin(self)

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.m)
        if not o.m:
            return Lin(self.c + o.c, self.m)
        if not self.m:
            return Lin(self.c + o.c, o.m)
        d = dict(self.m)
        for a, k in o.m:
            v = d.get(a, 0) + k
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        return Lin(self.c + o.c, tuple(sorted(d.items(), key=_key)))

    def __neg__(self):
        return Lin(-self.c, tuple((a, -k) for a, k in self.m))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.m)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((a, q * k) for a, q in self.m))

    def const(self):
        return self.c if not self.m else None

    def atoms(self):
        return [a for a, _ in self.m]


_keycache = {}


def _key(it):
    a = it[0]
    r = _keycache.get(a)
    if r is None:
        r = _keycache[a] = repr(a)
    return r


def L(x):
    return x if isinstance(x, Lin) else Lin(x)


def V(atom):
    return Lin(0, ((atom, 1),))


def show_atom(a):
    if isinstance(a, tuple):
        if a and a[0] == 'h':
            return 'h%s' % (a[1],)
        return '.'.join(show_atom(x) for x in a)
    if isinstance(a, Lin):
        return '{' + show_lin(a) + '}'
    return str(a)


def show_lin(l):
    s = ''
    for a, k in l.m:
        t = show_atom(a)
        s += (' + ' if k > 0 else ' - ') if s else ('' if k > 0 else '-')
        s += t if abs(k) == 1 else '%d*%s' % (abs(k), t)
    if l.c or not s:
        s += (' + %d' % l.c if l.c > 0 else ' - %d' % -l.c) if s else str(l.c)
    return s


def _norm(l):
    """tighten e>=0 by the gcd of its coefficients (integers)"""
    if not l.m:
        return l
    g = 0
    for _, k in l.m:
        g = gcd(g, k)
    if g > 1:
        return Lin(l.c // g, tuple((a, k // g) for a, k in l.m))
    return l


_icache = {}


def infeasible(cons, limit=4000):
    """True if the conjunction of {e >= 0} has no rational (gcd-tightened) solution"""
    key = frozenset(cons)
    r = _icache.get(key)
    if r is None:
        if len(_icache) > 400000:
            _icache.clear()
        r = _icache[key] = _infeasible(key, limit)
    return r


def _row(d):
    """gcd-tightened (constant, sorted coefficient tuple) of a row"""
    c, d = d
    g = 0
    for k in d.values():
        g = gcd(g, k)
        if g == 1:
            break
    if g > 1:
        return c // g, tuple(sorted([(a, k // g) for a, k in d.items()]))
    return c, tuple(sorted(d.items()))


def _infeasible(cons, limit):
    # number the atoms in an order that does not depend on hashing
    ids = {}
    for a in sorted({a for e in cons for a, _ in e.m}, key=lambda a: _key((a,))):
        ids[a] = len(ids)
    best = {}
    for e in cons:
        if not e.m:
            if e.c < 0:
                return True
            continue
        c, m = _row((e.c, {ids[a]: k for a, k in e.m}))
        o = best.get(m)
        if o is None or c < o:
            best[m] = c
    while best:
        # pairs of opposite constraints: a contradiction, or an equality to substitute
        sub = None
        for m, c in best.items():
            o = best.get(tuple([(a, -k) for a, k in m]))
            if o is not None:
                if c + o < 0:
                    return True
                if c + o == 0:
                    for a, k in m:
                        if k == 1 or k == -1:
                            if sub is None or len(m) < len(sub[1]):
                                sub = (c, m, a, k)
                            break
        new = {}
        if sub is not None:
            # a = -k * (c + rest)
            sc, sm, at, sk = sub
            for m, c in best.items():
                d = dict(m)
                q = d.get(at)
                if q is not None:
                    f = -q * sk
                    c = c + f * sc
                    for a, k in sm:
                        v = d.get(a, 0) + f * k
                        if v:
                            d[a] = v
                        else:
                            del d[a]
                    if not d:
                        if c < 0:
                            return True
                        continue
                    c, m = _row((c, d))
                o = new.get(m)
                if o is None or c < o:
                    new[m] = c
            best = new
            continue
        np, nq = {}, {}
        for m in best:
            for a, k in m:
                if k > 0:
                    np[a] = np.get(a, 0) + 1
                else:
                    nq[a] = nq.get(a, 0) + 1
        # atoms bounded on one side only go with everything that mentions them
        free = {a for a in np if a not in nq} | {a for a in nq if a not in np}
        if free:
            best = {m: c for m, c in best.items() if not any([a in free for a, _ in m])}
            continue
        at = min(np, key=lambda a: (np[a] * nq[a] - np[a] - nq[a], a))
        pos, neg = [], []
        for m, c in best.items():
            for a, k in m:
                if a == at:
                    (pos if k > 0 else neg).append((c, m, abs(k)))
                    break
            else:
                new[m] = c
        if len(pos) * len(neg) + len(new) > limit:
            return False
        for c1, m1, k1 in pos:
            for c2, m2, k2 in neg:
                d = {a: k * k2 for a, k in m1}
                for a, k in m2:
                    v = d.get(a, 0) + k * k1
                    if v:
                        d[a] = v
                    else:
                        del d[a]
                c = c1 * k2 + c2 * k1
                if not d:
                    if c < 0:
                        return True
                    continue
                c, m = _row((c, d))
                o = new.get(m)
                if o is None or c < o:
                    new[m] = c
        best = new
    return False


def _prow(e):
    g = 0
    for _, k in e.m:
        g = gcd(g, k)
    return (e.c // g, tuple([(a, k // g) for a, k in e.m])) if g > 1 else (e.c, e.m)


def project(facts, nn, dead):
    """the consequences of the facts that do not mention dead atoms (possibly not all of them: only weaker)"""
    if not dead:
        return facts
    rows = {}

    def add(e):
        if not e.m:
            return
        c, m = _prow(e)
        o = rows.get(m)
        if o is None or c < o:
            rows[m] = c
    seen = set()
    for e in facts.ge:
        add(e)
    todo = {a for m in rows for a, _ in m if a in dead}
    for a in sorted(todo, key=lambda a: _key((a,))):
        if a not in seen:
            seen.add(a)
            for f in nn(a):
                add(f)
    todo = {a for m in rows for a, _ in m if a in dead}
    while todo:
        # an equality that defines a dead atom first, else the atom with the least growth
        sub = None
        for m, c in rows.items():
            if sub is None or len(m) < len(sub[1]):
                for a, k in m:
                    if a in todo and k in (1, -1) and rows.get(tuple([(x, -y) for x, y in m])) == -c:
                        sub = (c, m, a, k)
                        break
        if sub is not None:
            c0, m0, at, k0 = sub
            new = {}
            for m, c in rows.items():
                q = dict(m).get(at, 0)
                if q:
                    e = Lin(c, m) - Lin(c0, m0).scale(q * k0)
                    if not e.m:
                        continue
                    c, m = _prow(e)
                o = new.get(m)
                if o is None or c < o:
                    new[m] = c
            rows = new
        else:
            np, nq = {}, {}
            for m in rows:
                for a, k in m:
                    if a in todo:
                        d = np if k > 0 else nq
                        d[a] = d.get(a, 0) + 1
            at = min(todo, key=lambda a: (np.get(a, 0) * nq.get(a, 0) - np.get(a, 0) - nq.get(a, 0), _key((a,))))
            pos, neg, new = [], [], {}
            for m, c in rows.items():
                k = dict(m).get(at, 0)
                if k:
                    (pos if k > 0 else neg).append((c, m, abs(k)))
                else:
                    new[m] = c
            if len(pos) * len(neg) <= 400:
                for c1, m1, k1 in pos:
                    for c2, m2, k2 in neg:
                        e = Lin(c1, m1).scale(k2) + Lin(c2, m2).scale(k1)
                        if e.m:
                            c, m = _prow(e)
                            o = new.get(m)
                            if o is None or c < o:
                                new[m] = c
            rows = new
        todo.discard(at)
        todo &= {a for m in rows for a, _ in m}
    # what the others imply anyway is left out
    es = sorted((Lin(c, m) for m, c in rows.items()), key=lambda e: (-len(e.m), str(e)))
    keep = list(es)
    for e in es:
        rest = [x for x in keep if x != e]
        if Facts(frozenset(rest)).entails_ge(e, nn):
            keep = rest
    return Facts(frozenset(keep), frozenset(e for e in facts.ne if not any(a in dead for a in e.atoms())))


class Facts:
    """immutable conjunction of facts.  ge: frozenset of Lin (>=0); ne: frozenset of Lin (!=0)"""
    __slots__ = ('ge', 'ne', '_c', '_p', '_by')

    def __init__(self, ge=frozenset(), ne=frozenset(), parent=None):
        self.ge = ge
        self.ne = ne
        self._c = {}
        self._by = None
        self._p = parent      # weaker facts: what they entail is entailed here

    def _known(self, e):
        p, n = self._p, 0
        while p is not None and n < 40:
            if p._c.get(e):
                return True
            p, n = p._p, n + 1
        return False

    def _relevant(self, e, nn):
        by = self._by
        if by is None:
            by = self._by = {}
            for f in self.ge:
                for a, _ in f.m:
                    by.setdefault(a, []).append(f)
        atoms = set()
        out = set()
        work = [a for a, _ in e.m]
        while work:
            a = work.pop()
            if a in atoms:
                continue
            atoms.add(a)
            for f in by.get(a, ()):
                if f not in out:
                    out.add(f)
                    work.extend([x for x, _ in f.m])
            for f in nn(a):
                out.add(f)
                for x, _ in f.m:
                    if x not in atoms:
                        work.append(x)
        return list(out)

    def entails_ge(self, e, nn):
        """e >= 0 ?   nn(atom) -> list of type facts for the atom"""
        e = L(e)
        if not e.m:
            return e.c >= 0
        r = self._c.get(e)
        if r is None:
            if e in self.ge or self._known(e):
                r = True
            else:
                r = infeasible([-e - 1] + self._relevant(e, nn))
                if not r and self.ne:
                    # e >= -1 and e != -1  =>  e >= 0
                    if (e + 1) in self.ne or (-e - 1) in self.ne:
                        r = infeasible([-e - 2] + self._relevant(e, nn))
            self._c[e] = r
        return r

    def entails_eq(self, e, nn):
        e = L(e)
        if not e.m:
            return e.c == 0
        return self.entails_ge(e, nn) and self.entails_ge(-e, nn)

    def entails_ne(self, e, nn):
        e = L(e)
        if not e.m:
            return e.c != 0
        if e in self.ne or -e in self.ne:
            return True
        return self.entails_ge(e - 1, nn) or self.entails_ge(-e - 1, nn)

    def add_ge(self, e, nn):
        e = _norm(L(e))
        if not e.m:
            return self if e.c >= 0 else None
        if self.entails_ge(e, nn):
            return self
        if self.entails_ge(-e - 1, nn):
            return None
        ge = self.ge | {e}
        # sharpen with disequalities:  e>=0 & e != 0  -> e-1 >= 0
        g = self.ne
        if e in g or -e in g:
            ge = (ge - {e}) | {e - 1}
        return Facts(ge, self.ne, self)

    def add_eq(self, e, nn):
        r = self.add_ge(e, nn)
        if r is None:
            return None
        return r.add_ge(-L(e), nn)

    def add_ne(self, e, nn):
        e = L(e)
        if not e.m:
            return self if e.c != 0 else None
        if self.entails_eq(e, nn):
            return None
        if self.entails_ge(e, nn):
            return self.add_ge(e - 1, nn)
        if self.entails_ge(-e, nn):
            return self.add_ge(-e - 1, nn)
        return Facts(self.ge, self.ne | {e}, self)
