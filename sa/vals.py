"""Value domain of the abstract interpreter.

('I', Lin)                     integer
('B', pred)                    boolean; pred: True/False, ('ge',Lin) ('eq',Lin) ('sym',key) ('not',pred)
('P', obj, path)               thin pointer / reference / Box;  path elements: str|int field, ('v',variant,i), ('i',Lin)
('F', ptr, Lin)                slice pointer (ptr addresses element 0)
('A', head, variant, fields)   aggregate
('S', key, ty)                 opaque symbol of a (possibly generic) type
('X',)                         uninitialised / moved-out / dropped
('AR', segs)                   array; segs = ((lo, hi, template), ...), templates may mention IDX
('Fn', text, env)              function item / pointer
"""
from .lin import Lin, V, L

IDX = '#'
VIDX = V(IDX)
X = ('X',)
UNIT = ('A', 'tuple', 0, ())
TRUE = ('B', True)
FALSE = ('B', False)


def I(n):
    return ('I', L(n))


def tup(*fs):
    return ('A', 'tuple', 0, tuple(fs))


def some(v):
    return ('A', 'Option', 1, (v,))


NONE = ('A', 'Option', 0, ())


def ok(v):
    return ('A', 'Result', 0, (v,))


def err(v):
    return ('A', 'Result', 1, (v,))


def bpred(p):
    return ('B', p)


def pnot(p):
    if p is True:
        return False
    if p is False:
        return True
    if p[0] == 'not':
        return p[1]
    if p[0] == 'ge':
        return ('ge', -p[1] - 1)
    return ('not', p)


def pge(l):
    l = L(l)
    c = l.const()
    if c is not None:
        return c >= 0
    return ('ge', l)


def peq(l):
    l = L(l)
    c = l.const()
    if c is not None:
        return c == 0
    return ('eq', l)


# ------------------------------------------------------------------ traversal

_sub_cache = {}


def subst(x, m):
    """replace atoms by Lins everywhere inside x (values, Lins, paths, atoms, tuples)"""
    if not m:
        return x
    return _Sub(m).go(x)


class _Sub:
    def __init__(self, m):
        self.m = m
        self.c = {}
        self.inner = self
        if IDX in m:        # the cells of a nested array bind the index
            self.inner = _Sub({k: v for k, v in m.items() if k != IDX})

    def go(self, x):
        if isinstance(x, Lin):
            return self.lin(x)
        if isinstance(x, tuple):
            if not x:
                return x
            r = self.c.get(x)
            if r is None and x[0] == 'AR' and self.inner is not self and len(x) == 2:
                r = ('AR', tuple((self.go(lo), self.go(hi), self.inner.go(t)) for lo, hi, t in x[1]))
                if r == x:
                    r = x
                self.c[x] = r
            if r is None:
                ch = False
                out = []
                for y in x:
                    if isinstance(y, (tuple, Lin)):
                        z = self.go(y)
                        if z is not y:
                            ch = True
                        out.append(z)
                    else:
                        out.append(y)
                r = tuple(out) if ch else x
                self.c[x] = r
            return r
        return x

    def lin(self, l):
        r = self.c.get(l)
        if r is not None:
            return r
        ch = False
        acc = Lin(l.c)
        parts = []
        for a, k in l.m:
            n = self.m.get(a)
            if n is not None:
                ch = True
                parts.append(n.scale(k))
            elif isinstance(a, tuple):
                b = self.go(a)
                if b is not a:
                    ch = True
                    parts.append(Lin(0, ((b, k),)))
                else:
                    parts.append(Lin(0, ((a, k),)))
            else:
                parts.append(Lin(0, ((a, k),)))
        if not ch:
            r = l
        else:
            for p in parts:
                acc = acc + p
            r = acc
        self.c[l] = r
        return r


def contains_idx(x):
    if isinstance(x, Lin):
        for a, k in x.m:
            if a == IDX:
                return True
            if isinstance(a, tuple) and contains_idx(a):
                return True
        return False
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'AR':
            return any(contains_idx(lo) or contains_idx(hi) for lo, hi, t in x[1])
        for y in x:
            if isinstance(y, (tuple, Lin)) and contains_idx(y):
                return True
    return False


def at(t, i):
    """template instance at index i"""
    return subst(t, {IDX: L(i)})


def shift(seg, d):
    lo, hi, t = seg
    return (lo + d, hi + d, subst(t, {IDX: VIDX - d}) if (d.m or d.c) else t)


def show(v):
    if isinstance(v, Lin):
        return repr(v)
    if not isinstance(v, tuple) or not v:
        return str(v)
    k = v[0]
    if k == 'I':
        return repr(v[1])
    if k == 'B':
        return 'bool(%s)' % show(v[1])
    if k == 'P':
        return '&%s%s' % (show(v[1]), ''.join('.' + show(p) for p in v[2]))
    if k == 'F':
        return 'slice(%s; %r)' % (show(v[1]), v[2])
    if k == 'A':
        return '%s%s(%s)' % (show(v[1]), '' if not v[2] else '#%d' % v[2], ', '.join(show(f) for f in v[3]))
    if k == 'S':
        return '<%s>' % show(v[1])
    if k == 'X':
        return 'uninit'
    if k == 'AR':
        return '[' + '; '.join('%r..%r=%s' % (a, b, show(t)) for a, b, t in v[1]) + ']'
    if k == 'i':
        return '[%r]' % (v[1],)
    return '(' + ' '.join(show(x) for x in v) + ')'
