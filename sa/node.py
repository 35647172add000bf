"""B-tree node memory: abstract layout, families of children, node-level checks.

A node is one abstract record (parent, parent_idx, len, keys, vals, edges) whatever type the code views it
through (`NodeHeader`, `LeafNode`, `InternalNode`: all `repr(C)` prefixes of each other, checked separately).
The children a node had on entry form a family: child i is the object ('kid', node, i); the parent links of a
family are two segmented arrays, so that a loop over children is summarised like any other array loop."""
from . import mir
from .interp import Interp, Bad, Unsupported, NeedFork, NeedSplit, tyname
from .lin import Lin, V, L
from .vals import *
from . import models as M

NT = ('adt', '#Node', ())
FT = ('adt', '#Fam', ())
FIELDS = ['parent', 'parent_idx', 'len', 'keys', 'vals', 'edges']
NODE_TYPES = ('NodeHeader', 'LeafNode', 'InternalNode')
CAP = 11
MINLEN = 5
HALF = 4          # the smaller half of a split node
BOX0 = (('i', L(0)),)
NULL = ('P', ('null',), ())


def nd(name):
    return ('o', ('nd', name), NT)


def np(name):
    return ('P', nd(name), ())


def fam(name):
    return ('o', ('fam', name), FT)


def kid(name, i):
    return ('kid', name, L(i))


def boxed(p):
    return ('A', 'BoxedNode', 0, (p,))


def nlen(name):
    return V(('nlen', name))


class NodeInterp(Interp):
    def __init__(self, prog, prelude=None, models=None):
        super().__init__(prog, prelude, models)
        self.K = ('adt', 'K', ())
        self.Vt = ('adt', 'V', ())
        self.hts = {}
        self.in_anti = 0
        self.parents = {}          # name -> initial parent pointer (default: may be null)
        self.trait_models = dict(self.trait_models)
        self.trait_models[('Allocator', 'deallocate')] = dealloc
        self.models = dict(self.models)

    # ---- symbolic nodes
    distinct = ()            # pairs of nodes assumed to be different ones

    def ht(self, name):
        h = self.hts.get(name)
        if h is None:
            if isinstance(name, tuple) and name[0] == 'kid':
                h = self.ht(name[1]) - 1
            elif isinstance(name, tuple) and name[0] == 'mp':
                h = self.ht(name[1]) + 1
            else:
                h = V(('ht', name))
                self.rng[('ht', name)] = (0, 2 ** 32)
            self.hts[name] = h
        return h

    def kel(self, name, i):
        return self.mk(('el', ('K', name), L(i)), self.K)

    def vel(self, name, i):
        return self.mk(('el', ('V', name), L(i)), self.Vt)

    def init_parent(self, name):
        p = self.parents.get(name)
        return p if p is not None else np(('mp', name))

    def objinit(self, obj):
        k = obj[1]
        if isinstance(k, tuple) and k and k[0] == 'nd':
            name = k[1]
            self.rng.setdefault(('nlen', name), (0, CAP))
            n = nlen(name)
            c = L(CAP)
            iskid = isinstance(name, tuple) and name[0] == 'kid'
            return ('A', 'Node', 0, (
                X if iskid else self.init_parent(name),
                X if iskid else ('I', V(('pidx', name))),
                ('I', n),
                ('AR', ((L(0), n, self.kel(name, VIDX)), (n, c, X))),
                ('AR', ((L(0), n, self.vel(name, VIDX)), (n, c, X))),
                ('AR', ((L(0), n + 1, boxed(np(kid(name, VIDX)))), (n + 1, c + 1, X)))))
        if isinstance(k, tuple) and k and k[0] == 'fam':
            name = k[1]
            self.rng.setdefault(('nlen', name), (0, CAP))
            n = nlen(name) + 1
            return ('A', 'Fam', 0, (('AR', ((L(0), n, np(name)),)), ('AR', ((L(0), n, ('I', VIDX)),))))
        return super().objinit(obj)

    def load_obj(self, st, obj):
        if obj[0] == 'static' and 'NodeHeader' in str(obj[1]):
            return ('A', 'Node', 0, (NULL, X, I(0), ('AR', ()), X, X))
        return super().load_obj(st, obj)

    def store(self, st, obj, path, val):
        if obj[0] == 'static':
            raise Bad('shared-root', 'writes to the statically allocated empty root')
        return super().store(st, obj, path, val)

    def is_node(self, obj):
        return obj[0] == 'o' and isinstance(obj[1], tuple) and obj[1][0] == 'nd'

    def canon(self, st, obj):
        """the materialised object of the same child"""
        if not self.is_node(obj) or obj in st.mem:
            return obj
        name = obj[1][1]
        if isinstance(name, tuple) and name[0] == 'kid' and not contains_idx(name):
            par = self.canon(st, nd(name[1]))[1][1]
            name = ('kid', par, name[2])
            for o in list(st.mem):
                if self.is_node(o):
                    m = o[1][1]
                    if isinstance(m, tuple) and m[0] == 'kid' and m[1] == par:
                        if self.need_eq(st, m[2], name[2]):
                            return o
            return nd(name)
        return obj

    def field_path(self, fr, st, obj, path, p, place, i):
        t = self.place_ty(fr, (place[0], place[1][:i]))
        nm = tyname(t)
        if nm in NODE_TYPES:
            src = self.prog.src.structs
            cands = [q for q in src if mir.last(q) == nm and q.startswith('btree')]
            fname = src[cands[0]][p[1]][0]
            if fname == 'data':
                return path
            return self.node_field(st, obj, path, fname)
        return super().field_path(fr, st, obj, path, p, place, i)

    def node_field(self, st, obj, path, fname):
        if fname == 'keys_start':
            fname = 'keys'
        fi = FIELDS.index(fname)
        if not path and self.is_node(obj):
            o = self.canon(st, obj)
            name = o[1][1]
            if fi < 2 and isinstance(name, tuple) and name[0] == 'kid':
                return ('@', fam(name[1]), (fi, ('i', name[2])))
            if fi == 5 and not self.need_le(st, 1, self.ht(name)):
                raise Bad('layout', 'accesses the edges of a leaf node')
            return ('@', o, (fi,))
        return path + (fi,)

    def fieldnames(self, head):
        if head == 'Node':
            return FIELDS
        return super().fieldnames(head)

    def agg(self, fr, st, path, vals, names):
        p = self.strip_generics(path)
        nm = mir.last(p)
        if nm in NODE_TYPES and names:
            d = dict(zip(names, vals))
            if 'data' in d:
                dv = d['data']
                if dv[0] != 'A' or dv[1] != 'Node':
                    raise Unsupported('node data ' + show(dv))
                return ('A', 'Node', 0, dv[3][:5] + (d.get('edges', X),))
            return ('A', 'Node', 0, tuple(d.get(f, X) for f in FIELDS))
        return super().agg(fr, st, path, vals, names)

    def ptr_cast(self, fr, st, v, fty, tty):
        if v[0] == 'P' and fty[0] in ('ptr', 'ref') and fty[2][0] == 'array' and tty[0] == 'ptr' and \
                tty[2][0] != 'array':
            return ('P', v[1], v[2] + (('i', L(0)),))
        return super().ptr_cast(fr, st, v, fty, tty)

    def antiunify(self, x, y, lo):
        if isinstance(x, tuple) and len(x) == 3 and x[0] == 'P' and self.is_node(x[1]) and not self.in_anti:
            return x if x == y else None
        self.in_anti += 1
        try:
            return super().antiunify(x, y, lo)
        finally:
            self.in_anti -= 1

    def ptr_eq(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if x[1][0] == 'static' and (self.is_node(y[1]) or y[1][0] == 'h'):
                return False
        if self.is_node(a[1]) and self.is_node(b[1]) and not a[2] and not b[2]:
            x, y = self.canon(st, a[1]), self.canon(st, b[1])
            if x == y:
                return True
            if {x, y} in self.distinct:
                return False
        return super().ptr_eq(st, a, b)

    def nonnull_obj(self, o):
        if self.is_node(o):
            n = o[1][1]
            return not (isinstance(n, tuple) and n[0] == 'mp')
        return True

    def isnull(self, st, p):
        q = M.isnull(self, st, p)
        t = self.truth(st, q)
        if t is None:
            raise NeedFork([q, pnot(q)])
        return t

    def needs_drop(self, ty):
        if tyname(ty) in NODE_TYPES + ('BoxedNode', 'Root', 'NodeRef', 'Handle'):
            return False
        return super().needs_drop(ty)

    def layout_of(self, kind, t):
        nm = tyname(t)
        if nm in NODE_TYPES and kind.startswith('align') and all(a == ('tuple', ()) for a in t[2]):
            return L(8)
        if nm == 'NodeHeader' and kind.startswith('size'):
            k2 = t[2][2] if len(t[2]) > 2 else ('tuple', ())
            if k2 == ('tuple', ()):
                return L(16)
            return V(('hdrsize', mir.show(k2)))
        r = super().layout_of(kind, t)
        return r

    def nn(self, a):
        out = super().nn(a)
        if isinstance(a, tuple) and a[0] == 'hdrsize':
            out.append(V(a) - 16)
        return out

    def binop(self, fr, st, op, a, b, ty):
        # size of a header that ends in a zero-length array of K: 16 unless K is aligned to more than 16
        if op in ('Eq', 'Ne') and a[0] == 'I' and b[0] == 'I':
            for x in (a[1] - b[1]).atoms():
                if isinstance(x, tuple) and x[0] == 'hdrsize':
                    al = super().layout_of('align_of', mir.parse_type(x[1]))
                    small = self.need_le(st, al, 16)
                    f = st.facts.add_eq(V(x) - 16, self.nn) if small else st.facts.add_ge(V(x) - 32, self.nn)
                    if f is not None:
                        st.facts = f
        return super().binop(fr, st, op, a, b, ty)


def node_kind(I, st, p):
    """height of the node behind p as (Lin or None, bool leaf)"""
    o = p[1]
    if I.is_node(o):
        return not I.need_le(st, 1, I.ht(I.canon(st, o)[1][1]))
    v = st.mem.get(o)
    if v is not None and p[2]:
        v = I.load(st, o, p[2])
    if v is None or v[0] != 'A' or v[1] != 'Node':
        raise Unsupported('node behind ' + show(p))
    return v[3][5] == X


def dealloc(I, fr, st, selft, args, tys, rty, info):
    p, lay = args[1], args[2]
    if p[0] == 'P' and p[1][0] == 'static':
        raise Bad('shared-root', 'frees the statically allocated empty root')
    if p[0] != 'P' or p[2] not in ((), BOX0):
        raise Unsupported('deallocate ' + show(p))
    leaf = node_kind(I, st, p)
    t = lay[3][0][2] if lay[0] == 'A' and lay[1] == 'Layout' and lay[3][0][0] == 'S' else None
    if t is None or tyname(t) not in ('LeafNode', 'InternalNode'):
        raise Unsupported('deallocation layout')
    if tyname(t) != ('LeafNode' if leaf else 'InternalNode'):
        raise Bad('layout', 'frees %s node with the layout of %s' % (
            'a leaf' if leaf else 'an internal', 'a leaf node' if tyname(t) == 'LeafNode' else 'an internal node'))
    o = I.canon(st, p[1])
    if st.mem.get(o, UNIT)[0] == 'DEAD':
        raise Bad('double-free', 'frees a node twice')
    st.mem[o] = ('DEAD',)
    I.tick(st, 'freed')
    return [('ret', st, UNIT)]


# ---------------------------------------------------------------- construction and inspection

def struct(I, name, head=None, **kw):
    src = I.prog.src.structs
    c = [q for q in src if mir.last(q) == name and q.startswith('btree') and
         set(kw) <= {n for n, _ in src[q]}]
    if len(c) != 1:
        raise Unsupported('struct ' + name)
    return ('A', name, 0, tuple(kw.get(n, ('A', 'PhantomData', 0, ())) for n, _ in src[c[0]]))


def fld(I, v, field):
    src = I.prog.src.structs
    if v[0] == 'X':
        raise Bad('uninit', 'a value was moved out and not put back')
    if v[0] != 'A':
        raise Unsupported('not a struct: ' + show(v))
    c = [q for q in src if mir.last(q) == v[1] and q.startswith('btree') and field in [n for n, _ in src[q]]]
    if len(c) != 1:
        raise Unsupported('struct ' + show(v))
    names = [n for n, _ in src[c[0]]]
    return v[3][names.index(field)]


def noderef(I, name, root=None):
    return struct(I, 'NodeRef', height=('I', I.ht(name)), node=np(name),
                  root=root or ('P', ('o', ('rootvar',), ('adt', '#Root', ())), ()))


def handle(I, node, idx):
    return struct(I, 'Handle', node=node, idx=('I', L(idx)))


def rootval(I, name):
    return struct(I, 'Root', node=boxed(np(name)), height=('I', I.ht(name)))


class NodeView:
    """the record behind a node pointer in state st"""

    def __init__(self, I, st, p):
        while p[0] == 'A' and len(p[3]) == 1:
            p = p[3][0]
        if p[0] != 'P' or p[2] not in ((), BOX0):
            raise Unsupported('node pointer ' + show(p))
        self.I, self.st = I, st
        self.o = I.canon(st, p[1])
        self.p = ('P', self.o, p[2])
        v = I.load_obj(st, self.o)
        if v == ('DEAD',):
            raise Bad('uninit', 'the node was freed')
        if p[2]:
            v = I.load(st, self.o, p[2])
        if v[0] != 'A' or v[1] != 'Node':
            raise Unsupported('node record ' + show(v))
        self.v = v
        ln = v[3][2]
        if ln == X:
            raise Bad('uninit', 'length of the node')
        self.n = ln[1]

    def seq(self, which, n=None):
        i = {'keys': 3, 'vals': 4, 'edges': 5}[which]
        n = n if n is not None else self.n + (1 if which == 'edges' else 0)
        ar = self.v[3][i]
        if ar == X:
            raise Bad('uninit', '%s of the node' % which)
        return self.I.ar_get(self.st, ar, L(0), n), n

    def parent(self):
        return self.fam_field(0)

    def pidx(self):
        return self.fam_field(1)

    def fam_field(self, f):
        if self.I.is_node(self.o):
            name = self.o[1][1]
            if isinstance(name, tuple) and name[0] == 'kid':
                return self.I.load(self.st, fam(name[1]), (f, ('i', name[2])))
        return self.v[3][f]


def KS(I, name, lo, hi):
    lo, hi = L(lo), L(hi)
    return (((L(0), hi - lo, I.kel(name, VIDX + lo)),), hi - lo)


def VS(I, name, lo, hi):
    lo, hi = L(lo), L(hi)
    return (((L(0), hi - lo, I.vel(name, VIDX + lo)),), hi - lo)


def ES(I, name, lo, hi):
    lo, hi = L(lo), L(hi)
    return (((L(0), hi - lo, boxed(np(kid(name, VIDX + lo)))),), hi - lo)


def ONE(v):
    return (((L(0), L(1), v),), L(1))


def links(I, st, view):
    """None or a message: every child of the node knows its parent and its position"""
    segs, n = view.seq('edges')
    for lo, hi, t in segs:
        if I.need_le(st, hi, lo):
            continue
        if t == X:
            return 'an edge of the node is uninitialised'
        while t[0] == 'A' and len(t[3]) == 1:
            t = t[3][0]
        if t[0] != 'P':
            raise Unsupported('edge ' + show(t))
        o = t[1]
        name = o[1][1] if I.is_node(o) else None
        if isinstance(name, tuple) and name[0] == 'kid':
            base, j = name[1], name[2]
            co = dict(j.m).get(IDX, 0)
            f = I.load_obj(st, fam(base))
            par, pid = f[3]
            if co == 1:
                jlo = subst(j, {IDX: lo})
                cnt = hi - lo
            elif co == 0 and I.need_eq(st, hi, lo + 1):
                jlo, cnt = j, L(1)
            else:
                raise Unsupported('edge template ' + show(t))
            for a, b, v in I.ar_get(st, par, jlo, jlo + cnt):
                if I.need_le(st, b, a):
                    continue
                if contains_idx(v):
                    if not I.need_eq(st, b, a + 1):
                        raise Unsupported('parent links ' + show(v))
                    v = at(v, a)
                if not same_node(I, st, v, view.p):
                    return 'a child is not linked to its new parent'
            for a, b, v in I.ar_get(st, pid, jlo, jlo + cnt):
                if I.need_le(st, b, a):
                    continue
                if v == X:
                    return 'the position a child records in its parent is wrong'
                # value at offset IDX must be lo + IDX
                d = v[1] - (VIDX + lo)
                if contains_idx(v) :
                    if d.const() != 0 and not I.eq(st, d, 0):
                        return 'the position a child records in its parent is wrong :: %r at %r' % (v[1], lo)
                elif not (I.need_eq(st, b, a + 1) and I.need_eq(st, v[1], lo + a)):
                    return 'the position a child records in its parent is wrong :: %r at %r' % (v[1], lo)
        else:
            if not I.need_eq(st, hi, lo + 1):
                raise Unsupported('edge template ' + show(t))
            w = NodeView(I, st, t)
            if not same_node(I, st, w.parent(), view.p):
                return 'a child is not linked to its new parent'
            if w.pidx() == X or not I.need_eq(st, w.pidx()[1], lo):
                return 'the position a child records in its parent is wrong'
    return None


def same_node(I, st, a, b):
    if a == b:
        return True
    if a[0] != 'P' or b[0] != 'P' or a[1][0] == 'null' or b[1][0] == 'null':
        return False
    if I.is_node(a[1]) and I.is_node(b[1]):
        return I.canon(st, a[1]) == I.canon(st, b[1])
    return a[1] == b[1] and a[2] == b[2]
