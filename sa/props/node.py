"""B-tree node operations: every operation on at most three nodes, for nodes of any length and any position."""
from .common import *
from .registry import extra
from .. import node as N
from ..interp import NeedFork
from ..node import NodeInterp, nd, np, kid, nlen, KS, VS, ES, ONE, NodeView, CAP

FN = {'alloc': 'C01', 'surface': 'C20', 'unchanged': 'C20', 'seq': 'C22', 'links': 'C23', 'bounds': 'C24',
      'mem': 'C25', 'kind': 'C22'}
NCFG = ('unstable',)


def node_fn(method, sig='', n=None):
    """functions of btree/node.rs by name and by the marker types in the type they are implemented for"""
    def find(p):
        return [f for f in p.find(method=method, module='btree::node')
                if f.impl is None and not sig or f.impl is not None and re.search(sig, mir.show(f.impl.self_ty))
                and (n is None or len(f.params) == n)]
    return find


class T:
    """set-up of one run: nodes by name"""

    def __init__(self, run):
        self.run, self.I, self.st = run, run.I, run.st

    def leaf(self, name):
        self.I.hts[name] = L(0)

    def internal(self, name):
        h = V(('ht', name))
        self.I.rng[('ht', name)] = (1, 2 ** 32)
        self.I.hts[name] = h

    def free(self, name):
        """root or child of an unnamed parent"""
        self.I.ht(name)

    def rng(self, atom, lo, hi):
        self.I.rng[atom] = (lo, hi)

    def atmost(self, a, b):
        self.I.rng.update()
        f = self.st.facts.add_ge(L(b) - L(a), self.I.nn)
        if f is None:
            raise Unsupported('inconsistent set-up')
        self.st.facts = f

    def ref(self, v):
        return ('P', self.I.alloc(self.st, v), ())


def sym(t, name, lo=0, hi=CAP):
    t.I.rng[name] = (lo, hi)
    return V(name)


def key(i):
    return ('S', ('k', i), ('adt', 'K', ()))


def val(i):
    return ('S', ('v', i), ('adt', 'V', ()))


def mk(f, cfg, setup, **kw):
    box = {}

    def su(run):
        t = T(run)
        box['t'] = t
        for nm in ('N',):
            run.I.rng[('nlen', nm)] = (0, CAP)
        run.args = setup(t)
    run = Run(f, cfg, cls=NodeInterp, args=[], setup=su, **kw)
    return run


def seqs(I, s, p, ks, vs, es=None, what='the node'):
    """contents of the node against the expectation"""
    v = NodeView(I, s, p)
    out = []
    n = ks[1]
    if not I.need_eq(s, v.n, n):
        return [('seq', '%s has %r elements, expected %r :: ' % (what, v.n, n)), ('bounds', None)]
    m = None
    for w, e in (('keys', ks), ('vals', vs)) + ((('edges', es),) if es is not None else ()):
        g = v.seq(w)
        r = same_seq(I, s, g[0], g[1], e[0], e[1])
        if r:
            m = m or '%s of %s: %s' % (w, what, r)
    out.append(('seq', m))
    if not I.need_le(s, v.n, CAP):
        out.append(('bounds', 'more than %d elements' % CAP))
    else:
        out.append(('bounds', None))
    if es is not None and not m:
        out.append(('links', N.links(I, s, v)))
    return out


def noerr(kind):
    if kind == 'unw':
        return [('bounds', 'panics although the documented conditions hold')]
    return None


def leafkind(I, s, name):
    return not I.need_le(s, 1, I.ht(name))


def whole(I, name):
    n = nlen(name)
    return KS(I, name, 0, n), VS(I, name, 0, n)


def cat(*ps):
    return concat(*ps)


def node_box(t, internal):
    """a freshly allocated, empty node"""
    c = L(CAP)
    return t.ref(('A', 'Node', 0, (N.NULL, X, I_(0), ('AR', ((L(0), c, X),)), ('AR', ((L(0), c, X),)),
                                   ('AR', ((L(0), c + 1, X),)) if internal else X)))


def I_(n):
    return ('I', L(n))


def edges_if(I, s, name, es):
    return None if leafkind(I, s, name) else es


def kv_at(name, I, i):
    return ONE(I.kel(name, i)), ONE(I.vel(name, i))


def want(I, s, got, exp, what, facet='seq'):
    """structural equality of a returned value"""
    try:
        ok_ = I.same(s, resolve_all(I, s, got), resolve_all(I, s, exp))
    except Unsupported as e:
        raise Unsupported('%s: %s' % (what, e))
    return [(facet, None if ok_ else '%s is wrong :: found %s, expected %s' % (what, show(got), show(exp)))]


def resolve_all(I, s, v):
    if v[0] == 'S':
        return v
    if v[0] == 'P' and I.is_node(v[1]):
        return ('P', I.canon(s, v[1]), v[2])
    if v[0] == 'A':
        return ('A', v[1], v[2], tuple(resolve_all(I, s, x) for x in v[3]))
    return v


def frame(I, s, *names):
    """every other node is as it was"""
    decl = set()
    for n in names:
        decl.add(I.canon(s, nd(n)) if not isinstance(n, tuple) or n[0] != 'o' else n)
    for o, v in list(s.mem.items()):
        if I.is_node(o) and o not in decl:
            if not I.same(s, v, I.objinit(o)):
                return [('seq', 'changes a node it has no business with :: ' + show(('P', o, ())))]
    return []


def untouched(I, s, names, facet='unchanged'):
    for n in names:
        o = I.canon(s, nd(n))
        if o in s.mem and not I.same(s, s.mem[o], I.objinit(o)):
            return [(facet, 'a failed operation changes the node')]
        f = N.fam(n)
        if f in s.mem and not I.same(s, s.mem[f], I.objinit(f)):
            return [(facet, 'a failed operation changes the children of the node')]
    return [(facet, None)]


LEAF = 'NodeRef<.*Leaf>'
INT = 'NodeRef<.*Internal>'
LOI = 'NodeRef<.*LeafOrInternal>'


def simple(name, find, setup, post, public=False, **kw):
    """a case whose function must not unwind"""
    @case(name, find, FN, cfgs=NCFG, public=public)
    def _(f, cfg):
        run = mk(f, cfg, setup, **kw)

        def spec(I, kind, s, v):
            r = noerr(kind)
            if r:
                return r
            return post(run, I, s, v)
        return run, spec


# ---------------------------------------------------------------- one node

def push_case(front, internal):
    def su(t):
        if internal:
            t.internal('N')
            t.I.hts['E'] = t.I.ht('N') - 1
        else:
            t.leaf('N')
        t.atmost(nlen('N'), CAP - 1)
        r = [t.ref(N.noderef(t.I, 'N')), key(0), val(0)]
        return r + ([N.rootval(t.I, 'E')] if internal else [])

    def post(run, I, s, v):
        ks, vs = whole(I, 'N')
        k, w, e = ONE(key(0)), ONE(val(0)), ONE(N.boxed(np('E')))
        es = ES(I, 'N', 0, nlen('N') + 1)
        if front:
            return seqs(I, s, np('N'), cat(k, ks), cat(w, vs), cat(e, es) if internal else None) + frame(I, s, 'N', 'E')
        return seqs(I, s, np('N'), cat(ks, k), cat(vs, w), cat(es, e) if internal else None) + frame(I, s, 'N', 'E')
    simple('%s %s' % ('internal' if internal else 'leaf', 'push_front' if front else 'push'),
           node_fn('push_front' if front else 'push', r'::%s>' % ('Internal' if internal else 'Leaf')), su, post)


for _a in (False, True):
    for _b in (False, True):
        push_case(_a, _b)


def pop_case(front):
    def su(t):
        t.free('N')
        t.atmost(1, nlen('N'))
        return [t.ref(N.noderef(t.I, 'N'))]

    def post(run, I, s, v):
        n = nlen('N')
        lo, hi, at = (1, n, L(0)) if front else (0, n - 1, n - 1)
        leaf = leafkind(I, s, 'N')
        ei = L(0) if front else n
        out = seqs(I, s, np('N'), KS(I, 'N', lo, hi), VS(I, 'N', lo, hi),
                   None if leaf else ES(I, 'N', 1 if front else 0, n + 1 if front else n))
        rt = I.force(s, v[3][2])
        out += want(I, s, v[3][0], I.kel('N', at), 'the returned key')
        out += want(I, s, v[3][1], I.vel('N', at), 'the returned value')
        if leaf:
            out += want(I, s, rt, ('A', 'Option', 0, ()), 'the returned edge')
        else:
            out += want(I, s, rt, some(N.struct(I, 'Root', node=N.boxed(np(kid('N', ei))), height=('I', I.ht('N') - 1))),
                        'the returned edge')
            w = NodeView(I, s, np(kid('N', ei)))
            out.append(('links', None if w.parent() == N.NULL else 'the removed child still points to its old parent'))
        return out + frame(I, s, 'N')
    simple('pop_front' if front else 'pop', node_fn('pop_front' if front else 'pop', 'LeafOrInternal'), su, post)


pop_case(False)
pop_case(True)


def hsetup(t, name, kind, lo=0):
    """handle at a symbolic position"""
    i = sym(t, ('idx', name))
    t.atmost(i + (1 if kind == 'kv' else 0), nlen(name))
    return i


def insfit_case(internal):
    def su(t):
        if internal:
            t.internal('N')
            t.I.hts['E'] = t.I.ht('N') - 1
        else:
            t.leaf('N')
        t.atmost(nlen('N'), CAP - 1)
        i = hsetup(t, 'N', 'edge')
        r = [t.ref(N.handle(t.I, N.noderef(t.I, 'N'), i)), key(0), val(0)]
        return r + ([N.rootval(t.I, 'E')] if internal else [])

    def post(run, I, s, v):
        n, i = nlen('N'), V(('idx', 'N'))
        out = seqs(I, s, np('N'), cat(KS(I, 'N', 0, i), ONE(key(0)), KS(I, 'N', i, n)),
                   cat(VS(I, 'N', 0, i), ONE(val(0)), VS(I, 'N', i, n)),
                   cat(ES(I, 'N', 0, i + 1), ONE(N.boxed(np('E'))), ES(I, 'N', i + 1, n + 1)) if internal else None)
        if not internal:
            out += want(I, s, v, ('P', nd('N'), (4, ('i', i))), 'the returned pointer')
        return out + frame(I, s, 'N', 'E')
    simple('%s insert_fit' % ('internal' if internal else 'leaf'),
           node_fn('insert_fit', r'::%s>' % ('Internal' if internal else 'Leaf')), su, post)


insfit_case(False)
insfit_case(True)


def split_case(internal):
    def su(t):
        (t.internal if internal else t.leaf)('N')
        i = hsetup(t, 'N', 'kv')
        t.new = node_box(t, internal)
        t.run.new = t.new
        return [N.handle(t.I, N.noderef(t.I, 'N'), i), t.new]

    def post(run, I, s, v):
        n, i = nlen('N'), V(('idx', 'N'))
        out = seqs(I, s, np('N'), KS(I, 'N', 0, i), VS(I, 'N', 0, i), ES(I, 'N', 0, i + 1) if internal else None)
        out += want(I, s, v[3][1], I.kel('N', i), 'the returned key')
        out += want(I, s, v[3][2], I.vel('N', i), 'the returned value')
        out += want(I, s, v[3][0], N.noderef(I, 'N'), 'the returned left node')
        rt = I.force(s, v[3][3])
        p = N.fld(I, rt, 'node')
        out += want(I, s, N.fld(I, rt, 'height'), ('I', I.ht('N')), 'the height of the new node')
        out += want(I, s, p, N.boxed(run.new), 'the new node')
        out += seqs(I, s, p, KS(I, 'N', i + 1, n), VS(I, 'N', i + 1, n),
                    ES(I, 'N', i + 1, n + 1) if internal else None, 'the new node')
        return out + frame(I, s, 'N')
    simple('%s split' % ('internal' if internal else 'leaf'),
           node_fn('split', r'::%s>' % ('Internal' if internal else 'Leaf'), n=2), su, post)


split_case(False)
split_case(True)


def remove_case():
    def su(t):
        t.leaf('N')
        i = hsetup(t, 'N', 'kv')
        return [N.handle(t.I, N.noderef(t.I, 'N'), i)]

    def post(run, I, s, v):
        n, i = nlen('N'), V(('idx', 'N'))
        out = seqs(I, s, np('N'), cat(KS(I, 'N', 0, i), KS(I, 'N', i + 1, n)),
                   cat(VS(I, 'N', 0, i), VS(I, 'N', i + 1, n)))
        out += want(I, s, v[3][0], N.handle(I, N.noderef(I, 'N'), i), 'the returned edge')
        out += want(I, s, v[3][1], I.kel('N', i), 'the returned key')
        out += want(I, s, v[3][2], I.vel('N', i), 'the returned value')
        return out + frame(I, s, 'N')
    simple('leaf remove', node_fn('remove', '::Leaf>'), su, post)


remove_case()


# ---------------------------------------------------------------- three nodes

def family(t, pname='P'):
    """a parent, a key/value position in it and the children on both sides"""
    t.internal(pname)
    i = hsetup(t, pname, 'kv')
    l, r = kid(pname, i), kid(pname, i + 1)
    for x in (l, r):
        t.I.rng[('nlen', x)] = (0, CAP)
    return i, l, r


def fam_names(run_or_i):
    i = V(('idx', 'P'))
    return i, kid('P', i), kid('P', i + 1)


def merge_case():
    def su(t):
        i, l, r = family(t)
        t.atmost(nlen(l) + nlen(r) + 1, CAP)
        return [N.handle(t.I, N.noderef(t.I, 'P'), i)]

    def post(run, I, s, v):
        i, l, r = fam_names(run)
        n, nl, nr = nlen('P'), nlen(l), nlen(r)
        leaf = leafkind(I, s, l)
        out = seqs(I, s, np(l), cat(KS(I, l, 0, nl), ONE(I.kel('P', i)), KS(I, r, 0, nr)),
                   cat(VS(I, l, 0, nl), ONE(I.vel('P', i)), VS(I, r, 0, nr)),
                   None if leaf else cat(ES(I, l, 0, nl + 1), ES(I, r, 0, nr + 1)), 'the merged child')
        out += seqs(I, s, np('P'), cat(KS(I, 'P', 0, i), KS(I, 'P', i + 1, n)),
                    cat(VS(I, 'P', 0, i), VS(I, 'P', i + 1, n)), cat(ES(I, 'P', 0, i + 1), ES(I, 'P', i + 2, n + 1)),
                    'the parent')
        out += want(I, s, v, N.handle(I, N.noderef(I, 'P'), i), 'the returned edge')
        ro = I.canon(s, nd(r))
        out.append(('mem', None if s.mem.get(ro, UNIT) == ('DEAD',) else 'the emptied right child is not freed'))
        return out + frame(I, s, 'P', l, ('o',) + ro[1:])
    simple('merge', node_fn('merge', '::Internal>'), su, post)


merge_case()


def can_merge_case():
    def su(t):
        i, l, r = family(t)
        return [t.ref(N.handle(t.I, N.noderef(t.I, 'P'), i))]

    def post(run, I, s, v):
        i, l, r = fam_names(run)
        b = I.truth(s, v[1]) if v[0] == 'B' else None
        if b is None:
            b = not I.need_le(s, CAP, 0) and decide(I, s, v[1])
        return [('bounds', None if b == I.need_le(s, nlen(l) + nlen(r) + 1, CAP) else
                 'can_merge disagrees with the capacity of a node')]
    simple('can_merge', node_fn('can_merge', '::Internal>'), su, post)


def decide(I, s, p):
    t = I.truth(s, p)
    if t is None:
        from ..interp import NeedSplit
        raise NeedSplit(p)
    return t


can_merge_case()


def steal_case(left, bulk):
    nm = ('bulk_' if bulk else '') + ('steal_left' if left else 'steal_right')

    def su(t):
        i, l, r = family(t)
        src_, dst = (l, r) if left else (r, l)
        c = L(1)
        args = [t.ref(N.handle(t.I, N.noderef(t.I, 'P'), i))]
        if bulk:
            c = sym(t, ('count',), 1, CAP)
            args.append(('I', c))
        t.atmost(c, nlen(src_))
        t.atmost(nlen(dst) + c, CAP)
        return args

    def post(run, I, s, v):
        i, l, r = fam_names(run)
        n, nl, nr = nlen('P'), nlen(l), nlen(r)
        c = V(('count',)) if bulk else L(1)
        leaf = leafkind(I, s, l)
        pk, pv = ONE(I.kel('P', i)), ONE(I.vel('P', i))
        if left:
            lk = [f(I, l, 0, nl - c) for f in (KS, VS)]
            rk = [cat(KS(I, l, nl - c + 1, nl), pk, KS(I, r, 0, nr)), cat(VS(I, l, nl - c + 1, nl), pv, VS(I, r, 0, nr))]
            up = [ONE(I.kel(l, nl - c)), ONE(I.vel(l, nl - c))]
            le, re_ = ES(I, l, 0, nl - c + 1), cat(ES(I, l, nl - c + 1, nl + 1), ES(I, r, 0, nr + 1))
        else:
            rk = [f(I, r, c, nr) for f in (KS, VS)]
            lk = [cat(KS(I, l, 0, nl), pk, KS(I, r, 0, c - 1)), cat(VS(I, l, 0, nl), pv, VS(I, r, 0, c - 1))]
            up = [ONE(I.kel(r, c - 1)), ONE(I.vel(r, c - 1))]
            le, re_ = cat(ES(I, l, 0, nl + 1), ES(I, r, 0, c)), ES(I, r, c, nr + 1)
        out = seqs(I, s, np(l), lk[0], lk[1], None if leaf else le, 'the left child')
        out += seqs(I, s, np(r), rk[0], rk[1], None if leaf else re_, 'the right child')
        out += seqs(I, s, np('P'), cat(KS(I, 'P', 0, i), up[0], KS(I, 'P', i + 1, n)),
                    cat(VS(I, 'P', 0, i), up[1], VS(I, 'P', i + 1, n)), ES(I, 'P', 0, n + 1), 'the parent')
        return out + frame(I, s, 'P', l, r)
    simple(nm, node_fn(nm, '::Internal>'), su, post)


for _a in (True, False):
    for _b in (False, True):
        steal_case(_a, _b)


def suffix_case():
    def su(t):
        t.free('N')
        t.I.hts['R'] = t.I.ht('N')
        t.I.rng[('nlen', 'R')] = (0, 0)
        i = hsetup(t, 'N', 'edge')
        return [t.ref(N.handle(t.I, N.noderef(t.I, 'N'), i)), t.ref(N.noderef(t.I, 'R'))]

    def post(run, I, s, v):
        n, i = nlen('N'), V(('idx', 'N'))
        leaf = leafkind(I, s, 'N')
        out = seqs(I, s, np('N'), KS(I, 'N', 0, i), VS(I, 'N', 0, i), None if leaf else ES(I, 'N', 0, i + 1), 'the left node')
        out += seqs(I, s, np('R'), KS(I, 'N', i, n), VS(I, 'N', i, n),
                    None if leaf else cat(ES(I, 'R', 0, 1), ES(I, 'N', i + 1, n + 1)), 'the right node')
        return out + frame(I, s, 'N', 'R')
    simple('move_suffix', node_fn('move_suffix', 'LeafOrInternal'), su, post)


suffix_case()


# ---------------------------------------------------------------- roots

def level_ok(run, I, s, v):
    root = I.load(s, run.args[0][1], ())
    return root


@case('push_level', node_fn('push_level', 'Root'), FN, cfgs=NCFG, public=False)
def _(f, cfg):
    def su(t):
        t.free('N')
        t.I.parents['N'] = N.NULL
        t.atmost(t.I.ht('N'), 2 ** 31)
        return [t.ref(N.rootval(t.I, 'N'))]
    run = mk(f, cfg, su)

    def spec(I, kind, s, v):
        if kind == 'unw':
            return [('bounds', 'panics although the documented conditions hold'), ('surface', None)]
        e, p = is_err(I, s, v)
        failed = happened(I, s, 'failed')
        out = [('surface', None if e == failed else 'reports success or failure wrongly')]
        root = I.load(s, run.args[0][1], ())
        if e:
            return out + want(I, s, root, N.rootval(I, 'N'), 'the root after a failure', 'unchanged') + \
                untouched(I, s, ['N'])
        nw = N.fld(I, p, 'node')
        new = NodeView(I, s, nw)
        out += seqs(I, s, new.p, cat(), cat(), ONE(N.boxed(np('N'))), 'the new root')
        out += want(I, s, root, N.struct(I, 'Root', node=N.boxed(new.p), height=('I', I.ht('N') + 1)), 'the root')
        out += want(I, s, N.fld(I, p, 'height'), ('I', I.ht('N') + 1), 'the height of the returned node')
        out += want(I, s, N.fld(I, p, 'root'), run.args[0], 'the root of the returned node')
        w = NodeView(I, s, np('N'))
        out += seqs(I, s, np('N'), *whole(I, 'N'), edges_if(I, s, 'N', ES(I, 'N', 0, nlen('N') + 1)))
        out.append(('links', None if new.parent() == N.NULL else 'the new root has a parent'))
        return out
    return run, spec


@case('pop_level', node_fn('pop_level', 'Root'), FN, cfgs=NCFG, public=False)
def _(f, cfg):
    def su(t):
        t.internal('N')
        t.I.parents['N'] = N.NULL
        return [t.ref(N.rootval(t.I, 'N'))]
    run = mk(f, cfg, su)

    def spec(I, kind, s, v):
        r = noerr(kind)
        if r:
            return r
        c = kid('N', 0)
        root = I.load(s, run.args[0][1], ())
        out = want(I, s, root, N.struct(I, 'Root', node=N.boxed(np(c)), height=('I', I.ht('N') - 1)), 'the root')
        w = NodeView(I, s, np(c))
        out.append(('links', None if w.parent() == N.NULL else 'the new root still has a parent'))
        out += seqs(I, s, np(c), *whole(I, c), edges_if(I, s, c, ES(I, c, 0, nlen(c) + 1)))
        out.append(('mem', None if s.mem.get(nd('N')) == ('DEAD',) else 'the old root is not freed'))
        return out
    return run, spec


@case('new_leaf', node_fn('new_leaf', 'Root'), FN, cfgs=NCFG, public=False)
def _(f, cfg):
    run = mk(f, cfg, lambda t: [])

    def spec(I, kind, s, v):
        if kind == 'unw':
            return [('surface', 'panics')]
        e, p = is_err(I, s, v)
        out = [('surface', None if e == happened(I, s, 'failed') else 'reports success or failure wrongly')]
        if not e:
            w = NodeView(I, s, N.fld(I, p, 'node'))
            out += seqs(I, s, w.p, cat(), cat())
            out += want(I, s, N.fld(I, p, 'height'), I_(0), 'the height')
            out.append(('links', None if w.parent() == N.NULL else 'the new root has a parent'))
        return out
    return run, spec


def dealloc_case(internal):
    def su(t):
        (t.internal if internal else t.leaf)('N')
        return [N.noderef(t.I, 'N', N.NULL)]

    def post(run, I, s, v):
        out = [('mem', None if s.mem.get(nd('N')) == ('DEAD',) else 'the node is not freed')]
        v = I.force(s, v)
        par = I.isnull(s, np(('mp', 'N')))
        if par:
            return out + [('links', None if v == NONE else 'a parent is returned for a node that has none')]
        if v == NONE:
            return out + [('links', 'the parent is not returned')]
        exp = N.handle(I, N.struct(I, 'NodeRef', height=('I', I.ht('N') + 1), node=np(('mp', 'N')), root=N.NULL),
                       V(('pidx', 'N')))
        return out + want(I, s, v[3][0], exp, 'the returned parent edge', 'links') + frame(I, s, 'N')
    simple('%s deallocate_and_ascend' % ('internal' if internal else 'leaf'),
           node_fn('deallocate_and_ascend', '::%s>' % ('Internal' if internal else 'Leaf')), su, post)


dealloc_case(False)
dealloc_case(True)


# ---------------------------------------------------------------- navigation

def nav(name, method, sig, setup, post, **kw):
    def p2(run, I, s, v):
        return post(run, I, s, v) + frame(I, s)
    simple(name, node_fn(method, sig, **kw), setup, p2)


def nref(kind='free', nonempty=False, static=False):
    def su(t):
        getattr(t, kind)('N')
        if nonempty:
            t.atmost(1, nlen('N'))
        return [N.noderef(t.I, 'N')]
    return su


def by_ref(su):
    def f(t):
        return [t.ref(x) for x in su(t)]
    return f


def hnd(kind, nk='free', ref=False, name='N'):
    def su(t):
        getattr(t, nk)(name)
        i = hsetup(t, name, kind)
        h = N.handle(t.I, N.noderef(t.I, name), i)
        return [t.ref(h) if ref else h]
    return su


def h_at(i):
    return lambda run, I, s, v: want(I, s, v, N.handle(I, N.noderef(I, 'N'), L(i)), 'the returned handle')


nav('first_edge', 'first_edge', 'NodeRef', nref(), h_at(0))
nav('last_edge', 'last_edge', 'NodeRef', nref(), h_at(nlen('N')))
nav('first_kv', 'first_kv', 'NodeRef', nref(nonempty=True), h_at(0))
nav('last_kv', 'last_kv', 'NodeRef', nref(nonempty=True), h_at(nlen('N') - 1))
IX = V(('idx', 'N'))
nav('left_edge', 'left_edge', 'Handle', hnd('kv'), h_at(IX))
nav('right_edge', 'right_edge', 'Handle', hnd('kv'), h_at(IX + 1))


def kv_post(left):
    def post(run, I, s, v):
        v = I.force(s, v)
        has = I.need_le(s, 1, IX) if left else I.need_le(s, IX + 1, nlen('N'))
        if has != (v[2] == 0):
            return [('seq', 'the neighbouring key/value pair is %s' % ('missed' if has else 'made up'))]
        return want(I, s, v[3][0], N.handle(I, N.noderef(I, 'N'), (IX - 1 if left else IX) if has else IX),
                    'the returned handle')
    return post


nav('left_kv', 'left_kv', 'Handle', hnd('edge'), kv_post(True))
nav('right_kv', 'right_kv', 'Handle', hnd('edge'), kv_post(False))


def ascend_post(run, I, s, v):
    v = I.force(s, v)
    if I.isnull(s, np(('mp', 'N'))):
        if v[2] != 1:
            return [('links', 'a parent is made up')]
        return want(I, s, v[3][0], N.noderef(I, 'N'), 'the returned node', 'links')
    if v[2] != 0:
        return [('links', 'the parent is not found')]
    exp = N.struct(I, 'NodeRef', height=('I', I.ht('N') + 1), node=np(('mp', 'N')), root=N.fld(I, N.noderef(I, 'N'), 'root'))
    return want(I, s, v[3][0], N.handle(I, exp, V(('pidx', 'N'))), 'the returned edge', 'links')


nav('ascend', 'ascend', 'NodeRef', nref(), ascend_post)


def descend_post(run, I, s, v):
    return want(I, s, v, N.noderef(I, kid('N', IX)), 'the returned node', 'links')


nav('descend', 'descend', 'Internal', hnd('edge', 'internal'), descend_post)


def force_post(handle_):
    def post(run, I, s, v):
        v = I.force(s, v)
        if (v[2] == 0) != leafkind(I, s, 'N'):
            return [('kind', 'force takes a leaf for an internal node or the other way round')]
        e = N.noderef(I, 'N')
        return want(I, s, v[3][0], N.handle(I, e, IX) if handle_ else e, 'the forced reference', 'kind')
    return post


nav('force', 'force', 'btree::node::NodeRef<.*LeafOrInternal>$', nref(), force_post(False))
nav('handle force', 'force', 'Handle<', hnd('edge'), force_post(True))


def ptr_of(which, i=None):
    return ('P', nd('N'), (3 if which == 'K' else 4, ('i', L(i) if i is not None else IX)))


def kvp(run, I, s, v):
    return want(I, s, v, tup(ptr_of('K'), ptr_of('V')), 'the returned pair of references')


nav('into_kv', 'into_kv', 'Handle', hnd('kv'), kvp)
nav('into_kv_mut', 'into_kv_mut', 'Handle', hnd('kv'), kvp)
nav('kv_mut', 'kv_mut', 'Handle', hnd('kv', ref=True), kvp)


def slice_post(which):
    def post(run, I, s, v):
        if v[0] != 'F':
            raise Unsupported('not a slice: ' + show(v))
        if not I.need_eq(s, v[2], nlen('N')):
            return [('seq', 'the slice has %r elements' % (v[2],))]
        if I.need_le(s, nlen('N'), 0):
            return []
        return want(I, s, v[1], ptr_of(which, 0), 'the start of the slice')
    return post


nav('keys', 'keys', 'NodeRef', by_ref(nref()), slice_post('K'))
nav('vals', 'vals', 'NodeRef', by_ref(nref()), slice_post('V'))
nav('keys_mut', 'keys_mut', 'NodeRef', by_ref(nref()), slice_post('K'))
nav('vals_mut', 'vals_mut', 'NodeRef', by_ref(nref()), slice_post('V'))


def keep(run, I, s, v):
    return want(I, s, v, N.noderef(I, 'N'), 'the returned reference')


def keep_h(run, I, s, v):
    return want(I, s, v, N.handle(I, N.noderef(I, 'N'), IX), 'the returned handle')


nav('forget_type', 'forget_type', 'NodeRef', nref(), keep)
nav('reborrow', 'reborrow', '^btree::node::NodeRef', by_ref(nref()), keep)
nav('reborrow_mut', 'reborrow_mut', '^btree::node::NodeRef', by_ref(nref()), keep)
nav('handle reborrow', 'reborrow', '^btree::node::Handle', hnd('kv', ref=True), keep_h)
nav('handle reborrow_mut', 'reborrow_mut', '^btree::node::Handle', hnd('kv', ref=True), keep_h)
nav('forget_node_type', 'forget_node_type', 'Handle', hnd('edge'), keep_h)
nav('into_node', 'into_node', 'Handle', hnd('kv'), keep)


def len_post(run, I, s, v):
    return want(I, s, v, ('I', nlen('N')), 'the length')


nav('len', 'len', 'NodeRef', by_ref(nref()), len_post)
nav('height', 'height', 'NodeRef', by_ref(nref()), lambda run, I, s, v: want(I, s, v, ('I', I.ht('N')), 'the height'))


def at_idx(kind):
    """a node and an index in range"""
    def su(t):
        t.free('N')
        return [N.noderef(t.I, 'N'), ('I', hsetup(t, 'N', kind))]
    return su


nav('new_edge', 'new_edge', 'Handle', at_idx('edge'), h_at(IX))
nav('new_kv', 'new_kv', 'Handle', at_idx('kv'), h_at(IX))


def two_handles(other):
    def su(t):
        t.free('N')
        i, j = hsetup(t, 'N', 'edge'), sym(t, 'j')
        if other == 'N':
            t.atmost(j, nlen('N'))
        else:
            t.I.hts['M'] = t.I.ht('N')
            t.I.distinct = [{nd('N'), nd('M')}]
            t.rng(('nlen', 'M'), 0, CAP)
            t.atmost(j, nlen('M'))
        return [t.ref(N.handle(t.I, N.noderef(t.I, 'N'), i)), t.ref(N.handle(t.I, N.noderef(t.I, other), j))]
    return su


def eq_post(run, I, s, v):
    if v[0] != 'B':
        raise Unsupported('not a bool: ' + show(v))
    r = I.truth(s, v[1])
    e = False if run.other != 'N' else I.need_eq(s, IX, V('j'))
    if r is None:
        if "'sym'" in repr(v[1]):
            raise Unsupported('undecided comparison')
        raise NeedFork([v[1], pnot(v[1])])
    return [('seq', None if r == e else 'handles of %s are taken for %s' % (
        ('the same position', 'different ones') if e else ('different positions', 'equal')))]


def eq_case(other):
    @case('Handle eq, %s' % ('same node' if other == 'N' else 'different nodes'), node_fn('eq', 'Handle'), FN, cfgs=NCFG,
          public=False)
    def _(f, cfg):
        run = mk(f, cfg, two_handles(other))
        run.other = other

        def spec(I, kind, s, v):
            return noerr(kind) or eq_post(run, I, s, v) + frame(I, s)
        return run, spec


eq_case('N')
eq_case('M')


def root_ref(t):
    t.free('N')
    return [t.ref(N.rootval(t.I, 'N'))]


def root_post(null):
    def post(run, I, s, v):
        return want(I, s, v, N.noderef(I, 'N', N.NULL if null else run.args[0]), 'the returned reference')
    return post


nav('Root as_ref', 'as_ref', 'Root', root_ref, root_post(False))
nav('Root as_mut', 'as_mut', 'Root', root_ref, root_post(False))


def root_own(t):
    t.free('N')
    return [N.rootval(t.I, 'N')]


nav('Root into_ref', 'into_ref', 'Root', root_own, root_post(True))
nav('into_root_mut', 'into_root_mut', 'NodeRef', nref(),
    lambda run, I, s, v: want(I, s, v, ('P', ('o', ('rootvar',), ('adt', '#Root', ())), ()), 'the returned reference'))


def static_ref():
    return ('P', ('static', 'btree::node::NodeHeader<(), ()>'), ())


@case('shared root', node_fn('shared_empty_root', 'Root'), FN, cfgs=NCFG, public=False)
def _(f, cfg):
    run = mk(f, cfg, lambda t: [])

    def spec(I, kind, s, v):
        r = noerr(kind)
        if r:
            return r
        p = N.fld(I, v, 'node')
        while p[0] == 'A':
            p = p[3][0]
        return [('mem', None if p[0] == 'P' and p[1][0] == 'static' else 'the empty root is not the shared one')] + \
            want(I, s, N.fld(I, v, 'height'), I_(0), 'the height')
    return run, spec


# ---------------------------------------------------------------- insertion

def fn_of(cfg, find):
    fs = find(prog(cfg))
    return [src.fn_key(f) for f in fs]


def room_contract(ok_):
    """make_room_in_parent on a smaller tree: fails without any effect, or leaves a parent with room"""
    def c(I, fr, st, f, env, args, tys, rty):
        a = st.copy()
        I.tick(a, 'failed')
        return [('ret', a, err(('S', ('u', 'TryReserveError', I.next_id()), ('adt', 'TryReserveError', ())))),
                ('ret', ok_(I, st.copy(), args[0]), ok(UNIT))]
    return c


def havoc_parent(I, st, nref_):
    p = N.fld(I, nref_, 'node')
    v = NodeView(I, st, p)
    if v.o != nd('N'):
        raise Unsupported('make_room_in_parent of another node')
    i = I.next_id()
    I.store(st, nd('N'), (0,), np(('newparent', i)))
    I.store(st, nd('N'), (1,), ('I', I.fresh('newidx', 0, CAP)))
    return st


def insert_case(internal):
    def su(t):
        if internal:
            t.internal('N')
            t.I.hts['E'] = t.I.ht('N') - 1
        else:
            t.leaf('N')
        i = hsetup(t, 'N', 'edge')
        r = [N.handle(t.I, N.noderef(t.I, 'N'), i), key(0), val(0)]
        return r + ([N.rootval(t.I, 'E')] if internal else [])

    nm = '%s insert' % ('internal' if internal else 'leaf')

    @case(nm, node_fn('insert', r'::%s>' % ('Internal' if internal else 'Leaf')), FN, cfgs=NCFG, public=False)
    def _(f, cfg):
        ct = {k: room_contract(havoc_parent) for k in fn_of(cfg, node_fn('make_room_in_parent'))}
        run = mk(f, cfg, su, contracts=ct)

        def spec(I, kind, s, v):
            if kind == 'unw':
                # the given pair is dropped when the insertion fails: its destructors may panic
                return [('bounds', 'panics although the documented conditions hold' if happened(I, s, 'panic') else None),
                        ('surface', None)] + untouched(I, s, ['N'] + (['E'] if internal else []))
            e, p = is_err(I, s, v)
            failed = happened(I, s, 'failed')
            out = [('surface', None if e == failed else 'reports success or failure wrongly')]
            if e:
                return out + untouched(I, s, ['N'] + (['E'] if internal else []))
            n, i = nlen('N'), IX
            fk = cat(KS(I, 'N', 0, i), ONE(key(0)), KS(I, 'N', i, n))
            fv = cat(VS(I, 'N', 0, i), ONE(val(0)), VS(I, 'N', i, n))
            fe = cat(ES(I, 'N', 0, i + 1), ONE(N.boxed(np('E'))), ES(I, 'N', i + 1, n + 1))
            ir = p if internal else p[3][0]
            ir = I.force(s, ir)
            if not internal:
                ptr = p[3][1]
                got = I.deref_val(s, ptr)
                out.append(('seq', None if got == val(0) else 'the returned pointer is not to the inserted value'))
            if I.vindex('InsertResult', 'Fit') == ir[2]:
                out.append(('bounds', None if I.need_le(s, n, CAP - 1) else 'a full node is said to fit the new pair'))
                out += want(I, s, ir[3][0], N.handle(I, N.noderef(I, 'N'), i), 'the returned handle')
                out += seqs(I, s, np('N'), fk, fv, fe if internal else None)
                return out + frame(I, s, 'N', 'E')
            left, k, w, rt = ir[3]
            out += want(I, s, N.fld(I, left, 'node'), np('N'), 'the left node')
            L_, R = NodeView(I, s, np('N')), NodeView(I, s, N.fld(I, rt, 'node'))
            out += want(I, s, N.fld(I, rt, 'height'), ('I', I.ht('N')), 'the height of the new node')
            for what, x, full in (('keys', k, fk), ('vals', w, fv)):
                g = cat(L_.seq(what), ONE(x), R.seq(what))
                out.append(('seq', same_seq(I, s, g[0], g[1], full[0], full[1])))
            if internal:
                g = cat(L_.seq('edges'), R.seq('edges'))
                out.append(('seq', same_seq(I, s, g[0], g[1], fe[0], fe[1])))
                out += [('links', N.links(I, s, L_)), ('links', N.links(I, s, R))]
            for x in (L_, R):
                out.append(('bounds', None if I.need_le(s, N.HALF, x.n) and I.need_le(s, x.n, CAP) else
                            'a node split off on insertion has %r elements' % (x.n,)))
            return out + frame(I, s, 'N', 'E')
        return run, spec


insert_case(False)
insert_case(True)


def rootptr():
    return ('P', ('o', ('rootvar',), ('adt', '#Root', ())), ())


@case('make_room_in_parent', node_fn('make_room_in_parent'), FN, cfgs=NCFG, public=False)
def _(f, cfg):
    def su_root(t):
        t.free('N')
        t.I.parents['N'] = N.NULL
        t.atmost(t.I.ht('N'), 2 ** 31)
        t.st.mem[rootptr()[1]] = N.rootval(t.I, 'N')
        return [N.noderef(t.I, 'N')]

    def su_kid(t):
        g, p = 'G', kid('G', V(('idx', 'G')))
        n = kid(p, V(('idx', 'P')))
        t.internal('G')
        t.I.rng[('ht', 'G')] = (2, 2 ** 31)
        hsetup(t, 'G', 'edge')
        sym(t, ('idx', 'P'))
        t.I.objinit(nd('G')), t.I.objinit(nd(p))
        t.atmost(V(('idx', 'P')), nlen(p))
        t.atmost(nlen('G'), CAP - 1)
        # the parent of the parent is known only once it has room
        unk = ('S', ('before', 'parent'), ('ptr', False, ('adt', 'InternalNode', (t.I.K, t.I.Vt))))
        gi, gn = V(('idx', 'G')), nlen('G') + 1
        t.st.mem[N.fam('G')] = t.run.start_fam = ('A', 'Fam', 0, tuple(
            ('AR', ((L(0), gi, o), (gi, gi + 1, m), (gi + 1, gn, o))) for o, m in ((np('G'), unk), (('I', VIDX), X))))
        return [N.noderef(t.I, n)]

    def parent_room(I, st, nref_):
        v = NodeView(I, st, N.fld(I, nref_, 'node'))
        if v.o != I.canon(st, nd(kid('G', V(('idx', 'G'))))):
            raise Unsupported('make_room_in_parent of another node')
        I.store(st, N.fam('G'), (0, ('i', V(('idx', 'G')))), np('G'))
        I.store(st, N.fam('G'), (1, ('i', V(('idx', 'G')))), ('I', V(('idx', 'G'))))
        return st

    r1 = mk(f, cfg, su_root)
    r1.tag = 'root'
    r2 = mk(f, cfg, su_kid, contracts={src.fn_key(f): room_contract(parent_room)})
    r2.tag = 'child'

    def head(I, kind, s, v):
        if kind == 'unw':
            return None, [('bounds', 'panics although the documented conditions hold'), ('surface', None)]
        e, p = is_err(I, s, v)
        return e, [('surface', None if e == happened(I, s, 'failed') else 'reports success or failure wrongly')]

    def spec1(I, kind, s, v):
        e, out = head(I, kind, s, v)
        if e is None:
            return out
        root = I.load(s, rootptr()[1], ())
        if e:
            return out + want(I, s, root, N.rootval(I, 'N'), 'the root after a failure', 'unchanged') + untouched(I, s, ['N'])
        new = NodeView(I, s, N.fld(I, root, 'node'))
        out += want(I, s, N.fld(I, root, 'height'), ('I', I.ht('N') + 1), 'the height of the root')
        out += seqs(I, s, new.p, cat(), cat(), ONE(N.boxed(np('N'))), 'the new root')
        out.append(('links', None if new.parent() == N.NULL else 'the new root has a parent'))
        return out + seqs(I, s, np('N'), *whole(I, 'N'), edges_if(I, s, 'N', ES(I, 'N', 0, nlen('N') + 1)))

    def spec2(I, kind, s, v):
        e, out = head(I, kind, s, v)
        if e is None:
            return out
        gi = V(('idx', 'G'))
        pn = kid('G', gi)
        n, m = nlen('G'), nlen(pn)
        full = not I.need_le(s, m, CAP - 1)
        if e or not full:
            if not full and e:
                out.append(('surface', 'fails although the parent has room'))
            ff = s.mem.get(N.fam('G'))
            if not e and not I.same(s, ff, r2.start_fam):
                return out + [('seq', 'changes the tree although the parent has room')]
            if e and not I.same(s, ff, r2.start_fam):
                return out + [('unchanged', 'a failed operation changes the ancestors')]
            for x in ('G', pn):
                o = I.canon(s, nd(x))
                if o in s.mem and not I.same(s, s.mem[o], I.objinit(o)):
                    return out + [('unchanged' if e else 'seq', 'changes an ancestor')]
            return out + [('unchanged', None)]
        G, P = NodeView(I, s, np('G')), NodeView(I, s, np(pn))
        gk, gv, ge = G.seq('keys'), G.seq('vals'), G.seq('edges')
        if not I.need_eq(s, G.n, n + 1):
            return out + [('seq', 'the parent of the split node does not get one more element')]
        # the new node: the edge after the split one
        nw = I.ar_get(s, G.v[3][5], gi + 1, gi + 2)[0][2]
        R = NodeView(I, s, nw)
        if I.is_node(R.o):
            return out + [('seq', 'the new node is not linked after the split one')]
        kk = I.ar_get(s, G.v[3][3], gi, gi + 1)[0][2]
        vv = I.ar_get(s, G.v[3][4], gi, gi + 1)[0][2]
        out += seqs(I, s, np('G'), cat(KS(I, 'G', 0, gi), ONE(kk), KS(I, 'G', gi, n)),
                    cat(VS(I, 'G', 0, gi), ONE(vv), VS(I, 'G', gi, n)),
                    cat(ES(I, 'G', 0, gi + 1), ONE(N.boxed(R.p)), ES(I, 'G', gi + 1, n + 1)), 'the grandparent')
        for what, x, w in (('keys', kk, KS(I, pn, 0, m)), ('vals', vv, VS(I, pn, 0, m))):
            g = cat(P.seq(what), ONE(x), R.seq(what))
            out.append(('seq', same_seq(I, s, g[0], g[1], w[0], w[1])))
        g, w = cat(P.seq('edges'), R.seq('edges')), ES(I, pn, 0, m + 1)
        out.append(('seq', same_seq(I, s, g[0], g[1], w[0], w[1])))
        out += [('links', N.links(I, s, x)) for x in (P, R)]
        for x in (P, R):
            out.append(('bounds', None if I.need_le(s, N.HALF, x.n) and I.need_le(s, x.n, CAP - 1) else
                        'a node split off on insertion has %r elements' % (x.n,)))
        return out
    return [(r1, spec1), (r2, spec2)]


# ---------------------------------------------------------------- what the map as a whole promises through these operations

_INS = ('internal insert', 'leaf insert', 'internal insert_fit', 'leaf insert_fit', 'internal split', 'leaf split',
        'make_room_in_parent', 'new_leaf', 'push_level', 'shared root')
_REM = ('leaf remove', 'merge', 'steal_left', 'steal_right', 'can_merge', 'pop', 'pop_front', 'pop_level', 'leaf push',
        'internal push', 'leaf push_front', 'internal push_front')
_BULK = ('push_level', 'pop_level', 'leaf push', 'internal push', 'bulk_steal_left', 'bulk_steal_right', 'move_suffix', 'merge',
         'can_merge', 'new_leaf')
_FREE = ('internal deallocate_and_ascend', 'leaf deallocate_and_ascend')
_NAV = [c.name for c in CASES if c.build.__module__ == __name__ and c.name not in _INS + _REM + _BULK + _FREE]


def _also(names, pid, facets):
    for c in CASES:
        if c.build.__module__ == __name__ and c.name in names:
            for f in facets:
                if f in c.facets:
                    v = c.facets[f]
                    v = v if isinstance(v, tuple) else (v,)
                    c.facets = dict(c.facets, **{f: v + ((pid,) if pid not in v else ())})


_ALL = ('seq', 'links', 'bounds', 'mem', 'kind')
_also(_INS, 'C31', _ALL)
_also(_INS, 'C20', ('seq', 'mem'))
_also(_REM, 'C35', _ALL)
_also(_BULK, 'C32', _ALL)
_also(_NAV, 'C26', _ALL)
_also(list(_NAV) + list(_FREE), 'C28', _ALL)


# ---------------------------------------------------------------- layout of the node types

def _norm(ty, gen):
    return ''.join('$%d' % gen.index(w) if w in gen else w for w in re.findall(r"\w+|[^\w\s]", ty))


@extra('C25', NCFG)
def layout(res, tier):
    """pointers to the header, to a leaf and to an internal node are cast into each other: the types are prefixes of
    each other in declaration order, and only repr(C) keeps the declared order"""
    s = prog('unstable').src
    nm = {x: 'btree::node::' + x for x in ('NodeHeader', 'LeafNode', 'InternalNode')}
    if any(x not in s.structs for x in nm.values()):
        res.undecided.append(('node layout', 'the three node types were not found'))
        return
    hd, lf, it = (s.structs[nm[x]] for x in ('NodeHeader', 'LeafNode', 'InternalNode'))
    gen = {x: s.generics[nm[x]] for x in nm}
    ali = {mir.last(a) for a in s.aliases}
    bad = []
    for x in nm:
        if 'C' not in re.findall(r'\w+', s.reprs.get(nm[x], '')):
            bad.append((x, 'is not repr(C): its fields may be laid out in another order than in the types it is cast to'))
    for i, (f, ty) in enumerate(hd):
        a = _norm(ty, gen['NodeHeader'])
        b = _norm(lf[i][1], gen['LeafNode']) if i < len(lf) else None
        if a.endswith(';0]'):
            if i != len(hd) - 1:
                bad.append(('NodeHeader', 'has a field after the marker of where the keys start'))
            if b is None or lf[i][0] != 'keys' and 'CAPACITY' not in lf[i][1]:
                bad.append(('NodeHeader', 'the keys do not start where `%s` is' % f))
        elif a != b and not any(w in ali for w in re.findall(r'\w+', ty + (lf[i][1] if i < len(lf) else ''))):
            bad.append(('NodeHeader', 'field `%s: %s` is not at the same place in LeafNode' % (f, ty)))
    if not it or _norm(it[0][1], gen['InternalNode']) != 'LeafNode<$0,$1>':
        bad.append(('InternalNode', 'does not start with its leaf part'))
    res.decided += 1
    res.obligations.append(('node layout [unstable]', len(hd) + 4, 'violated' if bad else 'discharged'))
    res.functions.update('btree::node::' + x for x in nm)
    for x, msg in bad:
        res.violate('layout|%s|%s' % (x, msg), 'btree::node::' + x, msg, 'header, leaf and internal node share one prefix')
