"""Comparisons and hashing of maps and sets: two maps A and B are ghost sequences of entries, compared entry by entry.

Like in sa/alg.py a position counts the entries taken since the last reference point; the outcome of every comparison between the k-th
entries of the two maps is a fact.  At a loop head the entries taken must have been found equal, pair by pair; the reference point then moves."""
from .tree import *
from .tree import M, struct, fld
from .. import tree as TR
from .. import alg as AL
from ..alg import SIDES, it, it_of, un
from ..interp import NeedFork, pnot
from ..tree import TreeInterp, deref
from . import set as S

NA, NB = V('na'), V('nb')
GH = ('o', ('lex',), ('adt', '#Lex', ()))
TK, TV = ('adt', 'K', ()), ('adt', 'V', ())
OUT = ('eq', 'lt', 'gt', 'un')
LF = {'ret': 'C34', 'panic': 'C34', 'mem': 'C34', 'alloc': 'C14'}


def ent(kind, s, k, unit=False):
    return ('P', ('o', (kind, s, k), TK if kind == 'lk' else ('tuple', ()) if unit else TV), ())


def mapptr(s):
    return ('P', ('o', ('lexmap', s), ('adt', 'BTreeMap', (TK, TV))), ())


def setptr(s):
    return ('P', ('o', ('lexset', s), ('adt', 'BTreeSet', (TK,))), ())


class Lx:
    """ghost record: number of pairs dealt with, entries taken since, facts {(kind, k): outcome}"""

    def __init__(self, st):
        v = st.mem[GH][3]
        self.done = v[0][1]
        self.taken = {s: len(v[1 + i][3]) for i, s in enumerate(SIDES)}
        self.facts = {('lk' if f[2] == 0 else 'lv', len(f[3][0][3])): OUT[f[3][1][2]] for f in v[3][3]}
        self.n = {'A': NA - self.done, 'B': NB - self.done}

    def put(self, st):
        fs = tuple(('A', '#f', 0 if k == 'lk' else 1, (un(i), ('A', '#out', OUT.index(o), ()))) for (k, i), o in sorted(self.facts.items()))
        st.mem[GH] = ('A', '#Lex', 0, (('I', self.done), *(un(self.taken[s]) for s in SIDES), ('A', 'L', 0, fs)))


class LexInterp(TreeInterp):
    addresses = True
    order_total = False
    single = False          # one map only: nothing is compared
    values = True           # entries are compared by key and value (a set: by key)

    def contract(self, f):
        k = src.fn_key(f)
        if f.impl is not None and k != self.entry and k.startswith(('btree::map::', 'btree::set::')) and '{closure' not in f.name:
            t = f.impl.self_ty
            while t[0] == 'ref':
                t = t[2]
            if t[0] == 'adt':
                nm = mir.last(t[1])
                m = self.own.get((nm, f.method)) or getattr(self, 'g_%s_%s' % (nm, f.method), None)
                if m is not None:
                    return lambda I, fr, st, f, env, args, tys, rty: self.run_contract(m, fr, st, f, args, env)
                if nm == 'Iter' and k.startswith('btree::map::'):
                    raise Unsupported('iterator operation ' + f.method)
        return super().contract(f)

    def invoke_trait(self, fr, st, selft, trait, method, margs, args, tys, rty, span, callee):
        if method == 'hash' and len(args) == 2 and not (selft[0] == 'adt' and mir.last(selft[1]) in ('BTreeMap', 'BTreeSet')):
            return self.hash_of(fr, st, args[0], selft, args, rty, None)
        if method in ('next', 'size_hint', 'len', 'clone') and args and args[0][0] == 'P':
            v = self.deref_val(st, args[0])
            p = args[0]
            while v[0] == 'P':
                p, v = v, self.deref_val(st, v)
            if it_of(v) is not None:
                m = getattr(self, 'g_Iter_' + method)
                return self.run_contract(m, fr, st, fr.f, [p], {})
        return super().invoke_trait(fr, st, selft, trait, method, margs, args, tys, rty, span, callee)

    def user_call(self, fr, st, what, args, rty):
        m = what[1] if isinstance(what, tuple) and len(what) > 1 else what
        if m == 'hash' and len(args) == 2:
            if self.ent(st, args[0]) is None:
                raise Unsupported('hash of ' + show(args[0])[:60])
        elif isinstance(m, str) and m.startswith('write') and len(args) > 1:
            self.fed(st, args[1])
        return super().user_call(fr, st, what, args, rty)

    def fed(self, st, v):
        if v[0] == 'I':
            if any(a not in ('na', 'nb') and not str(a).startswith('na') for a in v[1].atoms()):
                raise Bad('foreign', 'feeds the hasher something that is not determined by the entries of the map: %r' % (v[1],))
        elif v[0] == 'P':
            if self.ent(st, v) is None:
                raise Unsupported('hashes ' + show(v)[:60])
        elif v[0] != 'B' or not isinstance(v[1], bool):
            raise Unsupported('hashes ' + show(v)[:60])

    def hash_of(self, fr, st, v, ty, args, rty, info):
        """Hash::hash of a tuple, reference or number"""
        while v[0] == 'P' and self.ent_ref(v) is None:
            v = self.deref_val(st, v)
        if v[0] == 'P':
            if v[1][2] == ('tuple', ()):
                return [('ret', st, UNIT)]
            return self.user_call(fr, st, ('Hash', 'hash'), [v, args[1]], rty)
        if v[0] == 'A' and v[1] == 'tuple':
            outs, cur = [], [st]
            for x in v[3]:
                nxt = []
                for s in cur:
                    for o in self.hash_of(fr, s, x, None, args, rty, info):
                        (nxt.append(o[1]) if o[0] == 'ret' else outs.append(o))
                cur = nxt
            return outs + [('ret', s, UNIT) for s in cur]
        self.fed(st, v)
        return [('ret', st, UNIT), ('unw', st.copy(), None)]

    def ent_ref(self, v):
        return v[1][1] if v[1][0] == 'o' and v[1][1][0] in ('lk', 'lv') and not v[2] else None

    def ent(self, st, v):
        while v[0] == 'P':
            if v[1][0] == 'o' and v[1][1][0] in ('lk', 'lv') and not v[2]:
                return v[1][1]
            v = self.deref_val(st, v)
        if v[0] == 'S' and v[1][0] == '*' and v[1][1][0] in ('lk', 'lv'):
            return v[1][1]
        return None

    def order(self, st, a, b):
        x, y = self.ent(st, a), self.ent(st, b)
        if x is None or y is None:
            return super().order(st, a, b)
        if x[0] != y[0] or 'gone' in (x[1], y[1]):
            raise Unsupported('comparison of unrelated entries')
        if x[1] == y[1]:
            if x[2] == y[2]:
                return [(st, 0)]
            raise Unsupported('comparison of entries of one map')
        if x[2] != y[2]:
            raise Unsupported('comparison of entries at different positions')
        sg = 1 if x[1] == 'A' else -1
        outs = []
        for o, r in (('eq', 0), ('lt', -1), ('gt', 1), ('un', 2)):
            g = Lx(st)
            f = g.facts.get((x[0], x[2]))
            if f is not None and f != o or o == 'un' and self.order_total:
                continue
            s = st.copy()
            g.facts[x[0], x[2]] = o
            g.put(s)
            outs.append((s, r if r == 2 else r * sg))
        return outs

    def side(self, p):
        while p[0] == 'P':
            if p[1][0] == 'o' and p[1][1][0] in ('lexmap', 'lexset') and not p[2]:
                return p[1][1][1]
            if p[1][0] == 'o' and p[1][1][0] == 'lexset':
                return p[1][1][1]
            break
        raise Unsupported('map ' + show(p)[:60])

    def g_BTreeMap_iter(self, c, p):
        s = self.side(p)
        if Lx(c.st).done != L(0):
            raise Unsupported('map taken up again in a loop')
        return it(s)

    def g_BTreeMap_into_iter(self, c, p):
        if p[0] != 'P':
            raise Unsupported('map by value')
        return self.g_BTreeMap_iter(c, p)

    def g_BTreeMap_len(self, c, p):
        return ('I', {'A': NA, 'B': NB}[self.side(p)])

    def g_BTreeMap_is_empty(self, c, p):
        return ('B', self.need_le(c.st, {'A': NA, 'B': NB}[self.side(p)], 0))

    def g_Iter_next(self, c, p):
        r = it_of(deref(c, p))
        if r is None:
            raise Unsupported('iterator ' + show(deref(c, p))[:60])
        s, k = r
        g = Lx(c.st)
        if self.need_le(c.st, g.n[s], k):
            return NONE
        if k >= 6:
            raise Unsupported('too many entries in one step')
        self.store(c.st, p[1], p[2], it(s, k + 1))
        g.taken[s] = max(g.taken[s], k + 1)
        g.put(c.st)
        return some(('A', 'tuple', 0, (ent('lk', s, k), ent('lv', s, k, not self.values))))

    def g_Iter_len(self, c, p):
        s, k = it_of(deref(c, p)) or self.bad(c, p)
        return ('I', Lx(c.st).n[s] - k)

    def g_Iter_size_hint(self, c, p):
        n = self.g_Iter_len(c, p)
        return ('A', 'tuple', 0, (n, some(n)))

    def g_Iter_clone(self, c, p):
        return deref(c, p)

    def bad(self, c, p):
        raise Unsupported('iterator ' + show(deref(c, p))[:60])

    def equal(self, g, k):
        return g.facts.get(('lk', k)) == 'eq' and (not self.values or g.facts.get(('lv', k)) == 'eq')

    def on_trim(self, st):
        super().on_trim(st)
        if GH not in st.mem:
            return
        g = Lx(st)
        n = max(g.taken.values())
        if not n:
            return
        pos = set()
        for k, v in st.mem.items():
            if k != GH:
                iters(v, pos)
        if self.single:
            if any(k != n for s, k in pos):
                return
        elif g.taken['A'] != g.taken['B'] or any(k != n for s, k in pos) or not all(self.equal(g, k) for k in range(n)):
            return          # kept for the exit; a loop that never compares them does not close
        m = {(kd, s, k): (kd, 'gone', 0) for kd in ('lk', 'lv') for s in SIDES for k in range(n)}
        for k in list(st.mem):
            if k != GH:
                st.mem[k] = AL.shift(st.mem[k], m, {'A': n, 'B': n})
        g.done = g.done + n
        g.taken = {s: 0 for s in SIDES}
        g.facts = {}
        g.put(st)


def iters(v, out):
    if isinstance(v, tuple):
        r = it_of(v) if len(v) > 3 else None
        if r is not None:
            out.add(r)
            return
        for x in v:
            if isinstance(x, tuple):
                iters(x, out)


def mkl(f, cfg, setup, total, values=True, own=None):
    def su(run):
        I = run.I
        I.order_total, I.values = total, values
        I.rng['na'] = I.rng['nb'] = (0, TR.BIG)
        run.st.mem[GH] = ('A', '#Lex', 0, (('I', L(0)), un(0), un(0), ('A', 'L', 0, ())))
        I.own.update(own or {})
        for sd, n in (('A', NA), ('B', NB)):
            v = struct(I, 'BTreeMap', root=('S', ('root', sd), ('adt', 'Root', (TK, TV))), length=('I', n))
            run.st.mem[mapptr(sd)[1]] = v
            run.st.mem[setptr(sd)[1]] = struct(I, 'BTreeSet', map=v)
        run.args = setup(M(run))
    return Run(f, cfg, cls=LexInterp, args=[], setup=su)


def prefix(I, g):
    p = 0
    while I.equal(g, p):
        p += 1
    return p


def decides(I, s, g, want):
    """None, or why the entries seen do not show the outcome `want` ('eq', 'ne', 'lt', 'gt', 'un')"""
    p = prefix(I, g)
    k, v = g.facts.get(('lk', p)), g.facts.get(('lv', p))
    if want == 'ne':
        if any(o != 'eq' for o in g.facts.values()) or I.need_le(s, NA + 1, NB) or I.need_le(s, NB + 1, NA):
            return None
        return 'says the maps differ without an entry that shows it'
    if want == 'eq':
        if I.need_le(s, g.n['A'], p) and I.need_le(s, g.n['B'], p):
            return None
        return 'says the maps are equal though not every entry was found equal'
    first = k if k not in (None, 'eq') else v if k == 'eq' and I.values else None
    if first is None and want in ('lt', 'gt') and k is None:
        a, b = (g.n['A'], g.n['B']) if want == 'lt' else (g.n['B'], g.n['A'])
        if I.need_le(s, a, p) and I.need_le(s, L(p + 1), b):
            return None
    if first == want:
        return None
    return {'lt': 'says less though the first difference does not show it', 'gt': 'says greater though the first difference does not show it',
            'un': 'says the maps cannot be compared though the first difference does not show it'}[want]


def verdict(I, s, v, method):
    """outcomes asserted by a return value: name of the outcome"""
    if method in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        if v[0] != 'B':
            raise Unsupported('result ' + show(v)[:60])
        r = I.truth(s, v[1])
        if r is None:
            raise NeedFork([v[1], pnot(v[1])])
        return r
    v = I.force(s, v)
    if method == 'partial_cmp':
        if v[2] == 0:
            return 'un'
        v = I.force(s, v[3][0])
    return {I.vindex('Ordering', n): o for n, o in (('Less', 'lt'), ('Equal', 'eq'), ('Greater', 'gt'))}[v[2]]


def cmp_case(trait, method, ty='BTreeMap', public=True):
    find = tfn(method, ty, trait) if ty == 'BTreeMap' else S.sfn(method, ty, trait)

    @case('%s %s::%s' % (ty, trait, method), find, LF, cfgs=UN, public=public)
    def _(f, cfg):
        ptr = mapptr if ty == 'BTreeMap' else setptr
        run = mkl(f, cfg, lambda m: [ptr('A'), ptr('B')], trait == 'Ord', ty == 'BTreeMap')

        def spec(I, kind, s, v):
            if kind == 'unw':
                return [('panic', 'panics' if happened(I, s, 'panic') else None)]
            g = Lx(s)
            r = verdict(I, s, v, method)
            if method in ('eq', 'ne'):
                r = 'eq' if r == (method == 'eq') else 'ne'
                return [('ret', decides(I, s, g, r))]
            if method in ('lt', 'le', 'gt', 'ge'):
                yes = {'lt': ('lt',), 'le': ('lt', 'eq'), 'gt': ('gt',), 'ge': ('gt', 'eq')}[method]
                ok = yes if r else tuple(o for o in OUT if o not in yes)
                ms = [decides(I, s, g, o) for o in ok]
                return [('ret', None if None in ms else 'the answer %s does not follow from the entries compared' % r)]
            return [('ret', decides(I, s, g, r))]
        return run, spec


for _tr, _ms in (('PartialEq', ('eq', 'ne')), ('PartialOrd', ('partial_cmp', 'lt', 'le', 'gt', 'ge')), ('Ord', ('cmp',))):
    for _m in _ms:
        for _ty in ('BTreeMap', 'BTreeSet'):
            cmp_case(_tr, _m, _ty, public=_m in ('eq', 'partial_cmp', 'cmp'))


for _ty in ('BTreeMap', 'BTreeSet'):
    @case(_ty + ' Hash::hash', tfn('hash', _ty, 'Hash') if _ty == 'BTreeMap' else S.sfn('hash', _ty, 'Hash'), LF, cfgs=UN)
    def _(f, cfg, ty=_ty):
        def setup(m):
            m.I.single = True
            h = ('o', ('hasher',), ('adt', 'H', ()))
            return [(mapptr if ty == 'BTreeMap' else setptr)('A'), ('P', h, ())]
        run = mkl(f, cfg, setup, False, ty == 'BTreeMap')

        def spec(I, kind, s, v):
            if kind == 'unw':
                return [('panic', 'panics' if happened(I, s, 'panic') else None)]
            return [('ret', None)]
        return run, spec
