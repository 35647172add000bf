"""Abstract interpreter over MIR.

A state maps memory cells to abstract values (vals.py) together with a conjunction of linear facts
(lin.py).  Straight-line code is interpreted by transfer functions; control-flow forks partition the
state; loops are solved by a join/widening fixpoint (affine generalisation over loop counters), whose
result is kept only when the loop body maps it into itself.  Local functions and closures are analysed
by inlining in the caller's abstract state; std functions by the transfer functions in models.py or by
the MIR of the library model in prelude.rs."""
import re, itertools, time
from . import mir, lin
from .lin import Lin, V, L, Facts, MAXU
from .vals import *


class NeedFork(Exception):
    def __init__(self, preds):
        self.preds = preds


def NeedSplit(p):
    return NeedFork([p, pnot(p)])


class Bad(Exception):
    """the abstract execution performs an operation that the rule forbids"""

    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


# std operations without a model that allocate and cannot report failure
ALLOCATES = re.compile(r'^(alloc|std|core)::(slice|str|vec::Vec|string::String|boxed::Box|rc::Rc|sync::Arc|collections::.*|fmt)::'
                       r'(to_vec|concat|join|repeat|to_owned|to_string|to_lowercase|to_uppercase|replace|extend|extend_from_within|insert_str|'
                       r'push_back|push_front|make_mut|format|from_slice|clone_from_slice_to_vec|splice|from_iter|into_owned|new_uninit|new_zeroed|'
                       r'new_cyclic|new_uninit_slice|clone)$|^(ToOwned|ToString)::|^(FromIterator|Extend|Clone)::\w+ on (alloc|std)::(vec|string|boxed|collections)::')


class Unsupported(Exception):
    pass


class ModelPanic(Exception):
    """the modelled library function panics"""


class Budget(Unsupported):
    """the analysis of the whole case is given up"""
    pass


class Report:
    __slots__ = ('kind', 'fn', 'callee', 'msg', 'chain', 'span', 'entry', 'approx')

    def __repr__(self):
        return '%s in %s at %s: %s' % (self.kind, self.fn, self.callee, self.msg)


class St:
    __slots__ = ('mem', 'facts', 'refine', 'pan')

    def __init__(self, mem=None, facts=None, refine=None, pan=False):
        self.mem = mem if mem is not None else {}
        self.facts = facts or Facts()
        self.refine = refine or {}
        self.pan = pan

    def copy(self):
        return St(dict(self.mem), self.facts, dict(self.refine), self.pan)


class Frame:
    __slots__ = ('f', 'env', 'd', 'parent', 'span', 'callee')


STD_VARIANTS = {'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'ControlFlow': ['Continue', 'Break'],
                'Ordering': ['Less', 'Equal', 'Greater'], 'Bound': ['Included', 'Excluded', 'Unbounded'],
                'EitherOrBoth': []}
INTS = {'usize': (0, MAXU), 'u64': (0, MAXU), 'u32': (0, 2**32 - 1), 'u16': (0, 65535), 'u8': (0, 255),
        'isize': (-2**63, 2**63 - 1), 'i64': (-2**63, 2**63 - 1), 'i32': (-2**31, 2**31 - 1),
        'i16': (-2**15, 2**15 - 1), 'i8': (-128, 127), 'u128': (0, 2**128 - 1), 'i128': (-2**127, 2**127 - 1),
        'char': (0, 0x10ffff)}
TRANSPARENT = {'Box', 'Unique', 'NonNull', 'ManuallyDrop', 'MaybeUninit', 'MaybeDangling', 'UnsafeCell'}


def is_int(t):
    return t[0] == 'adt' and not t[2] and t[1] in INTS


def tyname(t):
    return mir.last(t[1]) if t[0] == 'adt' else t[0]


def approximate(st):
    """does the state stand for the result of joining several rounds of a loop?"""
    return any(isinstance(a, tuple) and a[0] in ('w', 'k') for f in st.facts.ge for a in f.atoms())


class Interp:
    addresses = False       # addresses may be turned into numbers

    def __init__(self, prog, prelude=None, models=None):
        self.prog = prog
        self.src = prog.src
        self.prelude = prelude
        from . import models as M
        self.models = M.TABLE if models is None else models
        self.trait_models = M.TRAIT_TABLE
        self.rng = {}
        self.reports = []
        self.gaps = []
        self.peel = 0              # follow only that many rounds of every loop, without generalising
        self.overflows = []
        self.deep = False       # loops of this case show their effect only after many rounds
        self.joined = set()     # (function with an overflow, is the state an approximation)
        self.contracts = {}        # fn key predicate -> python contract
        self.mon = None
        self.steps = 0
        self.max_steps = 400000
        self.nid = 0
        self.deadline = None
        self.time_limit = 120
        self.max_depth = 60
        self.stats = {'fns': set(), 'blocks': set(), 'calls': 0, 'loops': 0, 'forks': 0, 'unknown': set(),
                      'user_calls': 0, 'callsites': set()}
        self.cfgcache = {}
        self.copy_types = set()
        self.struct_alias = {}
        self.entry = ''
        self.family = {}
        self.quiet = 0
        self._cc = {}

    # ------------------------------------------------------------ facts
    def nn(self, a):
        r = self.rng.get(a)
        if r is None:
            lo, hi = 0, MAXU
        else:
            lo, hi = r
        v = V(a)
        out = []
        if lo is not None:
            out.append(v - lo)
        if hi is not None:
            out.append(Lin(hi) - v)
        if isinstance(a, tuple) and a[0] == 'cap':
            out.append(v - V(('len', a[1])))
        return out

    def ge(self, st, e):
        return st.facts.entails_ge(e, self.nn)

    def eq(self, st, a, b):
        d = L(a) - L(b)
        if not d.m:
            return d.c == 0
        return st.facts.entails_eq(d, self.nn)

    def ne(self, st, a, b):
        return st.facts.entails_ne(L(a) - L(b), self.nn)

    def lt(self, st, a, b):
        return self.ge(st, L(b) - L(a) - 1)

    def le(self, st, a, b):
        return self.ge(st, L(b) - L(a))

    def need_le(self, st, a, b):
        """decide a <= b in st, forking if undetermined"""
        d = L(b) - L(a)
        if self.ge(st, d):
            return True
        if self.ge(st, -d - 1):
            return False
        raise NeedSplit(('ge', d))

    def need_eq(self, st, a, b):
        d = L(b) - L(a)
        if self.eq(st, d, 0):
            return True
        if self.ne(st, d, 0):
            return False
        raise NeedSplit(('eq', d))

    def next_id(self):
        # rolled back when a statement is retried after a case split, so that both cases use the same names
        self.nid += 1
        return self.nid

    def fresh(self, name, lo=0, hi=MAXU):
        a = ('t', name, self.next_id())
        self.rng[a] = (lo, hi)
        return V(a)

    def truth(self, st, p):
        """True / False / None"""
        if p is True or p is False:
            return p
        k = p[0]
        if k == 'ge':
            if self.ge(st, p[1]):
                return True
            if self.ge(st, -p[1] - 1):
                return False
            return None
        if k == 'eq':
            if self.eq(st, p[1], 0):
                return True
            if self.ne(st, p[1], 0):
                return False
            return None
        if k == 'not':
            t = self.truth(st, p[1])
            return None if t is None else (not t)
        if k == 'sym':
            return st.refine.get(('b', p[1]))
        if k == 'var':
            v = st.refine.get(p[1])
            if v is not None:
                return v == p[2]
            if p[2] in st.refine.get(('nv', p[1]), ()):
                return False
            return None
        if k == 'and':
            a, b = self.truth(st, p[1]), self.truth(st, p[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if k == 'or':
            a, b = self.truth(st, p[1]), self.truth(st, p[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        raise Unsupported('pred ' + repr(p))

    def assume(self, st, p):
        """new state with p assumed, or None when contradictory"""
        t = self.truth(st, p)
        if t is True:
            return st
        if t is False:
            return None
        st = st.copy()
        k = p[0]
        if k == 'ge':
            st.facts = st.facts.add_ge(p[1], self.nn)
        elif k == 'eq':
            st.facts = st.facts.add_eq(p[1], self.nn)
        elif k == 'sym':
            st.refine[('b', p[1])] = True
        elif k == 'var':
            st.refine[p[1]] = p[2]
            if not self.on_variant(st, p[1], p[2]):
                return None
        elif k == 'not':
            q = p[1]
            if q[0] == 'eq':
                st.facts = st.facts.add_ne(q[1], self.nn)
            elif q[0] == 'sym':
                st.refine[('b', q[1])] = False
            elif q[0] == 'var':
                st.refine[('nv', q[1])] = st.refine.get(('nv', q[1]), ()) + (q[2],)
            elif q[0] == 'and':
                return self._or(st, pnot(q[1]), pnot(q[2]))
            elif q[0] == 'or':
                s = self.assume(st, pnot(q[1]))
                return s and self.assume(s, pnot(q[2]))
            else:
                raise Unsupported('not ' + repr(q))
        elif k == 'and':
            s = self.assume(st, p[1])
            return s and self.assume(s, p[2])
        elif k == 'or':
            return self._or(st, p[1], p[2])
        else:
            raise Unsupported('assume ' + repr(p))
        if st.facts is None:
            return None
        return st

    def _or(self, st, a, b):
        raise NeedFork([a, ('and', pnot(a), b)]) if self.truth(st, a) is None else Unsupported('or')

    def on_variant(self, st, key, v):
        return True

    def note(self, what, fr, info):
        self.stats.setdefault('notes', []).append((what, fr.f.name))

    def layout_of(self, kind, t):
        if is_int(t):
            return L({'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'char': 4, 'u128': 16,
                      'i128': 16}.get(t[1], 8))
        if t == ('tuple', ()):
            return L(0 if kind.startswith('size') else 1)
        a = (kind, mir.show(t))
        self.rng[a] = (0, 2**63 - 1)
        return V(a)

    def find_impl_head(self, method, head):
        """iterator-style dispatch on the head of a runtime value"""
        for prog in (self.prog, self.prelude):
            if prog is None:
                continue
            for (tn, m), fs in prog.by_trait.items():
                if m != method:
                    continue
                for f in fs:
                    st = f.impl.self_ty
                    if st[0] == 'adt' and mir.last(st[1]) == head:
                        return f, {}
        return None, {}

    # ------------------------------------------------------------ symbols
    def mk(self, key, ty):
        """value for the opaque symbol `key` of type ty"""
        k = ty[0]
        if k == 'adt':
            if not ty[2] and ty[1] in INTS:
                if key not in self.rng:
                    self.rng[key] = INTS[ty[1]]
                return ('I', V(key))
            if ty[1] == 'bool':
                return ('B', ('sym', key))
            nm = mir.last(ty[1])
            if nm in ('PhantomData', 'PhantomPinned'):
                return ('A', nm, 0, ())
            if nm in ('NonNull', 'Box', 'Unique'):
                return self.mkref(key, ty[2][0] if ty[2] else ('raw', '?'))
            if nm in ('ManuallyDrop', 'MaybeUninit'):
                return self.mk(key, ty[2][0])
            if nm == 'Vec':
                return self.mkvec(key, ty[2][0] if ty[2] else ('raw', '?'))
            if nm in ('Iter', 'IterMut') and 'slice::' in ty[1]:
                return ('A', 'SliceIter', 0, (('P', ('o', key, ('slice', ty[2][0])), (('i', L(0)),)), I(0),
                                              ('I', V(('len', key)))))
            if nm == 'IntoIter' and 'vec::' in ty[1]:
                return ('A', 'VecIntoIter', 0, (('P', ('o', key, ('slice', ty[2][0])), (('i', L(0)),)), I(0),
                                                ('I', V(('len', key)))))
            sd = self.structdef(ty)
            if sd is not None:
                return ('A', sd[0], 0, tuple(self.mk(('f', key, i), t) for i, (n, t) in enumerate(sd[1])))
            return ('S', key, ty)
        if k == 'tuple':
            return ('A', 'tuple', 0, tuple(self.mk(('f', key, i), t) for i, t in enumerate(ty[1])))
        if k in ('ref', 'ptr'):
            return self.mkref(key, ty[2])
        return ('S', key, ty)

    def mkref(self, key, t):
        if t[0] == 'slice':
            n = V(('len', key))
            return ('F', ('P', ('o', key, t), (('i', L(0)),)), n)
        if t[0] == 'adt' and t[1] == 'str':
            n = V(('len', key))
            return ('F', ('P', ('o', key, ('slice', ('adt', 'u8', ()))), (('i', L(0)),)), n)
        return ('P', ('o', key, t), ())

    def mkvec(self, key, t):
        return ('A', 'Vec', 0, (('I', V(('len', key))), ('I', V(('cap', key))),
                                ('P', ('o', ('buf', key), ('vecbuf', t)), (('i', L(0)),))))

    def objinit(self, obj):
        """initial content of a lazily created object"""
        _, key, t = obj
        if t[0] == 'slice':
            return ('AR', ((L(0), V(('len', key)), self.mk(('el', key, VIDX), t[1])),))
        if t[0] == 'vecbuf':
            n = V(('len', key[1]))
            return ('AR', ((L(0), n, self.mk(('el', key[1], VIDX), t[1])), (n, V(('cap', key[1])), X)))
        return self.mk(('*', key), t)

    def structdef(self, ty):
        """(name, [(field, concrete type)]) of a crate/prelude struct, or None"""
        k = self._cc.get(ty)
        if k is None:
            k = self._cc[ty] = self._structdef(ty) or False
        return k or None

    def _structdef(self, ty):
        for prog in (self.prog, self.prelude):
            if prog is None:
                continue
            src = prog.src
            cands = [p for p in src.structs if p == ty[1]] or \
                [p for p in src.structs if mir.last(p) == ty[1] or ('::' not in p and p == mir.last(ty[1])
                                                                   and prog is self.prelude)]
            if len(cands) == 1:
                p = cands[0]
                gp = src.generics.get(p, [])
                env = dict(zip(gp, ty[2]))
                mod = p.rsplit('::', 1)[0] if '::' in p else ''
                out = []
                for n, t in src.structs[p]:
                    out.append((n, mir.subst(self.qual(src, mir.parse_type(t), mod), env)))
                return (mir.last(p), out)
        return None

    def qual(self, src, t, mod):
        from .src import qualify
        return qualify(src, t, mod)

    def variants(self, ty):
        """[(name, [field types])] of an enum type, or None"""
        nm = tyname(ty)
        a = ty[2] if ty[0] == 'adt' else ()
        if nm == 'Option':
            return [('None', []), ('Some', [a[0]])]
        if nm == 'Result':
            return [('Ok', [a[0]]), ('Err', [a[1] if len(a) > 1 else ('raw', '?')])]
        if nm == 'ControlFlow':
            return [('Continue', [a[1] if len(a) > 1 else ('tuple', ())]), ('Break', [a[0]])]
        if nm == 'Ordering':
            return [('Less', []), ('Equal', []), ('Greater', [])]
        if nm == 'Bound':
            return [('Included', [a[0]]), ('Excluded', [a[0]]), ('Unbounded', [])]
        if ty[0] != 'adt':
            return None
        for prog in (self.prog, self.prelude):
            if prog is None:
                continue
            src = prog.src
            cands = [p for p in src.enums if p == ty[1]] or [p for p in src.enums if mir.last(p) == mir.last(ty[1])]
            if len(cands) == 1:
                p = cands[0]
                env = dict(zip(src.generics.get(p, []), a))
                mod = p.rsplit('::', 1)[0] if '::' in p else ''
                return [(v, [mir.subst(self.qual(src, mir.parse_type(t), mod), env) for _, t in fl])
                        for v, fl in src.enums[p]]
        return None

    def vindex(self, head, name, ty=None):
        if head in STD_VARIANTS:
            return STD_VARIANTS[head].index(name)
        for prog in (self.prog, self.prelude):
            if prog is None:
                continue
            for p, vs in prog.src.enums.items():
                if mir.last(p) == head:
                    for i, (v, _) in enumerate(vs):
                        if v == name:
                            return i
        raise Unsupported('variant %s::%s' % (head, name))

    def resolve(self, st, v):
        """expose a refined enum symbol as an aggregate"""
        if v[0] == 'S':
            r = st.refine.get(v[1])
            if r is not None:
                vs = self.variants(v[2])
                return ('A', tyname(v[2]), r, tuple(self.mk(('v', v[1], r, i), t) for i, t in enumerate(vs[r][1])))
        return v

    def force(self, st, v):
        """aggregate with a definite variant (forks when opaque)"""
        v = self.resolve(st, v)
        if v[0] == 'S':
            vs = self.variants(v[2])
            if vs is None:
                raise Unsupported('enum of type ' + mir.show(v[2]))
            raise NeedFork([('var', v[1], i) for i in range(len(vs))])
        return v

    # ------------------------------------------------------------ memory
    def load_obj(self, st, obj):
        v = st.mem.get(obj)
        if v is None:
            if obj[0] == 'o':
                v = st.mem[obj] = self.objinit(obj)
            else:
                raise Bad('dangling', 'access to dead object %s' % (show(obj),))
        if v[0] == 'DEAD':
            raise Bad('dangling', 'access to freed memory %s' % (show(obj),))
        return v

    def proj(self, st, v, p, obj=None):
        k = v[0]
        if isinstance(p, int) or isinstance(p, str):
            if k == 'A':
                if isinstance(p, str):
                    nm = self.fieldnames(v[1])
                    return v[3][nm.index(p)]
                if p >= len(v[3]):
                    raise Unsupported('field %d of %s' % (p, show(v)))
                return v[3][p]
            if k in ('P', 'F'):
                return v            # Box / Unique / NonNull wrappers are transparent
            if k == 'X':
                raise Bad('uninit', 'field of an uninitialised value')
            if k == 'S':
                r = self.resolve(st, v)
                if r[0] == 'A':
                    return self.proj(st, r, p)
                sv = self.structval(v)
                if sv is not None:
                    return self.proj(st, sv, p)
                raise Unsupported('field %s of %s : %s' % (p, show(v), mir.show(v[2])))
            if k == 'I' or k == 'B' or k == 'AR':
                return v            # transparent newtypes around scalars
            raise Unsupported('field %s of %s' % (p, show(v)))
        if p[0] == 'v':
            v = self.force(st, v)
            if v[0] != 'A' or v[2] != p[1]:
                raise Bad('variant', 'payload of variant %s read from %s' % (p[1], show(v)))
            return v[3][p[2]]
        if p[0] == 'i':
            if k == 'AR':
                s = self.seg(st, v, p[1])
                return at(s[2], p[1])
            if k == 'X':
                return X
            if self.eq(st, p[1], 0):
                return v            # single object viewed as array of one
            raise Bad('oob', 'index %r outside a single object' % (p[1],))
        raise Unsupported('proj ' + repr(p))

    def structval(self, v):
        sd = self.structdef(v[2]) if v[2][0] == 'adt' else None
        if sd is not None:
            return ('A', sd[0], 0, tuple(self.mk(('f', v[1], i), t) for i, (n, t) in enumerate(sd[1])))
        if v[2][0] == 'tuple':
            return self.mk(v[1], v[2])
        return None

    def fieldnames(self, head):
        raise Unsupported('named field of ' + head)

    def seg(self, st, ar, i):
        """segment of ar that holds index i"""
        segs = ar[1]
        if not segs:
            raise Bad('oob', 'index %r in an empty array' % (i,))
        if not self.le(st, segs[0][0], i):
            self.need_le(st, segs[0][0], i)
            raise Bad('oob', 'index %r below the array' % (i,))
        for lo, hi, t in segs:
            if self.lt(st, i, hi):
                return (lo, hi, t)
            if self.le(st, hi, i):
                continue
            raise NeedSplit(('ge', hi - i - 1))
        raise Bad('oob', 'index %r past the end %r of the array' % (i, segs[-1][1]))

    def load(self, st, obj, path):
        v = self.load_obj(st, obj)
        for p in path:
            v = self.proj(st, v, p, obj)
        return v

    def store(self, st, obj, path, val):
        if not path:
            if obj[0] == 'o' and obj not in st.mem:
                self.load_obj(st, obj)
            if st.mem.get(obj, X)[0] == 'DEAD':
                raise Bad('dangling', 'write to freed memory')
            st.mem[obj] = val
            return
        v = st.mem.get(obj)
        if v is None and obj[0] == 'o':
            v = self.load_obj(st, obj)
        if v is None:
            if obj[0] != 'l':
                raise Bad('dangling', 'write to dead object %s' % show(obj))
            v = X
        if v[0] == 'DEAD':
            raise Bad('dangling', 'write to freed memory')
        st.mem[obj] = self.upd(st, v, path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        k = v[0]
        if isinstance(p, (int, str)):
            if k == 'S':
                r = self.resolve(st, v)
                if r[0] == 'S':
                    r = self.structval(v)
                    if r is None:
                        raise Unsupported('write to a field of ' + show(v))
                return self.upd(st, r, path, val)
            if k == 'A':
                i = self.fieldnames(v[1]).index(p) if isinstance(p, str) else p
                fs = list(v[3])
                while len(fs) <= i:
                    fs.append(X)
                fs[i] = self.upd(st, fs[i], path[1:], val)
                return ('A', v[1], v[2], tuple(fs))
            if k == 'X':
                return ('A', '?', 0, (X,) * p + (self.upd(st, X, path[1:], val),))
            if k in ('P', 'F', 'I', 'B', 'AR'):
                return self.upd(st, v, path[1:], val)
            raise Unsupported('write field of ' + show(v))
        if p[0] == 'v':
            if k == 'X':
                return ('A', '?', p[1], (X,) * p[2] + (self.upd(st, X, path[1:], val),))
            v = self.force(st, v)
            if v[0] != 'A' or v[2] != p[1]:
                raise Bad('variant', 'payload write to the wrong variant')
            fs = list(v[3])
            fs[p[2]] = self.upd(st, fs[p[2]], path[1:], val)
            return ('A', v[1], v[2], tuple(fs))
        if p[0] == 'i':
            if k == 'AR':
                lo, hi, t = self.seg(st, v, p[1])
                old = at(t, p[1])
                new = self.upd(st, old, path[1:], val)
                return self.ar_put(st, v, p[1], p[1] + 1, ((p[1], p[1] + 1, new),))
            if self.eq(st, p[1], 0):
                return self.upd(st, v, path[1:], val)
            raise Bad('oob', 'write at index %r of a single object' % (p[1],))
        raise Unsupported('upd')

    # ---- segmented arrays
    def ar_cut(self, st, ar, x):
        """split segments so that x is a boundary"""
        out = []
        segs = ar[1]
        done = False
        for lo, hi, t in segs:
            if done:
                out.append((lo, hi, t))
                continue
            if self.le(st, x, lo):
                out.append((lo, hi, t))
                done = True
            elif self.le(st, hi, x):
                out.append((lo, hi, t))
            elif self.lt(st, lo, x) and self.lt(st, x, hi):
                out.append((lo, x, t))
                out.append((x, hi, t))
                done = True
            else:
                # undetermined
                if not self.lt(st, lo, x):
                    self.need_le(st, lo + 1, x)
                self.need_le(st, hi, x)
                raise Unsupported('cut')
        return ('AR', tuple(out))

    def ar_bounds(self, st, ar, lo, hi):
        segs = ar[1]
        if not segs:
            if self.need_le(st, hi, lo):
                return False
            raise Bad('oob', 'range %r..%r of an empty array' % (lo, hi))
        if not self.need_le(st, lo, hi):
            raise Bad('oob', 'range %r..%r is inverted' % (lo, hi))
        if not self.need_le(st, segs[0][0], lo):
            raise Bad('oob', 'range start %r below the array' % (lo,))
        if not self.need_le(st, hi, segs[-1][1]):
            raise Bad('oob', 'range end %r past the array end %r' % (hi, segs[-1][1]))
        return True

    def ar_get(self, st, ar, lo, hi):
        """segments of [lo,hi) rebased to 0"""
        if not self.ar_bounds(st, ar, lo, hi):
            return ()
        ar = self.ar_cut(st, self.ar_cut(st, ar, lo), hi)
        out = []
        for a, b, t in ar[1]:
            if self.le(st, lo, a) and self.le(st, b, hi) :
                out.append(shift((a, b, t), -lo))
        return self.ar_norm(st, tuple(out))

    def ar_put(self, st, ar, lo, hi, new):
        """replace [lo,hi) by segments `new` (already at their final position)"""
        if not self.ar_bounds(st, ar, lo, hi):
            return ar
        ar = self.ar_cut(st, self.ar_cut(st, ar, lo), hi)
        out = []
        ins = False
        for a, b, t in ar[1]:
            if self.le(st, b, lo):
                out.append((a, b, t))
            elif self.le(st, hi, a):
                if not ins:
                    out.extend(new)
                    ins = True
                out.append((a, b, t))
            else:
                if not ins:
                    out.extend(new)
                    ins = True
        if not ins:
            out.extend(new)
        return ('AR', self.ar_norm(st, tuple(out)))

    def ar_norm(self, st, segs):
        out = []
        for lo, hi, t in segs:
            if self.le(st, hi, lo):
                continue
            if out:
                m = self.ar_merge(st, out[-1], (lo, hi, t))
                if m is not None:
                    out[-1] = m
                    continue
            out.append((lo, hi, t))
        return tuple(out)

    def ar_merge(self, st, a, b):
        (alo, ahi, at_), (blo, bhi, bt) = a, b
        if at_ == bt:
            return (alo, bhi, at_)
        ai, bi = contains_idx(at_), contains_idx(bt)
        if ai and bi:
            if self.same(st, at_, bt):
                return (alo, bhi, at_)
            return None
        if ai and self.eq(st, bhi, blo + 1):
            if self.same(st, at(at_, blo), bt):
                return (alo, bhi, at_)
            return None
        if bi and self.eq(st, ahi, alo + 1):
            if self.same(st, at_, at(bt, alo)):
                return (alo, bhi, bt)
            return None
        if not ai and not bi and self.eq(st, ahi, alo + 1) and self.eq(st, bhi, blo + 1):
            t = self.antiunify(at_, bt, alo)
            if t is not None and t is not at_:
                return (alo, bhi, t)
        return None

    def antiunify(self, x, y, lo):
        """template t with t[lo]==x and t[lo+1]==y, leaves affine in IDX with slope 1"""
        if x is y or x == y:
            return x
        if isinstance(x, Lin) and isinstance(y, Lin):
            d = y - x
            if d.const() == 1:
                return x + VIDX - lo
            if len(x.m) == len(y.m) and len(x.m) == 1 and x.m[0][1] == y.m[0][1] and x.c == y.c:
                a, b = x.m[0][0], y.m[0][0]
                if isinstance(a, tuple) and isinstance(b, tuple):
                    t = self.antiunify(a, b, lo)
                    if t is not None:
                        return Lin(x.c, ((t, x.m[0][1]),))
            return None
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            if x and x[0] == 'X' or y and y[0] == 'X':
                return None
            out = []
            for p, q in zip(x, y):
                t = self.antiunify(p, q, lo)
                if t is None and not (p is None and q is None):
                    return None
                out.append(t)
            return tuple(out)
        return None

    def same(self, st, a, b, depth=0):
        """values provably equal in st"""
        if a is b or a == b:
            return True
        if isinstance(a, Lin) and isinstance(b, Lin):
            if self.eq(st, a, b):
                return True
            if len(a.m) == 1 and len(b.m) == 1 and a.c == b.c and a.m[0][1] == b.m[0][1]:
                x, y = a.m[0][0], b.m[0][0]
                return isinstance(x, tuple) and isinstance(y, tuple) and self.same(st, x, y)
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) and len(b):
                if a[0] == 'S' and b[0] != 'S' or b[0] == 'S' and a[0] != 'S':
                    a2, b2 = (self.resolve(st, a), self.resolve(st, b)) if depth == 0 else (a, b)
                    if a2 is a and b2 is b:
                        return False
                    return self.same(st, a2, b2, 1)
            if len(a) != len(b):
                return False
            if len(a) >= 3 and a[0] == 'S' and b[0] == 'S':
                return self.same(st, a[1], b[1])
            if a and a[0] == 'AR' and b[0] == 'AR':
                return self.same_segs(st, a[1], b[1])
            return all(self.same(st, x, y) for x, y in zip(a, b))
        return False

    def same_segs(self, st, a, b):
        """two segment lists describe the same sequence"""
        a = self.ar_norm(st, a)
        b = self.ar_norm(st, b)
        i = j = 0
        if not a or not b:
            return not a and not b
        if not self.eq(st, a[0][0], b[0][0]) or not self.eq(st, a[-1][1], b[-1][1]):
            return False
        A, B = list(a), list(b)
        while A and B:
            (alo, ahi, ta), (blo, bhi, tb) = A[0], B[0]
            one = self.eq(st, ahi, alo + 1) or self.eq(st, bhi, blo + 1)
            if not (self.same(st, ta, tb) or (one and self.same(st, at(ta, alo), at(tb, alo)))):
                return False
            if self.eq(st, ahi, bhi):
                A.pop(0); B.pop(0)
            elif self.le(st, ahi, bhi):
                A.pop(0)
                B[0] = (ahi, bhi, tb)
            elif self.le(st, bhi, ahi):
                B.pop(0)
                A[0] = (bhi, ahi, ta)
            else:
                raise NeedSplit(('ge', bhi - ahi))
        return not A and not B

    def alloc(self, st, val, tag='h'):
        o = (tag, self.next_id())
        st.mem[o] = val
        return o

    # ------------------------------------------------------------ types of places
    def lty(self, fr, local):
        return mir.subst(fr.f.locals[local], fr.env)

    def place_ty(self, fr, place):
        local, projs = place
        t = self.lty(fr, local)
        for p in projs:
            if p[0] == 'deref':
                if t[0] in ('ref', 'ptr'):
                    t = t[2]
                elif t[0] == 'adt' and mir.last(t[1]) == 'Box' and t[2]:
                    t = t[2][0]
                else:
                    t = ('raw', '?')
            elif p[0] == 'field':
                t = mir.subst(p[2], fr.env)
            elif p[0] in ('idx', 'cidx'):
                t = t[1] if t[0] in ('slice', 'array') else ('raw', '?')
        return t

    def op_ty(self, fr, op):
        if op[0] in ('copy', 'move'):
            return self.place_ty(fr, op[1])
        return self.const_ty(fr, op[1])

    def const_ty(self, fr, txt):
        m = re.match(r'-?\d+_(\w+)$', txt)
        if m:
            return ('adt', m.group(1), ())
        if txt in ('true', 'false'):
            return ('adt', 'bool', ())
        if txt == '()':
            return ('tuple', ())
        if txt.startswith('"'):
            return ('ref', False, ('adt', 'str', ()))
        m = re.match(r'\{alloc\d+: (.*)\}$', txt)
        if m:
            return mir.subst(mir.parse_type(m.group(1)), fr.env)
        m = re.match(r'(.*)::promoted\[(\d+)\]$', txt)
        c = self.prog.consts.get(txt) or (self.prelude and self.prelude.consts.get(txt))
        if c is not None:
            return mir.subst(c.ret, fr.env)
        return mir.subst(mir.parse_type(txt), fr.env)

    # ------------------------------------------------------------ places
    def addr(self, fr, st, place):
        """(obj, path) of a place; a slice place yields ('slice', ptr, len)"""
        local, projs = place
        obj, path = ('l', fr.d, local), ()
        fat = None
        n = len(projs)
        i = 0
        ty = None
        while i < n:
            p = projs[i]
            if p[0] == 'deref':
                v = self.load(st, obj, path) if fat is None else None
                if v is None:
                    raise Unsupported('deref of slice place')
                if v[0] == 'P':
                    obj, path, fat = v[1], v[2], None
                elif v[0] == 'F':
                    fat = v
                elif v[0] == 'S':
                    r = self.asref(st, v)
                    if r[0] == 'F':
                        fat = r
                    else:
                        obj, path = r[1], r[2]
                elif v[0] == 'X':
                    raise Bad('uninit', 'dereference of an uninitialised pointer')
                elif v[0] == 'Fn' or v[0] == 'A':
                    # reference to a value held inline (string literal, promoted constant)
                    o = self.alloc(st, v)
                    obj, path = o, ()
                else:
                    raise Unsupported('deref of ' + show(v))
            elif p[0] == 'field':
                if i and projs[i - 1][0] == 'as':
                    vn = projs[i - 1][1]
                    v = self.load(st, obj, path)
                    if v[0] == 'X' or v[0] == 'A' and v[1] == '?':
                        ety = self.place_ty(fr, (local, projs[:i - 1]))
                        vi = self.vindex(tyname(ety), vn)
                    else:
                        v = self.force(st, v)
                        vi = self.vindex(v[1], vn)
                    path = path + (('v', vi, p[1]),)
                else:
                    path = self.field_path(fr, st, obj, path, p, place, i)
                    if path and path[0] == '@':
                        obj, path = path[1], path[2]
            elif p[0] == 'as':
                pass
            elif p[0] == 'idx':
                ix = self.load(st, ('l', fr.d, p[1]), ())
                if ix[0] != 'I':
                    raise Unsupported('index ' + show(ix))
                if fat is not None:
                    if not self.need_le(st, ix[1] + 1, fat[2]):
                        raise Bad('oob', 'slice index %r of length %r' % (ix[1], fat[2]))
                    obj, path = fat[1][1], self.padd(fat[1], ix[1])[2]
                    fat = None
                else:
                    path = path + (('i', ix[1]),)
            elif p[0] == 'cidx':
                if p[1] < 0:
                    raise Unsupported('from-end index')
                if fat is not None:
                    obj, path = fat[1][1], self.padd(fat[1], L(p[1]))[2]
                    fat = None
                else:
                    path = path + (('i', L(p[1])),)
            else:
                raise Unsupported('projection %r' % (p,))
            i += 1
        if fat is not None:
            return fat
        return ('P', obj, path)

    def field_path(self, fr, st, obj, path, p, place, i):
        return path + (p[1],)

    def nonnull_obj(self, o):
        return False

    def asref(self, st, v):
        """an opaque symbol of reference type as a pointer"""
        t = v[2]
        if t[0] in ('ref', 'ptr'):
            return self.mkref(v[1], t[2])
        if t[0] == 'adt' and t[2] and mir.last(t[1]) in ('Box', 'NonNull', 'Unique'):
            return self.mkref(v[1], t[2][0])
        raise Unsupported('deref of ' + show(v) + ' : ' + mir.show(t))

    def padd(self, p, n):
        """pointer + n elements"""
        path = p[2]
        if path and isinstance(path[-1], tuple) and path[-1][0] == 'i':
            return ('P', p[1], path[:-1] + (('i', path[-1][1] + n),))
        n = L(n)
        if n.const() == 0:
            return p
        return ('P', p[1], path + (('i', n),))

    def deref_val(self, st, p):
        if p[0] == 'P':
            return self.load(st, p[1], p[2])
        if p[0] == 'S':
            return self.deref_val(st, self.asref(st, p))
        raise Unsupported('deref_val ' + show(p))

    def put(self, st, p, v):
        if p[0] == 'S':
            p = self.asref(st, p)
        if p[0] != 'P':
            raise Unsupported('store through ' + show(p))
        self.store(st, p[1], p[2], v)

    def operand(self, fr, st, op):
        if op[0] == 'const':
            return self.const(fr, st, op[1])
        a = self.addr(fr, st, op[1])
        if a[0] == 'F':
            raise Unsupported('unsized operand')
        v = self.load(st, a[1], a[2])
        if op[0] == 'move' and not self.is_copy(v):
            self.store(st, a[1], a[2], X)
        return v

    def is_copy(self, v):
        return v[0] in ('I', 'B', 'Fn')

    # ------------------------------------------------------------ constants
    def const(self, fr, st, txt):
        m = re.match(r'(-?\d+)_(\w+)$', txt)
        if m:
            return I(int(m.group(1)))
        if txt == 'true':
            return TRUE
        if txt == 'false':
            return FALSE
        if txt == '()':
            return UNIT
        m = re.match(r'b?"S(\d+)"$', txt)
        if m:
            return ('A', 'str', 0, (('S', ('lit', fr.f.strs[int(m.group(1))]), ('adt', 'str', ())),))
        m = re.match(r"'(.*)'$", txt)
        if m:
            return I(ord(m.group(1)[-1]) if len(m.group(1)) == 1 else 0)
        m = re.match(r'\{alloc\d+: &?(.*)\}$', txt)
        if m:
            return self.static_ref(fr, txt)
        if re.match(r'(core|std)::num::<impl (\w+)>::(MAX|MIN)$', txt) or re.match(r'(\w+)::(MAX|MIN)$', txt) or \
                re.match(r'(core|std)::(\w+)::(MAX|MIN)$', txt):
            t = re.search(r'(\w+)>?::(MAX|MIN)$', txt)
            if t.group(1) in INTS:
                return I(INTS[t.group(1)][t.group(2) == 'MAX'])
        v = self.const_item(fr, st, txt)
        if v is not None:
            return v
        # enum constants / unit structs
        t = mir.parse_type(txt)
        if t[0] == 'adt':
            segs = t[1].split('::')
            if len(segs) >= 2:
                h = segs[-2]
                try:
                    return ('A', h, self.vindex(h, segs[-1]), ())
                except Unsupported:
                    pass
            for prog in (self.prog, self.prelude):
                if prog:
                    for p in prog.src.structs:
                        if p == t[1] or mir.last(p) == t[1]:
                            if not prog.src.structs[p]:
                                return ('A', mir.last(p), 0, ())
            if segs[-1] in ('PhantomData', 'RangeFull', 'Global', 'RandomState', 'Error'):
                return ('A', segs[-1], 0, ())
        m = re.match(r'core::mem::(size_of|align_of)::<(.*)>$', txt)
        # function item used as a value
        return ('Fn', txt, tuple(sorted(fr.env.items(), key=repr)))

    def static_ref(self, fr, txt):
        m = re.match(r'\{(alloc\d+): (.*)\}$', txt)
        return ('P', ('static', m.group(2)), ())

    def const_item(self, fr, st, txt):
        key = re.sub(r'<impl at [^>]*>', '<impl>', txt)
        for prog in (self.prog, self.prelude):
            if prog is None:
                continue
            c = prog.consts.get(txt) or prog.consts.get(key)
            if c is None:
                m = re.match(r'(.*)::promoted\[(\d+)\]$', txt)
                if m:
                    b = self.strip_generics(m.group(1))
                    for k, f in prog.consts.items():
                        if k.endswith('promoted[%s]' % m.group(2)) and self.strip_generics(k.rsplit('::', 1)[0]) == b:
                            c = f
                            break
                    else:
                        # promoteds of impl methods
                        nm = fr.f.name + '::promoted[%s]' % m.group(2)
                        c = prog.consts.get(nm)
            if c is not None:
                g = Frame()
                g.f, g.env, g.d, g.parent, g.span, g.callee = mir.parse_body(c), fr.env, fr.d + 1, fr, '', txt
                rets = [o for o in self.explore(g, [('bb0', st.copy())]) if o[0] == 'ret']
                if len(rets) != 1:
                    raise Unsupported('constant ' + txt)
                end = rets[0][1]
                v = end.mem.get(('l', g.d, '_0'), UNIT)
                # memory referenced by the constant: its locals live on as static objects

                def keep(v):
                    if v[0] == 'P' and v[1][0] == 'l' and v[1][1] >= g.d and v[1] in end.mem:
                        o = ('static', 'const', txt, v[1][2])
                        if o not in st.mem:
                            st.mem[o] = UNIT
                            st.mem[o] = keep(end.mem[v[1]])
                        return ('P', o, v[2])
                    if v[0] == 'A':
                        return v[:3] + (tuple(keep(x) for x in v[3]),)
                    return v
                v = keep(v)
                for o, x in end.mem.items():
                    if o not in st.mem and not (o[0] == 'l' and o[1] >= g.d):
                        st.mem[o] = x
                return v
        return None

    @staticmethod
    def strip_generics(t):
        out = ''
        i = 0
        while i < len(t):
            if t.startswith('::<', i) and not t.startswith('::<impl', i):
                i = mir.find_close(t, i + 2) + 1
                continue
            out += t[i]
            i += 1
        return out

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, rv, dest):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, st, rv[1])
        if k == 'ref':
            a = self.addr(fr, st, rv[2])
            if a[0] == 'P' and len(rv[2][1]) and rv[2][1][-1][0] == 'deref':
                return a
            return a
        if k == 'bin':
            return self.binop(fr, st, rv[1], self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3]),
                              self.op_ty(fr, rv[2]))
        if k == 'un':
            v = self.operand(fr, st, rv[2])
            if rv[1] == 'Not':
                if v[0] == 'B':
                    return ('B', pnot(v[1]))
                if v[0] == 'I':
                    ot = self.op_ty(fr, rv[2])
                    lo, hi = INTS.get(ot[1], (0, MAXU)) if ot[0] == 'adt' else (0, MAXU)
                    return ('I', L(hi) - v[1] if lo == 0 else L(-1) - v[1])
                raise Unsupported('Not of ' + show(v))
            if rv[1] == 'PtrMetadata':
                if v[0] == 'F':
                    return ('I', v[2])
                return UNIT
            if rv[1] == 'Neg' and v[0] == 'I':
                return ('I', -v[1])
            raise Unsupported('unop ' + rv[1])
        if k == 'disc':
            a = self.addr(fr, st, rv[1])
            v = self.load(st, a[1], a[2])
            if v[0] == 'X':
                raise Bad('uninit', 'discriminant of an uninitialised value')
            v = self.force(st, v)
            if v[0] == 'A':
                if v[1] == 'Ordering':
                    return I((v[2] - 1) % 256)
                return I(v[2])
            raise Unsupported('discriminant of ' + show(v))
        if k == 'len':
            a = self.addr(fr, st, rv[1])
            if a[0] == 'F':
                return ('I', a[2])
            v = self.load(st, a[1], a[2])
            if v[0] == 'AR':
                return ('I', v[1][-1][1] if v[1] else L(0))
            raise Unsupported('len of ' + show(v))
        if k == 'cast':
            return self.cast(fr, st, self.operand(fr, st, rv[1]), self.op_ty(fr, rv[1]),
                             mir.subst(rv[2], fr.env), rv[3])
        if k == 'agg':
            kind, path, ops, names = rv[1], rv[2], rv[3], rv[4]
            vals = [self.operand(fr, st, o) for o in ops]
            if kind == 'tuple':
                return ('A', 'tuple', 0, tuple(vals))
            if kind == 'array':
                segs = tuple((L(i), L(i + 1), v) for i, v in enumerate(vals))
                return ('AR', self.ar_norm(st, segs))
            if kind == 'closure':
                return ('A', ('closure', path, tuple(sorted(fr.env.items(), key=repr))), 0, tuple(vals))
            return self.agg(fr, st, path, vals, names)
        if k == 'repeat':
            v = self.operand(fr, st, rv[1])
            n = self.array_len(fr, st, rv[2])
            return ('AR', ((L(0), n, v),))
        if k == 'nullary':
            if rv[1] in ('SizeOf', 'AlignOf'):
                return ('I', V((rv[1], mir.show(mir.subst(mir.parse_type(rv[2]), fr.env)))))
            return FALSE
        raise Unsupported('rvalue ' + k)

    def array_len(self, fr, st, txt):
        txt = txt.strip()
        m = re.match(r'(\d+)(_usize)?$', txt)
        if m:
            return L(int(m.group(1)))
        v = self.const(fr, st, txt.replace('const ', ''))
        if v[0] == 'I':
            return v[1]
        raise Unsupported('array length ' + txt)

    def agg(self, fr, st, path, vals, names):
        p = self.strip_generics(path)
        p = re.sub(r'<.*>$', '', p)
        segs = p.split('::')
        if len(segs) >= 2:
            h = segs[-2]
            for prog in (self.prog, self.prelude):
                if prog:
                    for q in prog.src.enums:
                        if mir.last(q) == h and any(v == segs[-1] for v, _ in prog.src.enums[q]):
                            return ('A', h, self.vindex(h, segs[-1]), tuple(vals))
            if h in STD_VARIANTS and segs[-1] in STD_VARIANTS[h]:
                return ('A', h, self.vindex(h, segs[-1]), tuple(vals))
        nm = segs[-1]
        if nm in TRANSPARENT and len(vals) == 1:
            return vals[0]
        if names and self.order_fields(p):
            order = self.order_fields(p)
            d = dict(zip(names, vals))
            if set(d) == set(order):
                return ('A', nm, 0, tuple(d[n] for n in order))
            if nm == 'MaybeUninit':
                return vals[0]
        return ('A', nm, 0, tuple(vals))

    def order_fields(self, p):
        for prog in (self.prog, self.prelude):
            if prog:
                s = prog.src.structs.get(p)
                if s is None:
                    c = [q for q in prog.src.structs if mir.last(q) == mir.last(p)]
                    s = prog.src.structs[c[0]] if len(c) == 1 else None
                if s is not None:
                    return [n for n, _ in s]
        return None

    def cast(self, fr, st, v, fty, tty, kind):
        if kind.startswith('IntToInt'):
            if v[0] == 'I':
                lo, hi = INTS.get(tty[1], (0, MAXU)) if tty[0] == 'adt' else (0, MAXU)
                if self.ge(st, v[1] - lo) and self.ge(st, L(hi) - v[1]):
                    return v
                if hi == MAXU and self.ge(st, -v[1] - 1):
                    return ('I', v[1] + (MAXU + 1))
                if tty[0] == 'adt' and tty[1] == 'isize':
                    return v        # pointer offsets: size arithmetic
                return ('I', self.fresh('trunc', lo, hi))
            if v[0] == 'B':
                t = self.truth(st, v[1])
                if t is None:
                    raise NeedSplit(v[1])
                return I(int(t))
            if v[0] == 'A':          # enum to int
                return I(v[2])
            return v
        if kind.startswith('PointerCoercion'):
            if 'Unsize' in kind and v[0] == 'P':
                t = fty
                while t[0] in ('ref', 'ptr') or (t[0] == 'adt' and mir.last(t[1]) == 'Box'):
                    t = t[2] if t[0] in ('ref', 'ptr') else t[2][0]
                if t[0] == 'array':
                    tv = self.load(st, v[1], v[2])
                    n = tv[1][-1][1] if tv[0] == 'AR' and tv[1] else None
                    if n is None:
                        try:
                            n = self.array_len(fr, st, t[2])
                        except Exception:
                            n = L(0)
                    return ('F', ('P', v[1], v[2] + (('i', L(0)),)), n)
                return v
            return v
        if kind.startswith('PtrToPtr') or kind.startswith('Transmute'):
            return self.ptr_cast(fr, st, v, fty, tty)
        if kind.startswith('PointerExpose') and v[0] == 'P' and self.addresses:
            return ('I', V(('addr', v[1], v[2])))
        raise Unsupported('cast ' + kind)

    def ptr_cast(self, fr, st, v, fty, tty):
        if v[0] == 'F' and tty[0] == 'ptr' and tty[2][0] != 'slice':
            return v[1]
        return v

    def binop(self, fr, st, op, a, b, ty):
        if a[0] == 'A' and a[1] == 'str' or b[0] == 'A' and b[1] == 'str':
            return ('B', ('sym', (op, a, b)))
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if a[0] == 'I' and b[0] == 'I':
                d = a[1] - b[1]
                p = {'Eq': peq(d), 'Ne': pnot(peq(d)), 'Lt': pge(-d - 1), 'Le': pge(-d), 'Gt': pge(d - 1),
                     'Ge': pge(d)}[op]
                return ('B', p)
            if a[0] == 'B' and b[0] == 'B' and op in ('Eq', 'Ne'):
                ta, tb = self.truth(st, a[1]), self.truth(st, b[1])
                if ta is None:
                    raise NeedSplit(a[1])
                p = b[1] if ta else pnot(b[1])
                return ('B', p if op == 'Eq' else pnot(p))
            if a[0] == 'P' and b[0] == 'P' and op in ('Eq', 'Ne'):
                p = self.ptr_eq(st, a, b)
                return ('B', p if op == 'Eq' else pnot(p))
            if a[0] == 'A' and b[0] == 'A' and op in ('Eq', 'Ne') and not a[3] and not b[3]:
                return ('B', (a[2] == b[2]) == (op == 'Eq'))
            return ('B', ('sym', (op, a, b)))
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked') and a[0] == 'I' and b[0] == 'I':
            lo, hi = INTS.get(ty[1], (0, MAXU)) if ty[0] == 'adt' else (0, MAXU)
            if op.startswith('Mul'):
                ca, cb = a[1].const(), b[1].const()
                if ca is None and cb is None:
                    return ('I', self.fresh('mul', lo, hi))
                r = a[1].scale(cb) if cb is not None else b[1].scale(ca)
            else:
                r = a[1] + b[1] if op.startswith('Add') else a[1] - b[1]
            return self.wrap(st, r, lo, hi, fr if not op.endswith('Unchecked') else None)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow') and a[0] == 'I' and b[0] == 'I':
            lo, hi = INTS.get(ty[1], (0, MAXU)) if ty[0] == 'adt' else (0, MAXU)
            if op.startswith('Mul'):
                ca, cb = a[1].const(), b[1].const()
                if ca is None and cb is None:
                    p = ('sym', ('muloverflow', a, b))
                    t = self.truth(st, p)
                    if t is None:
                        raise NeedSplit(p)
                    return tup(('I', self.fresh('mul', lo, hi)), TRUE if t else FALSE)
                r = a[1].scale(cb) if cb is not None else b[1].scale(ca)
            else:
                r = a[1] + b[1] if op.startswith('Add') else a[1] - b[1]
            if self.ge(st, r - lo) and self.ge(st, L(hi) - r):
                return tup(('I', r), FALSE)
            if not self.ge(st, r - lo):
                self.need_le(st, lo, r)
            self.need_le(st, r, hi)
            return tup(('I', self.fresh('wrap', lo, hi)), TRUE)
        if op in ('Div', 'Rem', 'Shr', 'BitAnd') and a[0] == 'I' and b[0] == 'I':
            ca, cb = a[1].const(), b[1].const()
            if ca is not None and cb is not None and not (op in ('Div', 'Rem') and cb == 0):
                return I({'Div': lambda: ca // cb, 'Rem': lambda: ca % cb, 'Shr': lambda: ca >> cb,
                          'BitAnd': lambda: ca & cb}[op]())
            if op == 'Shr' and cb is not None:
                op, cb = 'Div', 2 ** cb
            if op in ('Div', 'Rem') and cb:
                q = self.fresh('quot')
                d = a[1] - q.scale(cb)
                f = st.facts.add_ge(d, self.nn)
                f = f and f.add_ge(Lin(cb - 1) - d, self.nn)
                if f is None:
                    raise Unsupported('div')
                st.facts = f
                return ('I', q if op == 'Div' else d)
            return ('I', self.fresh(op))
        if op in ('BitAnd', 'BitOr', 'BitXor') and a[0] == 'B' and b[0] == 'B':
            ta = self.truth(st, a[1])
            if ta is None:
                raise NeedSplit(a[1])
            if op == 'BitAnd':
                return b if ta else FALSE
            if op == 'BitOr':
                return TRUE if ta else b
            return ('B', pnot(b[1])) if ta else b
        if op == 'Offset' and a[0] == 'P' and b[0] == 'I':
            return self.padd(a, b[1])
        if op in ('Shl', 'BitOr', 'BitXor') and a[0] == 'I' and b[0] == 'I':
            return ('I', self.fresh(op))
        if a[0] == 'S' or b[0] == 'S':
            return self.mk((op, a, b), ty)
        if op == 'Cmp' and a[0] == 'I' and b[0] == 'I':
            d = a[1] - b[1]
            if self.need_le(st, d, 0):
                return ('A', 'Ordering', 1 if self.need_eq(st, d, 0) else 0, ())
            return ('A', 'Ordering', 2, ())
        raise Unsupported('binop %s %s %s' % (op, show(a), show(b)))

    def wrap(self, st, r, lo, hi, fr=None):
        if not self.ge(st, r - lo):
            if not self.need_le(st, lo, r):
                self.overflow(fr, st)
                return ('I', r + (hi - lo + 1))
        if not self.ge(st, L(hi) - r):
            if not self.need_le(st, r, hi):
                self.overflow(fr, st)
                return ('I', r - (hi - lo + 1))
        return ('I', r)

    def overflow(self, fr, st):
        """plain arithmetic wraps here; builds with overflow checks panic instead"""
        if fr is not None and not self.quiet and fr.f in self.prog.fnset:
            from .src import fn_key
            self.overflows.append(fn_key(fr.f))
            self.joined.add((fn_key(fr.f), approximate(st)))

    def ptr_eq(self, st, a, b):
        if a[1] == b[1]:
            if a[2] == b[2]:
                return True
            if len(a[2]) == len(b[2]) and a[2][:-1] == b[2][:-1]:
                x, y = a[2][-1], b[2][-1]
                if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'i' == y[0]:
                    return peq(x[1] - y[1])
            return ('sym', ('ptreq', a, b))
        if a[1][0] == 'null' or b[1][0] == 'null':
            return False
        if a[1][0] in ('h', 'static') and b[1][0] in ('h', 'static'):
            return False
        return ('sym', ('ptreq',) + tuple(sorted((a, b), key=repr)))

    # ------------------------------------------------------------ function bodies
    def cfg(self, f):
        """loop headers -> natural loop body; live-in locals per header"""
        c = self.cfgcache.get(f)
        if c is not None:
            return c
        mir.parse_body(f)
        succ = {}
        for b, sts in f.blocks.items():
            succ[b] = succs(sts[-1])
        # iterative DFS for back edges
        color, back = {}, []
        order = []
        start = 'bb0'
        stack = [(start, iter(succ[start]))]
        color[start] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in color:
                    color[s] = 1
                    stack.append((s, iter(succ.get(s, ()))))
                    break
                if color[s] == 1:
                    back.append((b, s))
            else:
                color[b] = 2
                order.append(b)
                stack.pop()
        pred = {}
        for b, ss in succ.items():
            for s in ss:
                pred.setdefault(s, []).append(b)
        loops = {}
        for b, h in back:
            body = loops.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x not in body:
                    body.add(x)
                    work.extend(pred.get(x, ()))
        live = liveness(f, succ)
        c = (succ, loops, live)
        self.cfgcache[f] = c
        return c

    def call_fn(self, f, env, args, st, parent=None, span='', callee=''):
        fr = Frame()
        fr.f, fr.env, fr.parent, fr.span, fr.callee = mir.parse_body(f), env, parent, span, callee
        fr.d = (parent.d + 1) if parent is not None else 0
        if fr.d > self.max_depth:
            raise Unsupported('call depth')
        p = parent
        n = 0
        while p is not None:
            if p.f is f:
                n += 1
            p = p.parent
        if n >= 2:
            raise Unsupported('recursion of ' + f.name)
        self.stats['fns'].add(f.name)
        st = st.copy()
        for (nm, _), v in zip(f.params, args):
            st.mem[('l', fr.d, nm)] = v
        if len(args) != len(f.params):
            raise Unsupported('arity of %s: %d args' % (f.name, len(args)))
        return self.run_frame(fr, st)

    def run_frame(self, fr, st):
        outs = self.explore(fr, [('bb0', st)])
        res = []
        for o in outs:
            s = o[1]
            v = None
            if o[0] == 'ret':
                v = s.mem.get(('l', fr.d, '_0'), UNIT)
                if v == X and fr.f.ret == ('tuple', ()):
                    v = UNIT
            for k in [k for k in s.mem if k[0] == 'l' and k[1] >= fr.d]:
                del s.mem[k]
            res.append((o[0], s, v))
        return res

    def explore(self, fr, work, body=None, header=None):
        """run from the given (block, state) list; returns ('ret'|'unw', st) and, when body is given,
        ('exit', bb, st) for edges leaving the body and ('back', bb, st) for edges to the header"""
        outs = []
        succ, loops, live = self.cfg(fr.f)
        first = header
        work = list(work)
        started = 0
        n0 = len(work)
        while work:
            bb, st = work.pop()
            is_start = False
            if header is not None and bb == header:
                if started < n0:
                    started += 1
                    is_start = True
                else:
                    outs.append(('back', bb, st))
                    continue
            if body is not None and bb not in body:
                outs.append(('exit', bb, st))
                continue
            if bb in loops and not is_start:
                try:
                    ends = self.loop(fr, bb, st, loops[bb])
                except Budget:
                    raise
                except Unsupported as e:
                    self.gaps.append(str(e))
                    continue
                for o in ends:
                    if o[0] == 'exit':
                        work.append((o[1], o[2]))
                    else:
                        outs.append(o)
                continue
            for r in self.block(fr, bb, st):
                if r[0] == 'goto':
                    work.append((r[1], r[2]))
                else:
                    outs.append(r)
        return outs

    def report(self, kind, fr, msg, callee='', span='', st=None):
        if self.quiet:
            return
        r = Report()
        from .src import fn_key
        r.kind, r.msg, r.callee, r.span = kind, msg, callee, span
        r.approx = st is not None and approximate(st)
        r.fn = fn_key(fr.f) if fr is not None else ''
        r.entry = self.entry
        chain = []
        g = fr
        while g is not None:
            chain.append(fn_key(g.f))
            g = g.parent
        r.chain = chain
        self.reports.append(r)

    def block(self, fr, bb, st):
        stmts = fr.f.blocks[bb]
        self.stats['blocks'].add((fr.f.name, bb))
        stack = [(0, st, self.nid)]
        outs = []
        n = len(stmts)
        hi_id = self.nid
        splits = 0
        while stack:
            i, st, nid = stack.pop()
            hi_id = max(hi_id, self.nid)
            self.nid = nid
            st = st.copy()
            try:
                while i < n:
                    self.steps += 1
                    if self.deadline is None:
                        self.deadline = time.time() + self.time_limit
                    if self.steps > self.max_steps or time.time() > self.deadline:
                        if not self.peel:
                            raise Budget('analysis budget exhausted')
                        # only looking for a path that breaks a rule: judge those found so far
                        if 'analysis budget exhausted' not in self.gaps:
                            self.gaps.append('analysis budget exhausted')
                        return outs
                    s = stmts[i]
                    base = st
                    nid0 = self.nid
                    if i == n - 1:
                        work_st = st.copy()
                        outs.extend(self.terminator(fr, work_st, s))
                        break
                    k = s[0]
                    work_st = st
                    if k == 'assign':
                        # retry safety: evaluate on a copy because moves mutate
                        work_st = st.copy()
                        self.assign(fr, work_st, s[1], s[2])
                    elif k == 'dead':
                        work_st.mem.pop(('l', fr.d, s[1]), None)
                    elif k == 'setdisc':
                        work_st = st.copy()
                        a = self.addr(fr, work_st, s[1])
                        v = self.load(work_st, a[1], a[2])
                        if v[0] == 'A':
                            self.store(work_st, a[1], a[2], ('A', v[1], s[2], v[3]))
                        else:
                            self.store(work_st, a[1], a[2], ('A', '?', s[2], ()))
                    elif k == 'assume':
                        pass
                    else:
                        raise Unsupported('statement ' + repr(s))
                    st = work_st
                    i += 1
            except NeedFork as e:
                hi_id = max(hi_id, self.nid)
                splits += 1
                self.stats['forks'] += 1
                if splits > 400:
                    raise Unsupported('too many forks in one block of ' + fr.f.name)
                for p in e.preds:
                    try:
                        s2 = self.assume(base, p)
                    except NeedFork as e2:
                        s2 = None
                        for q in e2.preds:
                            s3 = self.assume(base, q)
                            if s3 is not None:
                                stack.append((i, s3, nid0))
                    if s2 is base:
                        raise Unsupported('fork without progress: %s in %s' % (show(p), fr.f.name))
                    if s2 is not None:
                        stack.append((i, s2, nid0))
            except Bad as e:
                self.report(e.kind, fr, e.msg, callee=stmt_text(stmts[i]), span=stmts[i][-1], st=st)
            except Budget:
                raise
            except Unsupported as e:
                # this path is given up: the case stays undecided, but the other paths are still checked
                self.gaps.append(str(e))
        self.nid = max(self.nid, hi_id)
        return outs

    def assign(self, fr, st, place, rv):
        v = self.rvalue(fr, st, rv, place)
        if not place[1]:
            st.mem[('l', fr.d, place[0])] = v
            return
        a = self.addr(fr, st, place)
        self.store(st, a[1], a[2], v)

    def goto_unw(self, unw, st):
        if unw == 'continue':
            return ('unw', st)
        if unw in ('terminate', 'unreachable'):
            return None
        return ('goto', unw, st)

    def terminator(self, fr, st, s):
        k = s[0]
        if k == 'goto':
            return [('goto', s[1], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'resume':
            return [('unw', st)]
        if k == 'unreachable':
            return self.on_unreachable(fr, st)
        if k == 'terminate':
            return []
        if k == 'switch':
            return self.switch(fr, st, s)
        if k == 'assert':
            v = self.operand(fr, st, s[1])
            p = v[1] if v[0] == 'B' else ('sym', v)
            if s[2]:
                p = pnot(p)
            outs = []
            t = self.truth(st, p)
            if t is not False:
                s1 = self.assume(st, p)
                if s1 is not None:
                    outs.append(('goto', s[3], s1))
            if t is not True:
                s2 = self.assume(st, pnot(p))
                if s2 is not None:
                    self.on_panic(fr, s2, 'assert')
                    o = self.goto_unw(s[4], s2)
                    if o:
                        outs.append(o)
            return outs
        if k == 'drop':
            a = self.addr(fr, st, s[1])
            ty = self.place_ty(fr, s[1])
            outs = []
            for o in self.drop_place(fr, st, a, ty, s[-1]):
                if o[0] == 'ret':
                    outs.append(('goto', s[2], o[1]))
                else:
                    r = self.goto_unw(s[3], o[1])
                    if r:
                        outs.append(r)
            return outs
        if k == 'call':
            return self.call(fr, st, s)
        raise Unsupported('terminator ' + repr(s))

    def on_unreachable(self, fr, st):
        raise Bad('unreachable', 'reaches code the compiler was told is unreachable')

    def on_panic(self, fr, st, why):
        self.tick(st, 'panic')
        if self.mon is not None:
            self.mon.on_panic(self, fr, st, why)

    def switch(self, fr, st, s):
        v = self.operand(fr, st, s[1])
        outs = []
        if v[0] == 'B':
            t = self.truth(st, v[1])
            tg = dict(s[2])
            f_bb = tg.get('0')
            t_bb = tg.get('1', tg.get('otherwise'))
            if f_bb is None:
                f_bb = tg.get('otherwise')
            if t is None:
                raise NeedSplit(v[1])
            return [('goto', t_bb if t else f_bb, st)]
        if v[0] == 'I':
            c = v[1].const()
            other = None
            rest = []
            for val, bb in s[2]:
                if val == 'otherwise':
                    other = bb
                else:
                    rest.append((int(val), bb))
            if c is not None:
                for val, bb in rest:
                    if val == c or val == c % 2**64:
                        return [('goto', bb, st)]
                return [('goto', other, st)] if other else []
            for val, bb in rest:
                if self.eq(st, v[1], val):
                    return [('goto', bb, st)]
                if not self.ne(st, v[1], val):
                    raise NeedSplit(('eq', v[1] - val))
            return [('goto', other, st)] if other else []
        if v[0] == 'X':
            raise Bad('uninit', 'branch on an uninitialised value')
        raise Unsupported('switch on ' + show(v))

    # ------------------------------------------------------------ drops
    def needs_drop(self, ty):
        k = ty[0]
        if k in ('ref', 'ptr', 'never', 'fndef'):
            return False
        if k == 'adt':
            if ty[1] in INTS or ty[1] in ('bool', 'str', 'f32', 'f64'):
                return False
            nm = mir.last(ty[1])
            if nm in ('NonNull', 'Unique', 'PhantomData', 'ManuallyDrop', 'MaybeUninit', 'Layout', 'Ordering',
                      'Global', 'ErrorKind'):
                return False
            if nm in ('Option', 'Result', 'Range', 'ControlFlow', 'Bound'):
                return any(self.needs_drop(a) for a in ty[2])
        if k == 'tuple':
            return any(self.needs_drop(a) for a in ty[1])
        return True

    def drop_place(self, fr, st, a, ty, span=''):
        """drop the value at address a"""
        if a[0] == 'F':
            # slice drop
            return self.drop_range(fr, st, a[1], a[2], ty)
        v = self.load(st, a[1], a[2])
        if v[0] == 'X':
            raise Bad('double-drop', 'drop of a value that was already moved out or dropped')
        return self.drop_at(fr, st, a, v, ty, span)

    def drop_at(self, fr, st, a, v, ty, span=''):
        """drop v stored at a (afterwards the cell is dead)"""
        impl = self.drop_impl(ty)
        outs = []
        if impl is not None:
            f, env = impl
            for o in self.call_fn(f, env, [a], st, fr, span, 'drop'):
                if o[0] == 'ret':
                    s2 = o[1]
                    v2 = self.load(s2, a[1], a[2])
                    outs.extend(self.drop_fields(fr, s2, a, v2, ty, span))
                else:
                    v2 = self.load(o[1], a[1], a[2])
                    for o2 in self.drop_fields(fr, o[1], a, v2, ty, span):
                        outs.append(('unw', o2[1]))
            return outs
        return self.drop_fields(fr, st, a, v, ty, span)

    def drop_impl(self, ty):
        if ty[0] != 'adt':
            return None
        for f in self.prog.by_trait.get(('Drop', 'drop'), ()):
            env = {}
            if mir.unify(f.impl.self_ty, ty, set(f.impl.params), env):
                return f, env
        return None

    def kill(self, st, a):
        try:
            self.store(st, a[1], a[2], X)
        except Bad:
            pass

    def drop_fields(self, fr, st, a, v, ty, span=''):
        """drop glue of the components of v; returns [('ret'|'unw', st)]"""
        if v[0] == 'X':
            return [('ret', st)]
        nm = tyname(ty)
        if not self.needs_drop(ty) and v[0] != 'A':
            self.kill(st, a)
            return [('ret', st)]
        h = self.drop_special(fr, st, a, v, ty)
        if h is not None:
            return h
        if v[0] == 'S':
            r = self.resolve(st, v)
            if r[0] == 'S':
                vs = self.variants(v[2]) if v[2][0] == 'adt' else None
                return self.drop_opaque(fr, st, a, v, ty)
            v = r
        if v[0] == 'A':
            tys = self.comp_tys(v, ty)
            cur = [('ret', st)]
            for i, fv in enumerate(v[3]):
                if fv == X:
                    continue
                ft = tys[i] if tys and i < len(tys) else self.guess_ty(fv)
                if ft is None or not self.needs_drop(ft):
                    continue
                p = a[2] + ((i,) if v[1] == 'tuple' or not self.is_enum(v, ty) else (('v', v[2], i),))
                nxt = []
                for k, s in cur:
                    s = s.copy()
                    fv2 = self.load(s, a[1], p)
                    if fv2 == X:
                        nxt.append((k, s))
                        continue
                    for o in self.drop_at(fr, s, ('P', a[1], p), fv2, ft, span):
                        nxt.append((o[0] if k == 'ret' else 'unw', o[1]))
                cur = nxt
            for k, s in cur:
                self.kill(s, a)
            return cur
        if v[0] == 'P' and nm == 'Box':
            return self.drop_box(fr, st, a, v, ty)
        if v[0] == 'F' and nm == 'Box':
            outs = []
            for o in self.drop_range(fr, st, v[1], v[2], ty[2][0]):
                self.kill(o[1], a)
                outs.append(o)
            return outs
        if v[0] == 'AR':
            et = ty[1] if ty[0] == 'array' else ('raw', '?')
            n = v[1][-1][1] if v[1] else L(0)
            return self.drop_range(fr, st, ('P', a[1], a[2] + (('i', L(0)),)), n, ('slice', et))
        self.kill(st, a)
        return [('ret', st)]

    def is_enum(self, v, ty):
        return isinstance(v[1], str) and (v[1] in STD_VARIANTS or any(
            mir.last(p) == v[1] for pr in (self.prog, self.prelude) if pr for p in pr.src.enums))

    def comp_tys(self, v, ty):
        if v[1] == 'tuple':
            return list(ty[1]) if ty[0] == 'tuple' else None
        if isinstance(v[1], tuple):
            return None
        if ty[0] == 'adt':
            vs = self.variants(ty)
            if vs is not None and v[2] < len(vs):
                return vs[v[2]][1]
            sd = self.structdef(ty)
            if sd is not None:
                return [t for _, t in sd[1]]
        return None

    def guess_ty(self, v):
        if v[0] == 'S':
            return v[2]
        if v[0] in ('I', 'B', 'P', 'F', 'Fn'):
            return None
        if v[0] == 'A' and v[1] == 'tuple':
            return ('tuple', tuple(self.guess_ty(x) or ('tuple', ()) for x in v[3]))
        if v[0] == 'A' and isinstance(v[1], str):
            return ('adt', v[1], ())
        return None

    def drop_special(self, fr, st, a, v, ty):
        if v[0] == 'A' and v[1] == 'Vec':
            et = ty[2][0] if ty[0] == 'adt' and ty[2] else ('raw', '?')
            outs = []
            for o in self.drop_range(fr, st, v[3][2], v[3][0][1], ('slice', et)):
                s = o[1]
                s.mem[v[3][2][1]] = ('DEAD',)
                self.kill(s, a)
                outs.append(o)
            return outs
        if v[0] == 'A' and v[1] == 'HashMap':
            lg = v[3][3][3][2]
            if lg[1][0] == 'h':
                st.mem[lg[1]] = ('DEAD',)
            self.kill(st, a)
            return self.user_effect(fr, st, 'drop', v)
        return None

    def drop_box(self, fr, st, a, v, ty):
        t = ty[2][0] if ty[2] else ('raw', '?')
        outs = []
        if self.needs_drop(t):
            pv = self.load(st, v[1], v[2])
            r = self.drop_at(fr, st, v, pv, t) if pv != X else [('ret', st)]
        else:
            r = [('ret', st)]
        for o in r:
            if v[1][0] == 'h':
                o[1].mem[v[1]] = ('DEAD',)
            self.kill(o[1], a)
            outs.append(o)
        return outs

    def drop_opaque(self, fr, st, a, v, ty):
        """drop of user data: runs user code, may unwind"""
        self.kill(st, a)
        if ty[0] == 'adt' and not self.user_ty(ty):
            return [('ret', st)]
        self.gone(st, v, L(1))
        return self.user_effect(fr, st, 'drop', v)

    def user_ty(self, ty):
        """type whose destructor may run user code"""
        k = ty[0]
        if k == 'adt':
            if not ty[2] and '::' not in ty[1] and ty[1] not in INTS and ty[1] not in ('bool', 'str'):
                return True      # type parameter
            if mir.last(ty[1]) in ('TryReserveError', 'ErrorKind', 'Layout', 'Infallible', 'TryFromIntError'):
                return False
            return any(self.user_ty(t) for t in ty[2]) or mir.last(ty[1]) in ('Error', 'IntoIter')
        if k == 'tuple':
            return any(self.user_ty(t) for t in ty[1])
        if k in ('ref', 'ptr'):
            return False
        return True

    def drop_range(self, fr, st, p, n, ty):
        """drop n consecutive elements starting at p"""
        et = ty[1] if ty[0] == 'slice' else ('raw', '?')
        if self.le(st, n, 0):
            return [('ret', st)]
        arp = ('P', p[1], p[2][:-1])
        lo = p[2][-1][1]
        ar = self.load(st, arp[1], arp[2])
        if ar[0] != 'AR':
            raise Unsupported('drop range of ' + show(ar))
        if not self.needs_drop(et) or not self.user_ty(et):
            return [('ret', st)]
        for a, b, t in self.ar_get(st, ar, lo, lo + n):
            if t == X and not self.need_le(st, b, a):
                raise Bad('double-drop', 'drops %r elements from index %r, of which some are uninitialised, moved '
                          'out or already dropped' % (n, lo))
        new = self.ar_put(st, ar, lo, lo + n, ((lo, lo + n, X),))
        self.store(st, arp[1], arp[2], new)
        for a, b, t in self.ar_get(st, ar, lo, lo + n):
            self.gone(st, t, b - a)
        return self.user_effect(fr, st, 'drop', None)

    def gone(self, st, v, n):
        """n values v were dropped"""
        if v[0] == 'S' and isinstance(v[1], tuple) and v[1][:1] in (('arg',), ('el',)):
            k = ('g', ('dropped', v[1][:2]))
            st.mem[k] = ('I', st.mem.get(k, ('I', L(0)))[1] + n)

    # ------------------------------------------------------------ user code
    def user_effect(self, fr, st, what, arg):
        """opaque user code without result: returns and (unless already panicking) unwinds"""
        self.stats['user_calls'] += 1
        if self.mon is not None:
            self.mon.on_user(self, fr, st, what, arg)
        outs = [('ret', st)]
        outs.append(('unw', st.copy()))
        return outs

    def tick(self, st, key='n'):
        v = st.mem.get(('g', key), I(0))
        st.mem[('g', key)] = ('I', v[1] + 1)
        return v[1]

    def user_call(self, fr, st, what, args, rty):
        """call of user code (method of a type parameter / closure parameter)"""
        self.stats['user_calls'] += 1
        if self.mon is not None:
            r = self.mon.on_user(self, fr, st, what, args)
            if r is not None:
                return r
        n = self.tick(st, what)
        v = self.mk(('u', what, n), rty)
        return [('ret', st, v), ('unw', st.copy(), None)]

    # ------------------------------------------------------------ calls
    def call(self, fr, st, s):
        _, dest, callee, ops, ret, unw = s[:6]
        args = [self.operand(fr, st, o) for o in ops]
        tys = [self.op_ty(fr, o) for o in ops]
        rty = self.place_ty(fr, dest)
        self.stats['calls'] += 1
        self.stats['callsites'].add((fr.f.name, callee, s[-1]))
        outs = []
        for o in self.invoke(fr, st, callee, args, tys, rty, s[-1]):
            if o[0] == 'ret':
                if ret is None:
                    continue
                s2 = o[1]
                v = o[2] if o[2] is not None else UNIT
                if not dest[1]:
                    s2.mem[('l', fr.d, dest[0])] = v
                else:
                    a = self.addr(fr, s2, dest)
                    self.store(s2, a[1], a[2], v)
                outs.append(('goto', ret, s2))
            else:
                r = self.goto_unw(unw, o[1])
                if r:
                    outs.append(r)
        return outs

    def invoke(self, fr, st, callee, args, tys, rty, span=''):
        if re.match(r'(move |copy |_\d+$)', callee):
            v = self.operand(fr, st, mir.parse_operand(callee))
            return self.call_value(fr, st, v, args, tys, rty, span)
        c = parse_callee(callee)
        if c[0] == 'trait':
            _, selft, trait, method, margs = c
            selft = mir.subst(selft, fr.env)
            trait = mir.subst(trait, fr.env)
            margs = tuple(mir.subst(a, fr.env) for a in margs)
            return self.invoke_trait(fr, st, selft, trait, method, margs, args, tys, rty, span, callee)
        _, path, implty, tyargs, margs = c
        implty = mir.subst(implty, fr.env) if implty else None
        tyargs = tuple(mir.subst(a, fr.env) for a in tyargs)
        margs = tuple(mir.subst(a, fr.env) for a in margs)
        return self.invoke_path(fr, st, path, implty, tyargs, margs, args, tys, rty, span, callee)

    consts = ()      # constant bounds worth trying for loop leaves (negative: upper bounds)

    cycles = False        # report loops that change nothing

    def on_trim(self, st):
        pass

    def order(self, st, a, b):
        """what comparing two values of type-parameter type gives: [(state, -1/0/1)], or None: not known"""
        return None

    split_flags = False     # loop heads with different constant flags are kept apart
    max_heads = 8
    project = False         # facts about quantities nothing refers to are projected away at loop heads

    def was_read(self, st, p, v):
        """ptr::read copied v from p"""

    def contract(self, f):
        if not self.contracts:
            return None
        from .src import fn_key
        return self.contracts.get(fn_key(f))

    def run_local(self, fr, st, f, env, args, span, callee, tys=None, rty=None):
        ct = self.contract(f)
        if ct:
            r = ct(self, fr, st, f, env, args, tys, rty)
            if r is not NotImplemented:
                return r
        outs = self.call_fn(f, env, args, st, fr, span, callee)
        return [(o[0], o[1], o[2]) for o in outs]

    def fn_env(self, f, implenv, tys, margs=(), rty=None):
        """type environment of a callee from its parameter types (and, for parameters that only occur there, the type of the result)"""
        env = dict(implenv)
        gp = self.fn_generics(f)
        if margs and gp and len(margs) == len(gp):
            for g, a in zip(gp, margs):
                env.setdefault(g, a)
        names = set(gp) | set(f.impl.params if f.impl else ())
        for (nm, pt), t in zip(f.params, tys):
            e2 = dict(env)
            try:
                if mir.unify(pt, t, names - set(implenv), e2):
                    for k, v in e2.items():
                        env.setdefault(k, v)
            except Exception:
                pass
        if rty is not None and f.ret is not None and any(g not in env for g in gp):
            e2 = dict(env)
            if mir.unify(f.ret, rty, names - set(implenv), e2):
                for k, v in e2.items():
                    env.setdefault(k, v)
        return env

    def fn_generics(self, f):
        """names of the type parameters declared on the fn itself"""
        k = ('g', f)
        r = self._cc.get(k)
        if r is None:
            r = self._cc[k] = self._fn_generics(f)
        return r

    def _fn_generics(self, f):
        prog = self.prog if f in self.prog.fnset else self.prelude
        nm = f.method
        if not nm:
            return []
        out = None
        src = prog.src
        best = None
        for p, t in src.clean.items():
            for m in re.finditer(r'\bfn\s+%s\s*(<)' % re.escape(nm), t):
                from .src import _angle, generics_of
                e = _angle(t, m.start(1))
                g = generics_of(t[m.start(1) + 1:e - 1])
                mod = src.module_of(p, m.start())
                fm = f.impl.module if f.impl else f.name.rsplit('::', 1)[0] if '::' in f.name else ''
                score = (mod == fm)
                if best is None or score > best[0]:
                    best = (score, g)
        # impl Trait parameters are invisible here; they unify by their printed name
        return best[1] if best else []

    def invoke_trait(self, fr, st, selft, trait, method, margs, args, tys, rty, span, callee):
        tn = tyname(trait)
        # strip reference layers for operator-ish forwarding handled by models
        f, env = self.find_impl(selft, trait, tn, method)
        if f is not None:
            env = self.fn_env(f, env, tys, margs)
            return self.run_local(fr, st, f, env, args, span, callee, tys, rty)
        m = self.trait_models.get((tn, method))
        if m is not None:
            r = m(self, fr, st, selft, args, tys, rty, dict(trait=trait, margs=margs, span=span, callee=callee))
            if r is not NotImplemented:
                return r
        if self.is_param(selft) and not (tn in ('Iterator', 'DoubleEndedIterator') and self.prelude is not None and
                                         '%s__%s' % (tn, method) in self.prelude.free):
            if tn in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator') and \
                    method not in ('next', 'next_back', 'size_hint', 'len'):
                return self.unknown(fr, st, 'the provided method %s::%s' % (tn, method), args, tys, rty, callee)
            if (tn, method) == ('IntoIterator', 'into_iter') and selft[0] == 'proj' and selft[1].endswith('::IntoIter'):
                return [('ret', st, args[0])]
            return self.user_call(fr, st, (tn, method), args, rty)
        if self.prelude is not None:
            for nm in ('%s__%s' % (tn, method),):
                c = self.prelude.free.get(nm)
                if c:
                    env = self.fn_env(c[0], {}, tys, (), rty)
                    return self.run_local(fr, st, c[0], env, args, span, callee, tys, rty)
        # default method of a crate trait
        for g in self.prog.free.get(method, ()):
            if g.impl is None and re.search(r'(^|::)%s::%s$' % (re.escape(tn), re.escape(method)), g.name):
                env = {'Self': selft}
                env = self.fn_env(g, env, tys, margs)
                return self.run_local(fr, st, g, env, args, span, callee, tys, rty)
        return self.unknown(fr, st, '%s::%s on %s' % (tn, method, mir.show(selft)), args, tys, rty, callee)

    def is_param(self, t):
        """type parameter, projection, or reference-free opaque type"""
        if t[0] == 'adt' and not t[2] and '::' not in t[1] and t[1] not in INTS and t[1] not in ('bool', 'str'):
            return True
        return t[0] in ('proj', 'raw')

    def find_impl(self, selft, trait, tn, method):
        key = ('fi', selft, trait, method)
        r = self._cc.get(key)
        if r is None:
            r = self._cc[key] = self._find_impl(selft, trait, tn, method)
        return r[0], dict(r[1])

    def _find_impl(self, selft, trait, tn, method):
        best = None
        for prog in (self.prog, self.prelude):
            if prog is None:
                continue
            for f in prog.by_trait.get((tn, method), ()):
                env = {}
                ps = set(f.impl.params)
                if selft[0] in ('proj', 'raw') and not (f.impl.self_ty[0] == 'adt' and f.impl.self_ty[1] in ps):
                    continue
                if not mir.unify(f.impl.self_ty, selft, ps, env):
                    continue
                if trait[0] == 'adt' and trait[2] and f.impl.trait_args:
                    if not all(mir.unify(a, b, ps, env) for a, b in zip(f.impl.trait_args, trait[2])):
                        continue
                if f.impl.self_ty[0] == 'adt' and f.impl.self_ty[1] in ps and self.is_param(selft) and \
                        prog is self.prog and not self.blanket_ok(f, selft):
                    pass
                gen = 1 if (f.impl.self_ty[0] == 'adt' and f.impl.self_ty[1] in ps) else 0
                if best is None or gen < best[0]:
                    best = (gen, f, env)
            if best is not None:
                break
        if best is None:
            return (None, {})
        return (best[1], best[2])

    def blanket_ok(self, f, t):
        return True

    def invoke_path(self, fr, st, path, implty, tyargs, margs, args, tys, rty, span, callee):
        m = self.models.get(path)
        if m is not None:
            try:
                r = m(self, fr, st, args, tys, rty, dict(tyargs=tyargs, margs=margs, implty=implty, span=span,
                                                         callee=callee, path=path))
            except ModelPanic as e:
                self.on_panic(fr, st, str(e))
                return [('unw', st, None)]
            if r is not NotImplemented:
                return r
        segs = path.split('::')
        # crate functions
        if len(segs) >= 2:
            for f in self.prog.by_inh.get((segs[-2], segs[-1]), ()):
                env = {}
                st_ty = ('adt', '::'.join(segs[:-1]), tyargs)
                if mir.unify(f.impl.self_ty, st_ty, set(f.impl.params), env) and \
                        self.args_match(f, env, tys):
                    env = self.fn_env(f, env, tys, margs)
                    return self.run_local(fr, st, f, env, args, span, callee, tys, rty)
        if implty is not None:
            key = mir.last(implty[1]) if implty[0] == 'adt' else implty[0]
            for f in self.prog.by_inh.get((key, segs[-1]), ()):
                env = {}
                if mir.unify(f.impl.self_ty, implty, set(f.impl.params), env) and self.args_match(f, env, tys):
                    env = self.fn_env(f, env, tys, margs)
                    return self.run_local(fr, st, f, env, args, span, callee, tys, rty)
        for f in self.prog.free.get(segs[-1], ()):
            if f.impl is None and (f.name == path or f.name.endswith('::' + path)):
                if self.is_ctor(f):
                    return [('ret', st, self.agg(fr, st, path, args, None))]
                env = self.fn_env(f, {}, tys, tyargs or margs)
                return self.run_local(fr, st, f, env, args, span, callee, tys, rty)
            if f.impl is not None and path.endswith('::' + f.method) and f.impl.module and \
                    path.startswith(f.impl.module):
                env = self.fn_env(f, {}, tys, tyargs or margs)
                return self.run_local(fr, st, f, env, args, span, callee, tys, rty)
        if len(segs) == 3:
            # a function nested in a method of a trait implementation
            c = [f for f in self.prog.free.get(segs[-1], ()) if f.impl is not None and f.impl.trait is not None and
                 mir.last(f.impl.trait[1] if isinstance(f.impl.trait, tuple) else f.impl.trait) == segs[0] and
                 f.name.endswith('::%s::%s' % (segs[1], segs[2]))]
            if len(c) > 1 and tys:
                c = [f for f in c if self.args_match(f, {}, tys)]
            if len(c) == 1:
                return self.run_local(fr, st, c[0], self.fn_env(c[0], {}, tys, tyargs or margs), args, span, callee, tys, rty)
        if self.prelude is not None:
            for nm in ('__'.join(segs[-2:]), segs[-1]):
                c = self.prelude.free.get(nm)
                if c and c[0].impl is None:
                    env = self.fn_env(c[0], {}, tys, (), rty)
                    return self.run_local(fr, st, c[0], env, args, span, callee, tys, rty)
        # tuple-struct / variant constructors
        if segs[-1][:1].isupper():
            return [('ret', st, self.agg(fr, st, path, args, None))]
        return self.unknown(fr, st, path, args, tys, rty, callee)

    def is_ctor(self, f):
        return f.method[:1].isupper() and f.impl is None

    def args_match(self, f, env, tys):
        names = set(f.impl.params) | set(self.fn_generics(f)) if f.impl else set()
        for (nm, pt), t in zip(f.params, tys):
            e = dict(env)
            if not mir.unify(pt, t, names, e):
                return False
        return True

    def unknown(self, fr, st, what, args, tys, rty, callee):
        self.stats['unknown'].add(what)
        if self.mon is not None:
            r = self.mon.on_unknown(self, fr, st, what, args, rty)
            if r is not None:
                return r
            if ALLOCATES.search(what):
                self.mon.on_alloc(self, fr, st, callee, True, None)
        raise Unsupported('no model for ' + what)

    def call_value(self, fr, st, v, args, tys, rty, span=''):
        """call a closure / function value with already untupled args"""
        if v[0] == 'P':
            v2 = self.load(st, v[1], v[2])
            if v2[0] == 'A' and isinstance(v2[1], tuple) or v2[0] in ('Fn', 'S', 'P'):
                return self.call_closure(fr, st, v2, v, args, tys, rty, span)
        return self.call_closure(fr, st, v, None, args, tys, rty, span)

    def call_closure(self, fr, st, v, ref, args, tys, rty, span):
        if v[0] == 'P':
            return self.call_value(fr, st, v, args, tys, rty, span)
        if v[0] == 'A' and isinstance(v[1], tuple) and v[1][0] == 'closure':
            f = self.prog.closures.get(v[1][1]) or (self.prelude and self.prelude.closures.get(v[1][1]))
            if f is None:
                raise Unsupported('closure ' + v[1][1])
            pt = f.params[0][1]
            if pt[0] == 'ref':
                if ref is None:
                    o = self.alloc(st, v)
                    ref = ('P', o, ())
                a0 = ref
            else:
                a0 = v
            env = dict(v[1][2])
            return self.run_local(fr, st, f, env, [a0] + list(args), span, 'closure', None, rty)
        if v[0] == 'Fn':
            g = Frame()
            g.f, g.env, g.d, g.parent, g.span, g.callee = fr.f, dict(v[2]), fr.d, fr.parent, span, fr.callee
            return self.invoke(g, st, v[1], args, tys, rty, span)
        if v[0] == 'S':
            return self.user_call(fr, st, ('call', v[1]), args, rty)
        raise Unsupported('call of ' + show(v))

    # ------------------------------------------------------------ loops
    def loop(self, fr, h, st, body):
        from .loops import run_loop
        self.stats['loops'] += 1
        return run_loop(self, fr, h, st, body)


def stmt_text(s):
    if s[0] == 'call':
        return s[2]
    if s[0] == 'drop':
        return 'drop'
    return s[0]


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]]
    if k == 'drop':
        return [b for b in (t[2], t[3]) if b and b.startswith('bb')]
    if k == 'assert':
        return [b for b in (t[3], t[4]) if b and b.startswith('bb')]
    if k == 'call':
        return [b for b in (t[4], t[5]) if b and b.startswith('bb')]
    return []


def liveness(f, succ):
    """live-in locals per block; locals whose address is taken count as live until StorageDead"""
    taken = set()
    use, kill = {}, {}

    def pl(p, u, k, write=False):
        if write and not p[1]:
            if p[0] not in u:
                k.add(p[0])
        else:
            if p[0] not in k:
                u.add(p[0])
        for q in p[1]:
            if q[0] == 'idx' and q[1] not in k:
                u.add(q[1])

    def opnd(o, u, k):
        if o[0] in ('copy', 'move'):
            pl(o[1], u, k)
    for b, sts in f.blocks.items():
        u, k = set(), set()
        for s in sts:
            t = s[0]
            if t == 'assign':
                rv = s[2]
                if rv[0] == 'ref':
                    if not any(q[0] == 'deref' for q in rv[2][1]):
                        taken.add(rv[2][0])
                    pl(rv[2], u, k)
                elif rv[0] in ('disc', 'len'):
                    pl(rv[1], u, k)
                elif rv[0] == 'use':
                    opnd(rv[1], u, k)
                elif rv[0] == 'bin':
                    opnd(rv[2], u, k); opnd(rv[3], u, k)
                elif rv[0] == 'un':
                    opnd(rv[2], u, k)
                elif rv[0] == 'cast' or rv[0] == 'repeat':
                    opnd(rv[1], u, k)
                elif rv[0] == 'agg':
                    for o in rv[3]:
                        opnd(o, u, k)
                pl(s[1], u, k, True)
            elif t == 'dead':
                if s[1] not in u:
                    k.add(s[1])
            elif t == 'call':
                if s[2].startswith(('move ', 'copy ')):
                    opnd(mir.parse_operand(s[2]), u, k)
                for o in s[3]:
                    opnd(o, u, k)
                pl(s[1], u, k, True)
            elif t == 'switch' or t == 'assert' or t == 'assume':
                opnd(s[1], u, k)
            elif t == 'drop':
                pl(s[1], u, k)
            elif t == 'setdisc':
                pl(s[1], u, k)
            elif t == 'return':
                if '_0' not in k:
                    u.add('_0')
        use[b], kill[b] = u, k
    live = {b: set(use[b]) for b in f.blocks}
    ch = True
    while ch:
        ch = False
        for b in f.blocks:
            n = set(use[b])
            for s in succ.get(b, ()):
                n |= live.get(s, set()) - kill[b]
            if n != live[b]:
                live[b] = n
                ch = True
    return {b: (live[b], taken) for b in f.blocks}


_pc = {}


def parse_callee(t):
    r = _pc.get(t)
    if r is None:
        r = _pc[t] = _parse_callee(t)
    return r


def _parse_callee(t):
    t = t.strip()
    if t.startswith('const '):
        t = t[6:]
    if t.startswith('<'):
        e = mir.find_close(t, 0)
        inner = t[1:e]
        rest = t[e + 1:]
        d = 0
        pos = None
        for j, c in enumerate(inner):
            if c in '([{<':
                d += 1
            elif c in ')]}' or (c == '>' and inner[j - 1] not in '-='):
                d -= 1
            elif d == 0 and inner[j:j + 4] == ' as ':
                pos = j
        if pos is not None:
            selft = mir.parse_type(inner[:pos])
            trait = mir.parse_type(inner[pos + 4:])
            segs, targs = split_path(rest.lstrip(':'))
            if len(segs) > 1:
                # nested function inside a trait method
                return ('path', '::'.join([mir.last(trait[1])] + segs), None, targs[-1], targs[-1])
            return ('trait', selft, trait, segs[0], targs[0])
        # <T>::method  (slice/pointer inherent)
        selft = mir.parse_type(inner)
        segs, targs = split_path(rest.lstrip(':'))
        key = mir.last(selft[1]) if selft[0] == 'adt' else selft[0]
        return ('path', key + '::' + segs[-1], selft, (), targs[-1])
    segs, targs = split_path(t)
    implty = None
    out = []
    tya = ()
    for i, s in enumerate(segs):
        if s.startswith('<impl'):
            implty = mir.parse_type(s[6:-1])
        else:
            out.append(s)
            if targs[i] and i < len(segs) - 1:
                tya = targs[i]
    return ('path', '::'.join(out), implty, tya, targs[-1])


def split_path(t):
    """'a::B::<T>::m::<U>' -> (['a','B','m'], [(),(T,),(U,)])"""
    segs, targs = [], []
    i = 0
    cur = ''
    n = len(t)
    while i < n:
        if t.startswith('::', i):
            j = i + 2
            if t.startswith('<', j):
                e = mir.find_close(t, j)
                if t.startswith('<impl', j):
                    segs.append(cur); targs.append(())
                    cur = t[j:e + 1]
                    i = e + 1
                    continue
                args = tuple(mir.parse_type(a) for a in mir.split_top(t[j + 1:e]) if not a.startswith("'"))
                segs.append(cur)
                targs.append(args)
                cur = None
                i = e + 1
                if t.startswith('::', i):
                    i += 2
                    cur = ''
                continue
            if cur is not None:
                segs.append(cur)
                targs.append(())
            cur = ''
            i += 2
            continue
        if t[i] == '{':
            e = mir.find_close(t, i)
            cur += t[i:e + 1]
            i = e + 1
            continue
        cur += t[i]
        i += 1
    if cur:
        segs.append(cur)
        targs.append(())
    return segs, targs
