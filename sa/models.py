"""Transfer functions of std primitives.  Each takes (I, fr, st, args, tys, rty, info) and returns a list
of ('ret', st, value) / ('unw', st, None)."""
from . import mir, lin
from .lin import Lin, V, L, MAXU
from .vals import *
from .interp import ModelPanic, NeedSplit, NeedFork, Bad, Unsupported, INTS, tyname

TABLE = {}
TRAIT_TABLE = {}


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def tmodel(*pairs):
    def d(f):
        for p in pairs:
            TRAIT_TABLE[p] = f
        return f
    return d


def ret(st, v=UNIT):
    return [('ret', st, v)]


def deref(I, st, p):
    return I.deref_val(st, p)


# ---------------------------------------------------------------- Vec

def vec_parts(I, st, p):
    """(len, cap, bufptr) of the Vec behind pointer p"""
    v = I.deref_val(st, p)
    if v[0] == 'S':
        raise Unsupported('opaque Vec')
    if v[0] != 'A' or v[1] != 'Vec':
        raise Unsupported('not a Vec: ' + show(v))
    return v[3][0][1], v[3][1][1], v[3][2]


def set_vec(I, st, p, n, c, b):
    I.put(st, p, ('A', 'Vec', 0, (('I', n), ('I', c), b)))


def bufar(I, st, b):
    ar = I.load_obj(st, b[1])
    if ar[0] != 'AR':
        raise Unsupported('vec buffer ' + show(ar))
    return ar


def buf_new(I, st, segs, tag='h'):
    o = I.alloc(st, ('AR', segs))
    return ('P', o, (('i', L(0)),))


def elem_ty(tys):
    t = tys[0]
    while t[0] in ('ref', 'ptr'):
        t = t[2]
    return t[2][0] if t[0] == 'adt' and t[2] else ('raw', '?')


def new_vec(I, st, ty=None):
    c = I.fresh('cap0')
    if ty is not None and ty[0] == 'adt' and ty[2] and min_size(ty[2][0]):
        c = L(0)
    return ('A', 'Vec', 0, (('I', L(0)), ('I', c), buf_new(I, st, ((L(0), c, X),))))


@model('alloc::vec::Vec::new')
def vec_new(I, fr, st, args, tys, rty, info):
    return ret(st, new_vec(I, st, rty))


@model('alloc::vec::Vec::len', 'alloc::vec::Vec::is_empty', 'alloc::vec::Vec::capacity')
def vec_len(I, fr, st, args, tys, rty, info):
    n, c, b = vec_parts(I, st, args[0])
    k = info['path'].rsplit('::', 1)[1]
    if k == 'len':
        return ret(st, ('I', n))
    if k == 'capacity':
        return ret(st, ('I', c))
    return ret(st, ('B', peq(n)))


@model('alloc::vec::Vec::as_mut_ptr', 'alloc::vec::Vec::as_ptr')
def vec_ptr(I, fr, st, args, tys, rty, info):
    n, c, b = vec_parts(I, st, args[0])
    return ret(st, b)


@model('alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice')
def vec_slice(I, fr, st, args, tys, rty, info):
    n, c, b = vec_parts(I, st, args[0])
    return ret(st, ('F', b, n))


@model('alloc::vec::Vec::set_len')
def vec_set_len(I, fr, st, args, tys, rty, info):
    n, c, b = vec_parts(I, st, args[0])
    m = args[1][1]
    if not I.need_le(st, m, c):
        raise Bad('set_len', 'set_len(%r) beyond the capacity %r' % (m, c))
    # elements may be initialised after the length is raised: exits, reads and drops are checked instead
    set_vec(I, st, args[0], m, c, b)
    return ret(st)


def check_init(I, st, b, m, what):
    ar = bufar(I, st, b)
    for lo, hi, t in I.ar_get(st, ar, L(0), m):
        if t == X and not I.need_le(st, hi, lo):
            raise Bad('uninit', '%s exposes uninitialised or dropped elements at index %r' % (what, lo))


def grow_alloc(I, fr, st, info, infallible, need, cap):
    """an allocation request; returns nothing but lets the monitor see it"""
    if I.mon is not None:
        I.mon.on_alloc(I, fr, st, info['callee'], infallible, need)


def push_room(I, fr, st, p, extra, info):
    """ensure room for `extra` more elements in an infallible std operation"""
    n, c, b = vec_parts(I, st, p)
    if I.need_le(st, n + extra, c):
        return n, c, b
    grow_alloc(I, fr, st, info, True, extra, c)
    return realloc(I, st, p, n, c, b, extra)


def fact(I, st, e):
    """assume e >= 0; where that is impossible the library call panics (capacity overflow)"""
    f = st.facts.add_ge(e, I.nn)
    if f is None:
        raise ModelPanic('capacity overflow')
    st.facts = f


def realloc(I, st, p, n, c, b, extra, exact=False):
    if exact:
        # RawVec::grow_exact sets the capacity to precisely len + additional
        segs = I.ar_norm(st, I.ar_get(st, bufar(I, st, b), L(0), n) + ((n, n + extra, X),))
        if b[1][0] in ('h', 'o'):
            st.mem[b[1]] = ('DEAD',)
        nb = buf_new(I, st, segs)
        set_vec(I, st, p, n, n + extra, nb)
        return n, n + extra, nb
    c2 = I.fresh('cap')
    f = st.facts
    for e in (c2 - c, c2 - n - extra):
        f = f and f.add_ge(e, I.nn)
    if f is None:
        raise ModelPanic('capacity overflow')
    st.facts = f
    ar = bufar(I, st, b)
    segs = I.ar_get(st, ar, L(0), n)
    segs = I.ar_norm(st, segs + ((n, c2, X),))
    if b[1][0] in ('h', 'o'):
        st.mem[b[1]] = ('DEAD',)
    nb = buf_new(I, st, segs)
    set_vec(I, st, p, n, c2, nb)
    return n, c2, nb


@model('alloc::vec::Vec::try_reserve', 'alloc::vec::Vec::try_reserve_exact')
def vec_try_reserve(I, fr, st, args, tys, rty, info):
    n, c, b = vec_parts(I, st, args[0])
    add = args[1][1]
    if I.need_le(st, n + add, c):
        return ret(st, ok(UNIT))
    grow_alloc(I, fr, st, info, False, add, c)
    e = st.copy()
    I.tick(e, 'failed')
    outs = [('ret', e, err(I.mk(('reserve_err',), ('adt', 'alloc::collections::TryReserveError', ()))))]
    # a successful reservation never spans more than isize::MAX bytes
    lim = MAXU
    if tys and tys[0][0] == 'ref' and tys[0][2][0] == 'adt' and tys[0][2][2]:
        z = min_size(tys[0][2][2][0])
        if z:
            lim = L((2**63 - 1) // z)
    if I.need_le(st, n + add, lim):
        realloc(I, st, args[0], n, c, b, add, info['path'].endswith('exact'))
        outs.append(('ret', st, ok(UNIT)))
    return outs


def min_size(t):
    """a lower bound of the size of a type in bytes"""
    from .interp import is_int
    if is_int(t):
        return {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'char': 4, 'u128': 16,
                'i128': 16}.get(t[1], 8)
    if t[0] == 'array' and t[2].isdigit():
        return min_size(t[1]) * int(t[2])
    if t[0] in ('ref', 'ptr'):
        return 8
    if t[0] == 'tuple':
        return sum(min_size(x) for x in t[1])
    return 0


@model('alloc::vec::Vec::reserve', 'alloc::vec::Vec::reserve_exact')
def vec_reserve(I, fr, st, args, tys, rty, info):
    push_room(I, fr, st, args[0], args[1][1], info)
    return ret(st)


@model('alloc::vec::Vec::with_capacity')
def vec_with_capacity(I, fr, st, args, tys, rty, info):
    grow_alloc(I, fr, st, info, True, args[0][1], L(0))
    c = I.fresh('cap')
    fact(I, st, c - args[0][1])
    return ret(st, ('A', 'Vec', 0, (('I', L(0)), ('I', c), buf_new(I, st, ((L(0), c, X),)))))


@model('alloc::vec::Vec::push')
def vec_push(I, fr, st, args, tys, rty, info):
    n, c, b = push_room(I, fr, st, args[0], L(1), info)
    ar = bufar(I, st, b)
    st.mem[b[1]] = I.ar_put(st, ar, n, n + 1, ((n, n + 1, args[1]),))
    set_vec(I, st, args[0], n + 1, c, b)
    return ret(st)


@model('alloc::vec::Vec::pop')
def vec_pop(I, fr, st, args, tys, rty, info):
    n, c, b = vec_parts(I, st, args[0])
    if I.need_eq(st, n, 0):
        return ret(st, NONE)
    ar = bufar(I, st, b)
    s = I.seg(st, ar, n - 1)
    v = at(s[2], n - 1)
    st.mem[b[1]] = I.ar_put(st, ar, n - 1, n, ((n - 1, n, X),))
    set_vec(I, st, args[0], n - 1, c, b)
    return ret(st, some(v))


@model('alloc::vec::Vec::insert')
def vec_insert(I, fr, st, args, tys, rty, info):
    n, c, b = vec_parts(I, st, args[0])
    i = args[1][1]
    if not I.need_le(st, i, n):
        I.on_panic(fr, st, 'insert index')
        return [('unw', st, None)]
    n, c, b = push_room(I, fr, st, args[0], L(1), info)
    ar = bufar(I, st, b)
    tail = I.ar_get(st, ar, i, n)
    new = ((i, i + 1, args[2]),) + tuple(shift(s, i + 1) for s in tail)
    st.mem[b[1]] = I.ar_put(st, ar, i, n + 1, new)
    set_vec(I, st, args[0], n + 1, c, b)
    return ret(st)


@model('alloc::vec::Vec::remove')
def vec_remove(I, fr, st, args, tys, rty, info):
    n, c, b = vec_parts(I, st, args[0])
    i = args[1][1]
    if not I.need_le(st, i + 1, n):
        I.on_panic(fr, st, 'remove index')
        return [('unw', st, None)]
    ar = bufar(I, st, b)
    v = at(I.seg(st, ar, i)[2], i)
    tail = I.ar_get(st, ar, i + 1, n)
    new = tuple(shift(s, i) for s in tail) + ((n - 1, n, X),)
    st.mem[b[1]] = I.ar_put(st, ar, i, n, new)
    set_vec(I, st, args[0], n - 1, c, b)
    return ret(st, v)


@model('alloc::vec::Vec::append')
def vec_append(I, fr, st, args, tys, rty, info):
    m, c2, b2 = vec_parts(I, st, args[1])
    n, c, b = push_room(I, fr, st, args[0], m, info)
    src = I.ar_get(st, bufar(I, st, b2), L(0), m)
    st.mem[b[1]] = I.ar_put(st, bufar(I, st, b), n, n + m, tuple(shift(s, n) for s in src))
    st.mem[b2[1]] = I.ar_put(st, bufar(I, st, b2), L(0), m, ((L(0), m, X),))
    set_vec(I, st, args[0], n + m, c, b)
    set_vec(I, st, args[1], L(0), c2, b2)
    return ret(st)


def slice_segs(I, st, s):
    """segments of a slice value rebased to 0"""
    if s[0] == 'P':       # &Vec passed through deref coercion
        v = I.deref_val(st, s)
        if v[0] == 'A' and v[1] == 'Vec':
            return I.ar_get(st, bufar(I, st, v[3][2]), L(0), v[3][0][1]), v[3][0][1]
    if s[0] != 'F':
        raise Unsupported('not a slice ' + show(s))
    p, n = s[1], s[2]
    ar = I.load(st, p[1], p[2][:-1])
    lo = p[2][-1][1]
    if ar[0] != 'AR':
        return ((L(0), L(1), ar),), n
    return I.ar_get(st, ar, lo, lo + n), n


@model('alloc::vec::Vec::extend_from_slice')
def vec_extend_from_slice(I, fr, st, args, tys, rty, info):
    et = elem_ty(tys)
    src, m = slice_segs(I, st, args[1])
    n, c, b = push_room(I, fr, st, args[0], m, info)
    for a, z, t in src:
        if t == X and not I.need_le(st, z, a):
            raise Bad('uninit', 'reads uninitialised elements')
    cl = tuple((a, z, clone_of(I, t, et)) for a, z, t in src)
    outs = []
    if not is_plain(I, et, info):
        # element clone may unwind part-way: elements [0,j) appended
        u = st.copy()
        j = I.fresh('part')
        u.facts = u.facts.add_ge(m - j, I.nn)
        if u.facts is not None:
            part = tuple((a, z, clone_of(I, t, et)) for a, z, t in I.ar_get(u, ('AR', src), L(0), j))
            u.mem[b[1]] = I.ar_put(u, bufar(I, u, b), n, n + j, tuple(shift(s, n) for s in part))
            set_vec(I, u, args[0], n + j, c, b)
            outs.append(('unw', u, None))
    st.mem[b[1]] = I.ar_put(st, bufar(I, st, b), n, n + m, tuple(shift(s, n) for s in cl))
    set_vec(I, st, args[0], n + m, c, b)
    outs.append(('ret', st, UNIT))
    return outs


def is_plain(I, t, info):
    """Copy element types: cloning is a bit copy"""
    if t[0] == 'adt' and (t[1] in INTS or t[1] in ('bool',)):
        return True
    return t in I.copy_types


def clone_of(I, v, et):
    if v[0] in ('I', 'B') or et in I.copy_types:
        return v
    return ('S', ('clone', v), et)


@model('alloc::vec::Vec::resize')
def vec_resize(I, fr, st, args, tys, rty, info):
    et = elem_ty(tys)
    n, c, b = vec_parts(I, st, args[0])
    m = args[1][1]
    if I.need_le(st, m, n):
        return truncate_to(I, fr, st, args[0], m, et)
    n, c, b = push_room(I, fr, st, args[0], m - n, info)
    v = args[2]
    st.mem[b[1]] = I.ar_put(st, bufar(I, st, b), n, m, ((n, m, clone_of(I, v, et)),))
    set_vec(I, st, args[0], m, c, b)
    outs = [('ret', st, UNIT)]
    if et not in I.copy_types and not is_plain(I, et, info):
        outs.append(('unw', st.copy(), None))
    return outs


def truncate_to(I, fr, st, p, m, et):
    """std truncate: length is lowered before the tail is dropped"""
    n, c, b = vec_parts(I, st, p)
    set_vec(I, st, p, m, c, b)
    outs = []
    bp = I.padd(b, m)
    for o in I.drop_range(fr, st, bp, n - m, ('slice', et)):
        outs.append((o[0], o[1], UNIT if o[0] == 'ret' else None))
    return outs


@model('alloc::vec::Vec::truncate')
def vec_truncate(I, fr, st, args, tys, rty, info):
    n, c, b = vec_parts(I, st, args[0])
    if not I.need_le(st, args[1][1] + 1, n):
        return ret(st)
    return truncate_to(I, fr, st, args[0], args[1][1], elem_ty(tys))


@model('alloc::vec::Vec::clear')
def vec_clear(I, fr, st, args, tys, rty, info):
    return truncate_to(I, fr, st, args[0], L(0), elem_ty(tys))


@model('alloc::vec::Vec::resize_with')
def vec_resize_with(I, fr, st, args, tys, rty, info):
    et = elem_ty(tys)
    n, c, b = vec_parts(I, st, args[0])
    m = args[1][1]
    if I.need_le(st, m, n):
        return truncate_to(I, fr, st, args[0], m, et)
    n, c, b = push_room(I, fr, st, args[0], m - n, info)
    f = args[2]
    if f[0] != 'S':
        raise Unsupported('resize_with closure')
    t0 = st.mem.get(('g', ('call', f[1])), I_(0))[1]
    if I.mon is not None:
        I.mon.on_user(I, fr, st, 'resize_with', None)
    elem = I.mk(('u', ('call', f[1]), t0 + VIDX - n), et)
    u = st.copy()
    j = I.fresh('part')
    u.facts = u.facts.add_ge(m - n - j - 1, I.nn)
    if u.facts is not None:
        u.mem[b[1]] = I.ar_put(u, bufar(I, u, b), n, n + j, ((n, n + j, elem),))
        set_vec(I, u, args[0], n + j, c, b)
    st.mem[b[1]] = I.ar_put(st, bufar(I, st, b), n, m, ((n, m, elem),))
    set_vec(I, st, args[0], m, c, b)
    st.mem[('g', ('call', f[1]))] = ('I', t0 + (m - n))
    return [('ret', st, UNIT)] + ([('unw', u, None)] if u.facts is not None else [])


def I_(n):
    return ('I', L(n))


def zst_cap(I, st, c):
    """the capacity of a fresh vector is 0, or unbounded for zero-sized elements, which never reallocate"""
    return len(c.m) == 1 and c.c == 0 and c.m[0][1] == 1 and c.m[0][0][:2] == ('t', 'cap0')


@model('alloc::vec::Vec::into_boxed_slice')
def vec_into_boxed(I, fr, st, args, tys, rty, info):
    v = args[0]
    n, c, b = v[3][0][1], v[3][1][1], v[3][2]
    if not I.need_eq(st, n, c) and not zst_cap(I, st, c):
        if I.mon is not None:
            I.mon.on_alloc(I, fr, st, info['callee'], 'shrink', n)
    ar = bufar(I, st, b)
    st.mem[b[1]] = ('AR', I.ar_get(st, ar, L(0), n))
    return ret(st, ('F', b, n))


@model('alloc::vec::Vec::from_raw_parts')
def vec_from_raw_parts(I, fr, st, args, tys, rty, info):
    return ret(st, ('A', 'Vec', 0, (args[1], args[2], args[0])))


@model('alloc::vec::Vec::spare_capacity_mut')
def vec_spare(I, fr, st, args, tys, rty, info):
    n, c, b = vec_parts(I, st, args[0])
    return ret(st, ('F', I.padd(b, n), c - n))


@model('alloc::vec::Vec::shrink_to_fit', 'alloc::vec::Vec::shrink_to')
def vec_shrink(I, fr, st, args, tys, rty, info):
    n, c, b = vec_parts(I, st, args[0])
    if I.need_le(st, c, n):
        return ret(st)
    # reallocates to the smaller size; a failure of the allocator aborts
    grow_alloc(I, fr, st, info, True, L(0), c)
    c2 = I.fresh('cap')
    fact(I, st, c2 - n)
    fact(I, st, c - c2)
    segs = I.ar_get(st, bufar(I, st, b), L(0), n)
    segs = I.ar_norm(st, segs + ((n, c2, X),))
    if b[1][0] in ('h', 'o'):
        st.mem[b[1]] = ('DEAD',)
    set_vec(I, st, args[0], n, c2, buf_new(I, st, segs))
    return ret(st)


@model('core::slice::starts_with', 'core::slice::ends_with')
def starts_with(I, fr, st, args, tys, rty, info):
    x, y = (as_seq(I, st, a) for a in args)
    if x is None or y is None:
        raise Unsupported('no model for ' + info['path'])
    k = ('sym', (info['path'].split('::')[-1], seq_val(I, st, x), seq_val(I, st, y)))
    return [('ret', st, ('B', k)), ('unw', st.copy(), None)]


@model('alloc::vec::Vec::swap_remove')
def vec_swap_remove(I, fr, st, args, tys, rty, info):
    n, c, b = vec_parts(I, st, args[0])
    i = args[1][1]
    if not I.need_le(st, i + 1, n):
        I.on_panic(fr, st, 'swap_remove index')
        return [('unw', st, None)]
    ar = bufar(I, st, b)
    v = at(I.seg(st, ar, i)[2], i)
    last = at(I.seg(st, ar, n - 1)[2], n - 1)
    if not I.need_eq(st, i, n - 1):
        st.mem[b[1]] = ar = I.ar_put(st, ar, i, i + 1, ((i, i + 1, last),))
    st.mem[b[1]] = I.ar_put(st, ar, n - 1, n, ((n - 1, n, X),))
    set_vec(I, st, args[0], n - 1, c, b)
    return ret(st, v)


@model('core::mem::needs_drop')
def needs_drop(I, fr, st, args, tys, rty, info):
    t = info['margs'][0] if info['margs'] else ('raw', '?')
    from .interp import is_int
    if is_int(t) or t[0] in ('ref', 'ptr'):
        return ret(st, FALSE)
    return ret(st, ('B', ('sym', ('needs_drop', mir.show(t)))))


@model('alloc::vec::Vec::split_off', 'alloc::vec::Vec::drain',
       'alloc::vec::Vec::retain',
       'alloc::vec::Vec::dedup', 'alloc::vec::Vec::splice')
def vec_unmodelled(I, fr, st, args, tys, rty, info):
    raise Unsupported('no model for ' + info['path'])


# ---------------------------------------------------------------- slices

@model('core::slice::len', 'core::str::len')
def slice_len(I, fr, st, args, tys, rty, info):
    return ret(st, ('I', flen(I, st, args[0])))


def flen(I, st, s):
    if s[0] == 'F':
        return s[2]
    if s[0] == 'A' and s[1] == 'str':
        return V(('strlen', s[3][0][1]))
    raise Unsupported('len of ' + show(s))


@model('core::slice::is_empty', 'core::str::is_empty')
def slice_is_empty(I, fr, st, args, tys, rty, info):
    return ret(st, ('B', peq(flen(I, st, args[0]))))


@model('core::slice::as_ptr', 'core::slice::as_mut_ptr', 'core::str::as_ptr')
def slice_ptr(I, fr, st, args, tys, rty, info):
    s = args[0]
    if s[0] == 'F':
        return ret(st, s[1])
    if s[0] == 'P':
        return ret(st, ('P', s[1], s[2] + (('i', L(0)),)))
    raise Unsupported('as_ptr of ' + show(s))


@model('core::slice::iter', 'core::slice::iter_mut')
def slice_iter(I, fr, st, args, tys, rty, info):
    s = args[0]
    if s[0] != 'F':
        raise Unsupported('iter of ' + show(s))
    return ret(st, ('A', 'SliceIter', 0, (s[1], I_(0), ('I', s[2]))))


SLICE_RANGES = ('Range', 'RangeTo', 'RangeFrom', 'RangeFull', 'RangeToInclusive')


@model('core::ops::RangeInclusive::new')
def range_incl(I, fr, st, args, tys, rty, info):
    a, b = args
    if a[0] != 'I' or b[0] != 'I' or not I.need_le(st, b[1] + 1, MAXU):
        raise Unsupported('inclusive range')
    return ret(st, ('A', 'Range', 0, (a, ('I', b[1] + 1))))


@model('core::ops::Range::is_empty')
def range_empty(I, fr, st, args, tys, rty, info):
    v = I.deref_val(st, args[0])
    return ret(st, ('B', ple(v[3][1][1] - v[3][0][1])))


@model('core::ops::Range::contains')
def range_contains(I, fr, st, args, tys, rty, info):
    v, x = I.deref_val(st, args[0]), I.deref_val(st, args[1])
    if x[0] != 'I':
        raise Unsupported('contains of ' + show(x))
    r = I.need_le(st, v[3][0][1], x[1]) and I.need_le(st, x[1] + 1, v[3][1][1])
    return ret(st, TRUE if r else FALSE)


@model('core::slice::get_unchecked', 'core::slice::get_unchecked_mut')
def slice_get_unchecked(I, fr, st, args, tys, rty, info):
    s, i = args
    if i[0] == 'A' and i[1] in SLICE_RANGES:
        lo, hi = range_bounds(i, s[2])
        if not I.need_le(st, lo, hi) or not I.need_le(st, hi, s[2]):
            raise Bad('oob', 'get_unchecked range %r..%r of %r' % (lo, hi, s[2]))
        return ret(st, ('F', I.padd(s[1], lo), hi - lo))
    if not I.need_le(st, i[1] + 1, s[2]):
        raise Bad('oob', 'get_unchecked(%r) of a slice of length %r' % (i[1], s[2]))
    return ret(st, I.padd(s[1], i[1]))


def range_bounds(r, n):
    if r[1] == 'RangeToInclusive':
        return L(0), r[3][0][1] + 1
    if r[1] == 'Range':
        return r[3][0][1], r[3][1][1]
    if r[1] == 'RangeTo':
        return L(0), r[3][0][1]
    if r[1] == 'RangeFrom':
        return r[3][0][1], n
    return L(0), n


@model('core::slice::get', 'core::slice::get_mut')
def slice_get(I, fr, st, args, tys, rty, info):
    s, i = args
    if i[0] == 'A' and i[1] in SLICE_RANGES:
        lo, hi = range_bounds(i, s[2])
        if not I.need_le(st, lo, hi) or not I.need_le(st, hi, s[2]):
            return ret(st, NONE)
        return ret(st, some(('F', I.padd(s[1], lo), hi - lo)))
    if i[0] != 'I':
        raise Unsupported('get range')
    if I.need_le(st, i[1] + 1, s[2]):
        return ret(st, some(I.padd(s[1], i[1])))
    return ret(st, NONE)


@model('core::slice::first', 'core::slice::last', 'core::slice::first_mut', 'core::slice::last_mut')
def slice_first(I, fr, st, args, tys, rty, info):
    s = args[0]
    if I.need_eq(st, s[2], 0):
        return ret(st, NONE)
    return ret(st, some(I.padd(s[1], L(0) if 'first' in info['path'] else s[2] - 1)))


@model('core::slice::split_first', 'core::slice::split_last', 'core::slice::split_first_mut', 'core::slice::split_last_mut')
def slice_split_first(I, fr, st, args, tys, rty, info):
    s = args[0]
    if I.need_eq(st, s[2], 0):
        return ret(st, NONE)
    if 'first' in info['path']:
        return ret(st, some(tup(s[1], ('F', I.padd(s[1], L(1)), s[2] - 1))))
    return ret(st, some(tup(I.padd(s[1], s[2] - 1), ('F', s[1], s[2] - 1))))


@model('core::slice::split_at', 'core::slice::split_at_mut')
def slice_split_at(I, fr, st, args, tys, rty, info):
    s, i = args
    if not I.need_le(st, i[1], s[2]):
        return [('unw', st, None)]
    return ret(st, tup(('F', s[1], i[1]), ('F', I.padd(s[1], i[1]), s[2] - i[1])))


@tmodel(('Index', 'index'), ('IndexMut', 'index_mut'))
def index(I, fr, st, selft, args, tys, rty, info):
    s, i = args
    if s[0] == 'P':
        v = I.deref_val(st, s)
        if v[0] == 'A' and v[1] == 'Vec':
            s = ('F', v[3][2], v[3][0][1])
    if s[0] != 'F':
        return NotImplemented
    if i[0] == 'I':
        if not I.need_le(st, i[1] + 1, s[2]):
            I.on_panic(fr, st, 'index')
            return [('unw', st, None)]
        return ret(st, I.padd(s[1], i[1]))
    if i[0] == 'A' and i[1] in SLICE_RANGES:
        lo, hi = range_bounds(i, s[2])
        if not I.need_le(st, lo, hi) or not I.need_le(st, hi, s[2]):
            I.on_panic(fr, st, 'index')
            return [('unw', st, None)]
        return ret(st, ('F', I.padd(s[1], lo), hi - lo))
    raise Unsupported('index by ' + show(i))


@model('core::slice::from_raw_parts', 'core::slice::from_raw_parts_mut', 'core::ptr::slice_from_raw_parts_mut',
       'core::ptr::slice_from_raw_parts')
def from_raw_parts(I, fr, st, args, tys, rty, info):
    p = args[0]
    if p[0] == 'F':
        p = p[1]
    if p[0] == 'P' and not (p[2] and isinstance(p[2][-1], tuple) and p[2][-1][0] == 'i'):
        p = ('P', p[1], p[2] + (('i', L(0)),))
    return ret(st, ('F', p, args[1][1]))


@model('core::str::as_bytes')
def as_bytes(I, fr, st, args, tys, rty, info):
    s = args[0]
    if s[0] == 'A' and s[1] == 'str':
        return ret(st, I.mkref(('bytes', s[3][0][1]), ('slice', ('adt', 'u8', ()))))
    return ret(st, s)


# ---------------------------------------------------------------- slice iterators and ranges

def iter_next(I, fr, st, it, p):
    """(list of outcomes) for SliceIter"""
    base, pos, end = it[3]
    if I.need_le(st, end[1], pos[1]):
        return ret(st, NONE)
    I.put(st, p, ('A', 'SliceIter', 0, (base, ('I', pos[1] + 1), end)))
    return ret(st, some(I.padd(base, pos[1])))


def iter_next_back(I, fr, st, it, p):
    base, pos, end = it[3]
    if I.need_le(st, end[1], pos[1]):
        return ret(st, NONE)
    I.put(st, p, ('A', 'SliceIter', 0, (base, pos, ('I', end[1] - 1))))
    return ret(st, some(I.padd(base, end[1] - 1)))


def range_next(I, fr, st, it, p, back=False):
    a, b = it[3][0][1], it[3][1][1]
    if I.need_le(st, b, a):
        return ret(st, NONE)
    if back:
        I.put(st, p, ('A', 'Range', 0, (('I', a), ('I', b - 1))))
        return ret(st, some(('I', b - 1)))
    I.put(st, p, ('A', 'Range', 0, (('I', a + 1), ('I', b))))
    return ret(st, some(('I', a)))


def vec_into_next(I, fr, st, it, p, back):
    buf, pos, end = it[3]
    if I.need_le(st, end[1], pos[1]):
        return ret(st, NONE)
    i = end[1] - 1 if back else pos[1]
    ar = bufar(I, st, buf)
    v = at(I.seg(st, ar, i)[2], i)
    st.mem[buf[1]] = I.ar_put(st, ar, i, i + 1, ((i, i + 1, X),))
    I.put(st, p, ('A', 'VecIntoIter', 0, (buf, pos, ('I', i)) if back else (buf, ('I', i + 1), end)))
    return ret(st, some(v))


@tmodel(('Iterator', 'next'), ('DoubleEndedIterator', 'next_back'))
def iterator_next(I, fr, st, selft, args, tys, rty, info):
    back = info['callee'].endswith('next_back')
    p = args[0]
    if p[0] != 'P':
        return NotImplemented
    v = I.deref_val(st, p)
    while v[0] == 'P':           # &mut I
        p = v
        v = I.deref_val(st, p)
        if selft[0] == 'ref':
            selft = selft[2]
    if v[0] == 'A':
        if v[1] == 'SliceIter':
            return (iter_next_back if back else iter_next)(I, fr, st, v, p)
        if v[1] == 'VecIntoIter':
            return vec_into_next(I, fr, st, v, p, back)
        if v[1] == 'Range':
            return range_next(I, fr, st, v, p, back)
        if v[1] == 'RangeInclusive':
            raise Unsupported('RangeInclusive')
        if v[1] == 'RangeFrom' and not back:
            a = v[3][0][1]
            I.put(st, p, ('A', 'RangeFrom', 0, (('I', a + 1),)))
            return ret(st, some(('I', a)))
        if p is not args[0]:
            tr = ('adt', 'core::iter::' + ('DoubleEndedIterator' if back else 'Iterator'), ())
            return I.invoke_trait(fr, st, selft, tr, 'next_back' if back else 'next', (), [p], [('ref', True, selft)],
                                  rty, info['span'], info['callee'])
        # projection-typed self: dispatch on the value
        if selft[0] in ('proj', 'raw') and isinstance(v[1], str):
            t = ('adt', v[1], ())
            f, env = I.find_impl_head('next_back' if back else 'next', v[1])
            if f is not None:
                return I.run_local(fr, st, f, env, [p], info['span'], info['callee'], tys, rty)
    return NotImplemented


@tmodel(('Iterator', 'size_hint'), ('ExactSizeIterator', 'len'))
def iterator_size(I, fr, st, selft, args, tys, rty, info):
    v = I.deref_val(st, args[0])
    while v[0] == 'P':
        v = I.deref_val(st, v)
    n = None
    if v[0] == 'A' and v[1] in ('SliceIter', 'VecIntoIter'):
        n = v[3][2][1] - v[3][1][1]
    elif v[0] == 'A' and v[1] == 'Range':
        n = v[3][1][1] - v[3][0][1]
        if I.need_le(st, n, 0):
            n = L(0)
    if n is None:
        if info['callee'].endswith('len') and not I.is_param(selft):
            # default ExactSizeIterator::len = size_hint().0
            outs = []
            for o in I.invoke_trait(fr, st, selft, ('adt', 'core::iter::Iterator', ()), 'size_hint', (), args, tys,
                                    ('tuple', (('adt', 'usize', ()), ('adt', 'core::option::Option', (('adt', 'usize', ()),)))),
                                    info['span'], '<_ as core::iter::Iterator>::size_hint'):
                if o[0] == 'ret':
                    outs.append(('ret', o[1], o[2][3][0]))
                else:
                    outs.append(o)
            return outs
        return NotImplemented
    if info['callee'].endswith('len'):
        return ret(st, ('I', n))
    return ret(st, tup(('I', n), some(('I', n))))


@tmodel(('IntoIterator', 'into_iter'))
def into_iter(I, fr, st, selft, args, tys, rty, info):
    v = args[0]
    t0 = selft
    while t0[0] in ('ref', 'ptr'):
        t0 = t0[2]
    if tyname(t0) == 'HashMap':
        return hm_iter_of(I, fr, st, v, t0, 'iter' if selft[0] == 'ref' else 'into_iter')
    if v[0] == 'F':
        return ret(st, ('A', 'SliceIter', 0, (v[1], I_(0), ('I', v[2]))))
    if v[0] == 'A' and v[1] == 'Vec':
        return ret(st, ('A', 'VecIntoIter', 0, (v[3][2], I_(0), v[3][0])))
    if v[0] == 'P' and selft[0] == 'ref':
        w = I.deref_val(st, v)
        if w[0] == 'A' and w[1] == 'Vec':
            return ret(st, ('A', 'SliceIter', 0, (w[3][2], I_(0), w[3][0])))
        if w[0] == 'AR':
            n = w[1][-1][1] if w[1] else L(0)
            return ret(st, ('A', 'SliceIter', 0, (('P', v[1], v[2] + (('i', L(0)),)), I_(0), ('I', n))))
        return NotImplemented
    if v[0] == 'A' and (v[1] in ITERS or I.find_impl_head('next', v[1])[0] is not None):
        return ret(st, v)
    if v[0] == 'P' and selft[0] == 'ref':
        return ret(st, v)
    return NotImplemented


ITERS = {'SliceIter', '#It', 'VecIntoIter', 'Range', 'RangeFrom', 'MapIter'}


@tmodel(('Iterator', 'by_ref'))
def by_ref(I, fr, st, selft, args, tys, rty, info):
    return ret(st, args[0])


@tmodel(('Iterator', 'sum'))
def iter_sum(I, fr, st, selft, args, tys, rty, info):
    n = I.fresh('sum')
    I.note('sum', fr, info)
    return ret(st, ('I', n))


# ---------------------------------------------------------------- pointers

@model('core::ptr::mut_ptr::add', 'core::ptr::const_ptr::add', 'core::ptr::mut_ptr::offset',
       'core::ptr::const_ptr::offset', 'core::ptr::NonNull::add', 'core::ptr::mut_ptr::wrapping_add',
       'core::ptr::const_ptr::wrapping_add')
def ptr_add(I, fr, st, args, tys, rty, info):
    n = args[1][1]
    return ret(st, I.padd(args[0], n))


@model('core::ptr::mut_ptr::sub', 'core::ptr::const_ptr::sub', 'core::ptr::NonNull::sub')
def ptr_sub(I, fr, st, args, tys, rty, info):
    return ret(st, I.padd(args[0], -args[1][1]))


@model('core::ptr::mut_ptr::cast', 'core::ptr::const_ptr::cast', 'core::ptr::NonNull::cast',
       'core::ptr::mut_ptr::cast_mut', 'core::ptr::const_ptr::cast_mut', 'core::ptr::mut_ptr::cast_const')
def ptr_cast(I, fr, st, args, tys, rty, info):
    return ret(st, I.ptr_cast(fr, st, args[0], tys[0], rty))


@model('core::ptr::read', 'core::ptr::mut_ptr::read', 'core::ptr::const_ptr::read', 'core::ptr::read_unaligned')
def ptr_read(I, fr, st, args, tys, rty, info):
    v = I.deref_val(st, args[0])
    if v[0] == 'X':
        raise Bad('uninit', 'ptr::read of uninitialised, moved-out or dropped memory')
    I.was_read(st, args[0], v)
    return ret(st, v)


@model('core::ptr::write', 'core::ptr::mut_ptr::write', 'core::ptr::write_unaligned')
def ptr_write(I, fr, st, args, tys, rty, info):
    I.put(st, args[0], args[1])
    return ret(st)


@model('core::mem::replace', 'core::ptr::replace', 'core::ptr::mut_ptr::replace')
def mem_replace(I, fr, st, args, tys, rty, info):
    v = I.deref_val(st, args[0])
    if v[0] == 'X':
        raise Bad('uninit', 'replace of uninitialised memory')
    I.put(st, args[0], args[1])
    return ret(st, v)


@model('core::mem::swap', 'core::ptr::swap')
def mem_swap(I, fr, st, args, tys, rty, info):
    a, b = I.deref_val(st, args[0]), I.deref_val(st, args[1])
    I.put(st, args[0], b)
    I.put(st, args[1], a)
    return ret(st)


@model('core::mem::forget')
def mem_forget(I, fr, st, args, tys, rty, info):
    return ret(st)


@model('core::mem::drop')
def mem_drop(I, fr, st, args, tys, rty, info):
    o = I.alloc(st, args[0], 'tmp')
    return [(r[0], r[1], UNIT) for r in I.drop_place(fr, st, ('P', o, ()), tys[0])]


@model('core::ptr::drop_in_place', 'core::ptr::mut_ptr::drop_in_place')
def drop_in_place(I, fr, st, args, tys, rty, info):
    t = tys[0][2] if tys[0][0] in ('ptr', 'ref') else ('raw', '?')
    p = args[0]
    if p[0] == 'F':
        return [(r[0], r[1], UNIT) for r in I.drop_range(fr, st, p[1], p[2], t)]
    return [(r[0], r[1], UNIT) for r in I.drop_place(fr, st, p, t)]


def copy_n(I, st, src, dst, n, overlap):
    if I.le(st, n, 0):
        return
    if not I.need_le(st, 1, n):
        return
    if src[0] == 'F':
        src = src[1]
    if dst[0] == 'F':
        dst = dst[1]

    def parts(p):
        if p[2] and isinstance(p[2][-1], tuple) and p[2][-1][0] == 'i':
            return p[1], p[2][:-1], p[2][-1][1]
        return p[1], p[2], L(0)
    so, sp, si = parts(src)
    do, dp, di = parts(dst)
    sa = I.load(st, so, sp)
    da = I.load(st, do, dp)
    if sa[0] != 'AR':
        sa = ('AR', ((L(0), L(1), sa),))
    segs = I.ar_get(st, sa, si, si + n)
    if not overlap and (so, sp) == (do, dp):
        if not (I.le(st, si + n, di) or I.le(st, di + n, si)):
            raise Bad('overlap', 'copy_nonoverlapping of overlapping ranges')
    if da[0] != 'AR':
        if I.eq(st, n, 1) and I.eq(st, di, 0):
            I.store(st, do, dp, at(segs[0][2], L(0)))
            return
        raise Unsupported('copy into ' + show(da))
    new = I.ar_put(st, da, di, di + n, tuple(shift(s, di) for s in segs))
    I.store(st, do, dp, new)


@model('core::intrinsics::copy', 'core::ptr::copy')
def ptr_copy(I, fr, st, args, tys, rty, info):
    copy_n(I, st, args[0], args[1], args[2][1], True)
    return ret(st)


@model('core::ptr::mut_ptr::copy_to', 'core::ptr::const_ptr::copy_to')
def ptr_copy_to(I, fr, st, args, tys, rty, info):
    copy_n(I, st, args[0], args[1], args[2][1], True)
    return ret(st)


@model('core::intrinsics::copy_nonoverlapping', 'core::ptr::copy_nonoverlapping')
def ptr_copy_nonoverlapping(I, fr, st, args, tys, rty, info):
    copy_n(I, st, args[0], args[1], args[2][1], False)
    return ret(st)


@model('core::ptr::mut_ptr::copy_to_nonoverlapping', 'core::ptr::const_ptr::copy_to_nonoverlapping')
def ptr_copy_to_no(I, fr, st, args, tys, rty, info):
    copy_n(I, st, args[0], args[1], args[2][1], False)
    return ret(st)


@model('core::ptr::mut_ptr::copy_from', 'core::ptr::mut_ptr::copy_from_nonoverlapping')
def ptr_copy_from(I, fr, st, args, tys, rty, info):
    copy_n(I, st, args[1], args[0], args[2][1], 'nonoverlapping' not in info['path'])
    return ret(st)


@model('core::intrinsics::write_bytes', 'core::ptr::write_bytes', 'core::ptr::mut_ptr::write_bytes')
def write_bytes(I, fr, st, args, tys, rty, info):
    p, v, n = args
    t = tys[0][2] if tys[0][0] in ('ptr', 'ref') else ('raw', '?')
    ar = I.load(st, p[1], p[2][:-1])
    lo = p[2][-1][1]
    if ar[0] != 'AR':
        raise Unsupported('write_bytes')
    val = v if t == ('adt', 'u8', ()) else X
    if t == ('adt', 'u8', ()) or True:
        I.store(st, p[1], p[2][:-1], I.ar_put(st, ar, lo, lo + n[1], ((lo, lo + n[1], val),)))
    return ret(st)


@model('core::ptr::null', 'core::ptr::null_mut')
def ptr_null(I, fr, st, args, tys, rty, info):
    return ret(st, ('P', ('null',), ()))


@model('core::ptr::mut_ptr::is_null', 'core::ptr::const_ptr::is_null')
def ptr_is_null(I, fr, st, args, tys, rty, info):
    return ret(st, ('B', isnull(I, st, args[0])))


def isnull(I, st, p):
    if p[1][0] == 'null':
        return True
    if p[1][0] in ('h', 'l', 'static', 'p'):
        return False
    if I.nonnull_obj(p[1]):
        return False
    return ('sym', ('null', p))


@model('core::ptr::eq', 'core::ptr::addr_eq')
def ptr_eq(I, fr, st, args, tys, rty, info):
    return ret(st, ('B', I.ptr_eq(st, args[0], args[1])))


@model('core::ptr::NonNull::as_ptr', 'core::ptr::NonNull::as_ref', 'core::ptr::NonNull::as_mut',
       'core::ptr::NonNull::new_unchecked', 'core::ptr::Unique::new_unchecked', 'core::ptr::Unique::as_ptr',
       'alloc::boxed::Box::into_raw', 'alloc::boxed::Box::from_raw',
       'alloc::boxed::Box::leak', 'core::ptr::Unique::as_ref', 'core::ptr::Unique::as_mut', 'core::ptr::Unique::cast',
       'core::mem::MaybeUninit::as_ptr', 'core::mem::MaybeUninit::as_mut_ptr', 'core::mem::ManuallyDrop::new',
       'core::mem::ManuallyDrop::into_inner', 'core::mem::MaybeUninit::new',
       'core::pin::Pin::new', 'core::convert::identity', 'core::hint::black_box')
def transparent(I, fr, st, args, tys, rty, info):
    a = args[0]
    p = info['path']
    if p.endswith('NonNull::as_ref') or p.endswith('NonNull::as_mut'):
        a = I.deref_val(st, a) if tys[0][0] == 'ref' else a
    if p.endswith('Unique::as_ref') or p.endswith('Unique::as_mut'):
        a = I.deref_val(st, a)
    if p.endswith('Unique::as_ptr') and tys[0][0] == 'ref':
        a = I.deref_val(st, a)
    return ret(st, a)


@model('alloc::boxed::Box::into_unique', 'alloc::boxed::Box::into_raw_with_allocator')
def box_into_unique(I, fr, st, args, tys, rty, info):
    return ret(st, tup(args[0], ('A', 'Global', 0, ())))


@model('core::ptr::NonNull::new')
def nonnull_new(I, fr, st, args, tys, rty, info):
    p = isnull(I, st, args[0])
    t = I.truth(st, p)
    if t is None:
        raise NeedSplit(p)
    return ret(st, NONE if t else some(args[0]))


@model('core::ptr::mut_ptr::as_ref', 'core::ptr::mut_ptr::as_mut', 'core::ptr::const_ptr::as_ref')
def ptr_as_ref(I, fr, st, args, tys, rty, info):
    p = isnull(I, st, args[0])
    t = I.truth(st, p)
    if t is None:
        raise NeedSplit(p)
    return ret(st, NONE if t else some(args[0]))


@model('core::mem::MaybeUninit::uninit')
def mu_uninit(I, fr, st, args, tys, rty, info):
    return ret(st, X)


@model('core::mem::MaybeUninit::uninit_array')
def mu_uninit_array(I, fr, st, args, tys, rty, info):
    n = I.array_len(fr, st, rty[2])
    return ret(st, ('AR', ((L(0), n, X),)))


@model('core::mem::MaybeUninit::write')
def mu_write(I, fr, st, args, tys, rty, info):
    I.put(st, args[0], args[1])
    return ret(st, args[0])


@model('core::mem::MaybeUninit::assume_init', 'core::mem::MaybeUninit::assume_init_read',
       'core::mem::ManuallyDrop::take')
def mu_assume(I, fr, st, args, tys, rty, info):
    v = args[0]
    if 'read' in info['path'] or 'take' in info['path']:
        v = I.deref_val(st, v)
    if v[0] == 'X':
        raise Bad('uninit', 'assume_init of uninitialised memory')
    return ret(st, v)


@model('core::mem::MaybeUninit::assume_init_ref', 'core::mem::MaybeUninit::assume_init_mut')
def mu_assume_ref(I, fr, st, args, tys, rty, info):
    if I.deref_val(st, args[0])[0] == 'X':
        raise Bad('uninit', 'assume_init_ref of uninitialised memory')
    return ret(st, args[0])


@model('core::mem::MaybeUninit::assume_init_drop', 'core::mem::ManuallyDrop::drop')
def mu_drop(I, fr, st, args, tys, rty, info):
    t = tys[0][2][2][0]
    return [(r[0], r[1], UNIT) for r in I.drop_place(fr, st, args[0], t)]


@model('core::mem::MaybeUninit::slice_as_ptr', 'core::mem::MaybeUninit::slice_as_mut_ptr')
def mu_slice_ptr(I, fr, st, args, tys, rty, info):
    return slice_ptr(I, fr, st, args, tys, rty, info)


@tmodel(('Deref', 'deref'), ('DerefMut', 'deref_mut'), ('Borrow', 'borrow'), ('BorrowMut', 'borrow_mut'),
        ('AsRef', 'as_ref'), ('AsMut', 'as_mut'))
def t_deref(I, fr, st, selft, args, tys, rty, info):
    nm = tyname(selft)
    a = args[0]
    if nm == 'Vec':
        n, c, b = vec_parts(I, st, a)
        return ret(st, ('F', b, n))
    if nm == 'Box':
        return ret(st, I.deref_val(st, a))
    if nm in ('ManuallyDrop', 'MaybeUninit'):
        return ret(st, a)
    if selft[0] == 'ref' and info['callee'].endswith('deref'):
        return ret(st, I.deref_val(st, a))
    if info['callee'].endswith('borrow') and not I.is_param(selft):
        return ret(st, a)
    return NotImplemented


@model('core::slice::index::get_unchecked')
def _none(I, fr, st, args, tys, rty, info):
    return NotImplemented


# ---------------------------------------------------------------- numbers

def _opt_arith(name):
    def f(I, fr, st, args, tys, rty, info):
        a, b = args[0][1], args[1][1]
        lo, hi = INTS.get(tys[0][1], (0, MAXU))
        op = info['path'].rsplit('::', 1)[1]
        kind, o = op.split('_')
        if o == 'mul':
            ca, cb = a.const(), b.const()
            if ca is None and cb is None:
                r = I.fresh('mul', lo, None)
            else:
                r = a.scale(cb) if cb is not None else b.scale(ca)
        elif o in ('add', 'sub'):
            r = a + b if o == 'add' else a - b
        else:
            raise Unsupported(op)
        inb = I.need_le(st, lo, r) and I.need_le(st, r, hi)
        if kind == 'checked':
            return ret(st, some(('I', r)) if inb else NONE)
        if kind == 'saturating':
            if inb:
                return ret(st, ('I', r))
            return ret(st, I_(lo) if I.ge(st, L(lo) - r - 1) else I_(hi))
        if kind == 'wrapping':
            if inb:
                return ret(st, ('I', r))
            return ret(st, ('I', r + (hi - lo + 1)) if I.ge(st, L(lo) - r - 1) else ('I', r - (hi - lo + 1)))
        if kind == 'overflowing':
            if inb:
                return ret(st, tup(('I', r), FALSE))
            return ret(st, tup(('I', r + (hi - lo + 1)) if I.ge(st, L(lo) - r - 1) else ('I', r - (hi - lo + 1)), TRUE))
        if kind == 'unchecked':
            if not inb:
                raise Bad('overflow', 'unchecked arithmetic overflows')
            return ret(st, ('I', r))
        raise Unsupported(op)
    return f


for _k in ('checked', 'saturating', 'wrapping', 'overflowing', 'unchecked'):
    for _o in ('add', 'sub', 'mul'):
        TABLE['core::num::%s_%s' % (_k, _o)] = _opt_arith(_k)


@model('core::num::is_power_of_two', 'core::num::next_power_of_two', 'core::num::pow', 'core::num::div_ceil',
       'core::num::abs_diff', 'core::num::leading_zeros', 'core::num::trailing_zeros', 'core::num::ilog2')
def num_opaque(I, fr, st, args, tys, rty, info):
    return ret(st, I.mk(('num', info['path'], args), rty))


@tmodel(('Ord', 'max'), ('Ord', 'min'))
def ord_max(I, fr, st, selft, args, tys, rty, info):
    if args[0][0] != 'I':
        return NotImplemented
    a, b = args[0][1], args[1][1]
    le = I.need_le(st, a, b)
    mx = info['callee'].endswith('max')
    return ret(st, ('I', (b if le else a) if mx else (a if le else b)))


@model('core::cmp::max', 'core::cmp::min')
def cmp_max(I, fr, st, args, tys, rty, info):
    if args[0][0] != 'I':
        return NotImplemented
    return ord_max(I, fr, st, tys[0], args, tys, rty, dict(callee=info['path']))


@tmodel(('From', 'from'), ('Into', 'into'))
def t_from(I, fr, st, selft, args, tys, rty, info):
    if info['callee'].endswith('::from') and selft[0] == 'adt' and selft[1] != 'Self':
        rty = selft
    if tys and tys[0][0] == 'tuple' and len(tys) == 1 and args[0][0] == 'P':
        tys = None
    if args[0][0] == 'I' and rty[0] == 'adt' and rty[1] in INTS:
        return ret(st, args[0])
    if tyname(rty) in ('String', 'Vec', 'Box', 'Rc', 'Arc') and tys and tys[0][0] == 'ref':
        grow_alloc(I, fr, st, info, True, L(1), L(0))
        raise Unsupported('contents of ' + info['callee'])
    if tyname(rty) in ('NonNull', 'Unique') and args[0][0] == 'P':
        return ret(st, args[0])
    if tyname(rty) == 'TryReserveError':
        return ret(st, I.mk(('err',), rty))
    if tys and (rty == tys[0] or mir.loose_eq(rty, tys[0])):
        return ret(st, args[0])
    if tyname(rty) in ('Rc', 'Arc') and (not tys or tyname(tys[0]) == 'Box') and args[0][0] == 'P':
        # moves the value into a second allocation that holds the reference counts
        grow_alloc(I, fr, st, info, True, L(1), L(0))
        v = I.deref_val(st, args[0])
        I.store(st, args[0][1], args[0][2], X)
        return ret(st, ('A', tyname(rty), 0, (v,)))
    if tyname(rty) == 'Error' and tyname(tys[0]) == 'ErrorKind':
        return ret(st, I.mk(('ioerr', show(args[0])), rty))
    if tyname(rty) == 'Error' and 'io::' in rty[1] and not is_concrete_plain(tys[0]):
        grow_alloc(I, fr, st, info, True, L(1), L(0))
        return ret(st, I.mk(('ioerr', 'boxed'), rty))
    if info['callee'].endswith('into'):
        # Into is implemented through From
        return I.invoke_trait(fr, st, rty, ('adt', 'core::convert::From', (tys[0],)), 'from', (), args, tys, rty,
                              info['span'], '<%s as core::convert::From<%s>>::from' % (mir.show(rty), mir.show(tys[0])))
    return NotImplemented


def is_concrete_plain(t):
    return False


@tmodel(('TryInto', 'try_into'), ('TryFrom', 'try_from'))
def t_try_into(I, fr, st, selft, args, tys, rty, info):
    if args[0][0] == 'I' and tyname(rty) == 'Result' and rty[2][0][0] == 'adt' and rty[2][0][1] in INTS:
        lo, hi = INTS[rty[2][0][1]]
        if I.need_le(st, lo, args[0][1]) and I.need_le(st, args[0][1], hi):
            return ret(st, ok(args[0]))
        return ret(st, err(I.mk(('tryfromint',), rty[2][1])))
    if info['callee'].endswith('try_into'):
        tgt = rty[2][0]
        return I.invoke_trait(fr, st, tgt, ('adt', 'core::convert::TryFrom', (tys[0],)), 'try_from', (), args, tys, rty,
                              info['span'], '<%s as core::convert::TryFrom<_>>::try_from' % mir.show(tgt))
    return NotImplemented


@model('core::mem::size_of', 'core::mem::align_of', 'core::mem::size_of_val', 'core::mem::align_of_val')
def size_of(I, fr, st, args, tys, rty, info):
    t = info['margs'][0] if info['margs'] else ('raw', '?')
    return ret(st, ('I', I.layout_of(info['path'].rsplit('::', 1)[1], t)))


# ---------------------------------------------------------------- Try / closures / clone / default

@tmodel(('Try', 'branch'))
def try_branch(I, fr, st, selft, args, tys, rty, info):
    v = I.force(st, args[0])
    if v[1] == 'Result':
        if v[2] == 0:
            return ret(st, ('A', 'ControlFlow', 0, v[3]))
        return ret(st, ('A', 'ControlFlow', 1, (('A', 'Result', 1, v[3]),)))
    if v[1] == 'Option':
        if v[2] == 1:
            return ret(st, ('A', 'ControlFlow', 0, v[3]))
        return ret(st, ('A', 'ControlFlow', 1, (NONE,)))
    raise Unsupported('Try on ' + show(v))


@tmodel(('FromResidual', 'from_residual'))
def from_residual(I, fr, st, selft, args, tys, rty, info):
    v = I.force(st, args[0])
    if v[1] == 'Option':
        return ret(st, NONE)
    te = tys[0][2][1] if tys[0][0] == 'adt' and len(tys[0][2]) > 1 else None
    re_ = rty[2][1] if rty[0] == 'adt' and len(rty[2]) > 1 else None
    if te is None or re_ is None or te == re_ or mir.loose_eq(te, re_):
        return ret(st, ('A', 'Result', 1, v[3]))
    outs = []
    for o in t_from(I, fr, st, re_, [v[3][0]], [te], re_, dict(info, callee='from')) or []:
        outs.append((o[0], o[1], err(o[2])) if o[0] == 'ret' else o)
    return outs


@tmodel(('Try', 'from_output'))
def from_output(I, fr, st, selft, args, tys, rty, info):
    return ret(st, ok(args[0]) if tyname(rty) == 'Result' else some(args[0]))


@tmodel(('FnOnce', 'call_once'), ('FnMut', 'call_mut'), ('Fn', 'call'))
def fn_call(I, fr, st, selft, args, tys, rty, info):
    f = args[0]
    a = args[1]
    if a[0] != 'A' or a[1] != 'tuple':
        raise Unsupported('call args')
    at_ = list(tys[1][1]) if tys[1][0] == 'tuple' else []
    if f[0] == 'P':
        v = I.deref_val(st, f)
        while v[0] == 'P':
            f = v
            v = I.deref_val(st, f)
        return I.call_closure(fr, st, v, f, list(a[3]), at_, rty, info['span'])
    return I.call_value(fr, st, f, list(a[3]), at_, rty, info['span'])


@tmodel(('Clone', 'clone'), ('TryClone', 'try_clone'))
def t_clone(I, fr, st, selft, args, tys, rty, info):
    fallible = info['callee'].endswith('try_clone')
    v = I.deref_val(st, args[0])
    nm = tyname(selft)
    if not fallible:
        if v[0] in ('I', 'B', 'Fn') or selft[0] in ('ref', 'ptr') or selft in I.copy_types or v[0] == 'P' and (selft[0] == 'proj' or selft[0] == 'adt' and selft[1].endswith('::Item')):
            return ret(st, v)
        if v[0] == 'A' and v[1] in ('SliceIter', 'Range'):
            return ret(st, v)
        if v[0] == 'P' and nm in ('NonNull', 'Unique'):
            return ret(st, v)
        if nm == 'Option' or (v[0] == 'A' and v[1] in ('tuple',)) or nm in ('Peekable', 'Bound'):
            return clone_struct(I, fr, st, v, selft, args[0])
        if nm in ('Arc', 'Rc'):
            return ret(st, ('S', ('shared', v), selft))
    if I.is_param(selft):
        if v[0] == 'X':
            raise Bad('uninit', 'clone of an uninitialised value')
        I.stats['user_calls'] += 1
        if I.mon is not None:
            I.mon.on_user(I, fr, st, ('clone', fallible), args)
        c = clone_sym(I, v, selft)
        outs = [('ret', st, ok(c) if fallible else c), ('unw', st.copy(), None)]
        if fallible:
            e = st.copy()
            I.tick(e, 'failed')
            outs.append(('ret', e, err(I.mk(('cloneerr',), ('adt', 'alloc::collections::TryReserveError', ())))))
        return outs
    return NotImplemented


def clone_sym(I, v, t):
    return I.mk(('clone', v), t)


def clone_struct(I, fr, st, v, t, p):
    """derived-style clone of a std aggregate: clone each component"""
    v = I.force(st, v) if v[0] == 'S' else v
    if v[0] != 'A':
        raise Unsupported('clone of ' + show(v))
    tys = I.comp_tys(v, t) or [None] * len(v[3])
    cur = [('ret', st, ())]
    for i, f in enumerate(v[3]):
        nxt = []
        for k, s, acc in cur:
            if k != 'ret':
                nxt.append((k, s, acc))
                continue
            ft = tys[i] if i < len(tys) and tys[i] is not None else I.guess_ty(f)
            if f[0] == 'P' and ft is not None and ft[0] != 'adt':
                ft = ('ref',)
            if f[0] in ('I', 'B') or ft is None or ft[0] == 'ref':
                nxt.append((k, s, acc + (f,)))
                continue
            o = I.alloc(s, f, 'tmp')
            for r in I.invoke_trait(fr, s, ft, ('adt', 'core::clone::Clone', ()), 'clone', (), [('P', o, ())],
                                    [('ref', False, ft)], ft, '', '<_ as core::clone::Clone>::clone'):
                nxt.append((r[0], r[1], acc + (r[2],)) if r[0] == 'ret' else r)
        cur = nxt
    return [('ret', s, ('A', v[1], v[2], acc)) if k == 'ret' else (k, s, None) for k, s, acc in cur]


@tmodel(('Default', 'default'))
def t_default(I, fr, st, selft, args, tys, rty, info):
    nm = tyname(rty)
    if nm == 'Vec':
        return ret(st, new_vec(I, st))
    if nm == 'HashMap':
        I.rng[('logcap',)] = (2**62, 2**63)
        return ret(st, hm_new(I, fr, st))
    if nm == 'String':
        return ret(st, ('A', 'String', 0, (new_vec(I, st, ('adt', 'Vec', (('adt', 'u8', ()),))),)))
    if rty[0] == 'adt' and rty[1] in INTS:
        return ret(st, I_(0))
    if nm == 'bool':
        return ret(st, FALSE)
    if nm == 'Option':
        return ret(st, NONE)
    if rty == ('tuple', ()):
        return ret(st, UNIT)
    return NotImplemented


def as_seq(I, st, p):
    for _ in range(4):
        if p[0] == 'P':
            p = I.deref_val(st, p)
        elif p[0] == 'A' and p[1] == 'Vec':
            return ('F', p[3][2], p[3][0][1])
        elif p[0] == 'AR':
            return p
        elif p[0] == 'F':
            return p
        elif p[0] == 'S' and p[2][0] in ('ref', 'ptr'):
            p = I.asref(st, p)
        else:
            break
    if p[0] == 'S' and p[2][0] == 'array':
        return ('S', p[1], p[2])
    return None


def seq_val(I, st, s):
    if s[0] == 'F':
        segs, n = slice_segs(I, st, s)
        return ('seq', segs, n)
    if s[0] == 'AR':
        return ('seq', s[1], s[1][-1][1] if s[1] else L(0))
    return ('seq', s[1])


def seq_eq(I, fr, st, a, b, op):
    """element-wise comparison of two sequences: an uninterpreted symbol of both contents"""
    try:
        x, y = as_seq(I, st, a), as_seq(I, st, b)
    except (Unsupported, Bad):
        return None
    if x is None or y is None:
        return None
    k = ('sym', ('seqeq', seq_val(I, st, x), seq_val(I, st, y)))
    outs = [('ret', st, ('B', k if op == 'eq' else ('not', k)))]
    outs.append(('unw', st.copy(), None))
    return outs


# 2: not comparable
CMP_OPS = {'eq': lambda o: o == 0, 'ne': lambda o: o != 0, 'lt': lambda o: o < 0, 'le': lambda o: o <= 0,
           'gt': lambda o: o == 1, 'ge': lambda o: o in (0, 1)}


UNIT_T = ('tuple', ())


def tuple_cmp(I, fr, st, op, a, b, t, info):
    """lexicographic comparison of two tuples of references (of 2 components): outcomes ('ret', st, value of the operation)"""
    if t[0] not in ('tuple', 'proj', 'raw'):
        return None
    va, vb = I.deref_val(st, a), I.deref_val(st, b)
    if t[0] != 'tuple' and va[0] == 'A' and va[1] == 'tuple' and all(x[0] == 'P' and not x[2] and x[1][0] == 'o' for x in va[3]):
        t = ('tuple', tuple(('ref', False, x[1][2]) for x in va[3]))        # an associated type: by the value at hand
    if t[0] != 'tuple' or not t[1]:
        return None
    if va[0] != 'A' or vb[0] != 'A' or len(va[3]) != len(t[1]) or any(x[0] != 'P' for x in va[3] + vb[3]):
        return None
    pairs = [(x, y, u) for x, y, u in zip(va[3], vb[3], t[1]) if u != ('ref', False, UNIT_T)]
    if not pairs or not all(u[0] == 'ref' and I.is_param(u[2]) for x, y, u in pairs):
        return None
    sub = {'eq': 'eq', 'ne': 'eq', 'cmp': 'cmp'}.get(op, 'partial_cmp')
    tr = 'PartialEq' if sub == 'eq' else 'Ord' if sub == 'cmp' else 'PartialOrd'
    outs = []

    def go(st, i):
        x, y, u = pairs[i]
        u = u[2]
        nfo = dict(info, callee='core::cmp::%s::%s' % (tr, sub), trait=tr)
        r = (t_eq if sub == 'eq' else t_cmp)(I, fr, st, u, [x, y], [('ref', False, u)] * 2, None, nfo)
        if r is NotImplemented:
            raise Unsupported('comparison of tuples')
        for o in r:
            if o[0] != 'ret':
                outs.append(o)
                continue
            v = o[2]
            if sub == 'eq':
                if v[0] != 'B' or not isinstance(v[1], bool):
                    raise Unsupported('comparison of tuples')
                same = v[1]
            elif sub == 'cmp':
                same = v[0] == 'A' and v[2] == eqv or v[0] != 'A' and None
            else:
                same = v[0] == 'A' and v[2] == 1 and v[3][0][2] == eqv or v[0] != 'A' and None
            if same is None:
                raise Unsupported('comparison of tuples')
            if same and i + 1 < len(pairs):
                go(o[1], i + 1)
            elif op in ('lt', 'le', 'gt', 'ge'):
                x = 2 if v[2] == 0 else ORDS[v[3][0][2]]
                outs.append(('ret', o[1], ('B', CMP_OPS[op](x))))
            elif op == 'ne':
                outs.append(('ret', o[1], ('B', not v[1])))
            else:
                outs.append(('ret', o[1], v))
    ORDS = {I.vindex('Ordering', n): i - 1 for i, n in enumerate(('Less', 'Equal', 'Greater'))}
    eqv = I.vindex('Ordering', 'Equal')
    go(st, 0)
    return outs


def opt_cmp(I, fr, st, op, a, b, t, info):
    """comparison of two options: None before Some, two Somes as their contents"""
    if tyname(t) != 'Option':
        return None
    va, vb = I.force(st, I.deref_val(st, a)), I.force(st, I.deref_val(st, b))
    if va[0] != 'A' or vb[0] != 'A':
        return None
    d = (va[2] > vb[2]) - (va[2] < vb[2])
    if d or not va[3]:
        if op in CMP_OPS:
            return ret(st, ('B', CMP_OPS[op](d)))
        v = ('A', 'Ordering', I.vindex('Ordering', ('Less', 'Equal', 'Greater')[d + 1]), ())
        return ret(st, some(v) if op == 'partial_cmp' else v)
    u = t[2][0] if len(t) > 2 and t[2] else None
    if u is None:
        return None
    if u[0] in ('ref', 'proj') and va[3][0][0] == 'P' and vb[3][0][0] == 'P':
        x, y = va[3][0], vb[3][0]
        u = u[2] if u[0] == 'ref' else x[1][2] if x[1][0] == 'o' and not x[2] else u
    else:
        return None
    nfo = dict(info, callee='%s::%s' % (info['trait'], op))
    r = (t_cmp if op in ('cmp', 'partial_cmp') else t_eq)(I, fr, st, u, [x, y], [('ref', False, u)] * 2, None, nfo)
    return None if r is NotImplemented else r


@tmodel(('PartialEq', 'eq'), ('PartialEq', 'ne'), ('PartialOrd', 'lt'), ('PartialOrd', 'le'), ('PartialOrd', 'gt'),
        ('PartialOrd', 'ge'))
def t_eq(I, fr, st, selft, args, tys, rty, info):
    op = info['callee'].rsplit('::', 1)[1]
    a, b = args
    va, vb = a, b
    t = selft
    if op in ('eq', 'ne'):
        r = seq_eq(I, fr, st, a, b, op)
        if r is not None:
            return r
    try:
        va, vb = I.deref_val(st, a), I.deref_val(st, b)
        pa, pb = a, b
        while va[0] == 'P' and vb[0] == 'P' and (t[0] == 'ref' or t[0] == 'proj'):
            # (an associated type that turns out to be a pointer: the item of an iterator over references)
            pa, pb = va, vb
            t = t[2] if t[0] == 'ref' else va[1][2] if va[1][0] == 'o' and not va[2] else t
            va, vb = I.deref_val(st, va), I.deref_val(st, vb)
    except (Unsupported, Bad):
        return NotImplemented
    r = tuple_cmp(I, fr, st, op, pa, pb, t, info) or opt_cmp(I, fr, st, op, pa, pb, t, info)
    if r is not None:
        return r
    if t == UNIT_T:
        return ret(st, ('B', CMP_OPS[op](0)))
    if va[0] == 'I' and vb[0] == 'I' or va[0] == 'B' or (va[0] == 'P' and vb[0] == 'P' and t[0] != 'ref'):
        o = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[op]
        return ret(st, I.binop(fr, st, o, va, vb, t))
    if op in ('eq', 'ne') and tyname(t) in ('Ordering', 'Option', 'Result') or \
            (va[0] == 'A' and vb[0] == 'A' and isinstance(va[1], str) and not va[3] and not vb[3]):
        va, vb = I.force(st, va), I.force(st, vb)
        if va[0] == 'A' and vb[0] == 'A' and not va[3] and not vb[3]:
            return ret(st, ('B', (va[2] == vb[2]) == (op == 'eq')))
        if va[0] == 'A' and vb[0] == 'A' and va[2] != vb[2] and op in ('eq', 'ne'):
            return ret(st, ('B', op == 'ne'))
    if t != selft and not I.is_param(t):
        f, env = I.find_impl(t, info['trait'], tyname(info['trait']), op)
        if f is not None:
            pass
    if I.is_param(t):
        I.stats['user_calls'] += 1
        if I.mon is not None:
            r = I.mon.on_user(I, fr, st, ('cmp', op), args)
            if r is not None:
                return r
        o = I.order(st, va, vb)
        if o is not None:
            return [('ret', s, ('B', CMP_OPS[op](x))) for s, x in o] + [('unw', st.copy(), None)]
        return [('ret', st, ('B', ('sym', (op, va, vb)))), ('unw', st.copy(), None)]
    if op == 'ne' and t == selft:
        # the provided method: not eq
        if I.find_impl(t, info['trait'], 'PartialEq', 'ne')[0] is None:
            f, env = I.find_impl(t, info['trait'], 'PartialEq', 'eq')
            if f is not None:
                outs = []
                for o in I.run_local(fr, st, f, env, args, None, info['callee'][:-2] + 'eq', tys, rty):
                    if o[0] != 'ret':
                        outs.append(o)
                    elif o[2][0] != 'B':
                        return NotImplemented
                    else:
                        b = o[2][1]
                        outs.append(('ret', o[1], ('B', not b if isinstance(b, bool) else ('not', b))))
                return outs
    return NotImplemented


@tmodel(('Ord', 'cmp'), ('PartialOrd', 'partial_cmp'))
def t_cmp(I, fr, st, selft, args, tys, rty, info):
    t = selft
    try:
        pa, pb = args
        va, vb = I.deref_val(st, pa), I.deref_val(st, pb)
        while t[0] == 'ref' or t[0] == 'proj' and va[0] == 'P' and vb[0] == 'P':
            pa, pb = va, vb
            t = t[2] if t[0] == 'ref' else va[1][2] if va[1][0] == 'o' and not va[2] else t
            va, vb = I.deref_val(st, va), I.deref_val(st, vb)
    except (Unsupported, Bad):
        return NotImplemented
    op = info['callee'].rsplit('::', 1)[1]
    r = tuple_cmp(I, fr, st, op, pa, pb, t, info) or opt_cmp(I, fr, st, op, pa, pb, t, info)
    if r is not None:
        return r
    partial = info['callee'].endswith('partial_cmp')
    if t == UNIT_T:
        v = ('A', 'Ordering', I.vindex('Ordering', 'Equal'), ())
        return ret(st, some(v) if partial else v)
    if va[0] == 'I' and vb[0] == 'I':
        r = I.binop(fr, st, 'Cmp', va, vb, t)
        return ret(st, some(r) if partial else r)
    if I.is_param(t):
        I.stats['user_calls'] += 1
        if I.mon is not None:
            r = I.mon.on_user(I, fr, st, ('cmp', 'cmp'), args)
            if r is not None:
                return r
        o = I.order(st, va, vb)
        if o is not None:
            out = [('unw', st.copy(), None)]
            for s, x in o:
                if x == 2:
                    if partial:
                        out.append(('ret', s, NONE))
                    continue
                v = ('A', 'Ordering', I.vindex('Ordering', ('Less', 'Equal', 'Greater')[x + 1]), ())
                out.append(('ret', s, some(v) if partial else v))
            return out
        return [('ret', st, ('S', ('cmp', va, vb), rty)), ('unw', st.copy(), None)]
    return NotImplemented


# ---------------------------------------------------------------- panics, misc

@model('core::panicking::panic', 'core::panicking::panic_fmt', 'std::rt::begin_panic', 'core::panicking::panic_display',
       'core::panicking::unreachable_display', 'core::panicking::assert_failed', 'core::option::expect_failed',
       'core::result::unwrap_failed', 'core::panicking::panic_explicit', 'core::panicking::panic_bounds_check',
       'core::panicking::panic_nounwind', 'alloc::alloc::handle_alloc_error', 'std::process::abort',
       'prelude::__panic', '__panic', 'core::panicking::panic_const_add_overflow', 'core::panicking::assert_failed_inner',
       'core::option::unwrap_failed')
def panic(I, fr, st, args, tys, rty, info):
    I.on_panic(fr, st, info['path'])
    return [('unw', st, None)]


@model('core::hint::unreachable_unchecked', 'core::intrinsics::unreachable')
def unreachable(I, fr, st, args, tys, rty, info):
    raise Bad('unreachable', 'reaches unreachable_unchecked')


@model('core::option::Option::unwrap_unchecked', 'core::result::Result::unwrap_unchecked')
def unwrap_unchecked(I, fr, st, args, tys, rty, info):
    v = I.force(st, args[0])
    good = 1 if v[1] == 'Option' else 0
    if v[2] != good:
        raise Bad('unreachable', 'unwrap_unchecked of ' + show(v))
    return ret(st, v[3][0])


@model('core::hint::assert_unchecked', 'core::intrinsics::assume')
def assume(I, fr, st, args, tys, rty, info):
    return ret(st)


@model('core::fmt::Arguments::new_const', 'core::fmt::Arguments::new_v1', 'core::fmt::rt::Argument::none',
       'core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug', 'core::fmt::Arguments::new_v1_formatted')
def fmt_args(I, fr, st, args, tys, rty, info):
    return ret(st, ('A', 'Arguments', 0, ()))


@model('core::str::trim', 'core::str::trim_start', 'core::str::trim_end')
def str_part(I, fr, st, args, tys, rty, info):
    k = args[0][3][0] if args[0][0] == 'A' and args[0][1] == 'str' else args[0]
    return ret(st, ('A', 'str', 0, (('S', (info['path'].split('::')[-1], k), ('adt', 'str', ())),)))


@model('core::fmt::Arguments::as_str')
def fmt_as_str(I, fr, st, args, tys, rty, info):
    a = I.deref_val(st, args[0]) if args[0][0] == 'P' else args[0]
    q = ('sym', ('literal', a))
    t = I.truth(st, q)
    if t is None:
        raise NeedFork([q, pnot(q)])
    return ret(st, some(('A', 'str', 0, (('S', ('literal', a), ('adt', 'str', ())),))) if t else NONE)


@model('core::alloc::Layout::new', 'core::alloc::Layout::for_value', 'core::alloc::Layout::array')
def layout_new(I, fr, st, args, tys, rty, info):
    t = info['margs'][0] if info['margs'] else ('raw', '?')
    return ret(st, ('A', 'Layout', 0, (('S', ('layout', mir.show(t)), t),)))


@model('core::any::type_name')
def type_name(I, fr, st, args, tys, rty, info):
    return ret(st, ('A', 'str', 0, (('S', ('tn',), ('adt', 'str', ())),)))


# ---------------------------------------------------------------- shared pointers

@model('alloc::rc::Rc::try_new', 'alloc::sync::Arc::try_new')
def shared_try_new(I, fr, st, args, tys, rty, info):
    grow_alloc(I, fr, st, info, False, L(1), L(0))
    e = st.copy()
    I.tick(e, 'failed')
    outs = []
    for o in drop_value(I, fr, e, args[0], tys[0]):
        if o[0] == 'ret':
            outs.append(('ret', o[1], err(I.mk(('allocerr',), rty[2][1] if len(rty[2]) > 1 else ('raw', '?')))))
        else:
            outs.append(('unw', o[1], None))
    outs.append(('ret', st, ok(('A', info['path'].split('::')[-2], 0, (args[0],)))))
    return outs


@model('alloc::rc::Rc::new', 'alloc::sync::Arc::new')
def shared_new(I, fr, st, args, tys, rty, info):
    grow_alloc(I, fr, st, info, True, L(1), L(0))
    return ret(st, ('A', info['path'].split('::')[-2], 0, (args[0],)))


@model('alloc::boxed::Box::new', 'alloc::boxed::Box::pin')
def box_new(I, fr, st, args, tys, rty, info):
    grow_alloc(I, fr, st, info, True, L(1), L(0))
    return ret(st, ('P', I.alloc(st, args[0]), ()))


@model('alloc::boxed::Box::try_new')
def box_try_new(I, fr, st, args, tys, rty, info):
    grow_alloc(I, fr, st, info, False, L(1), L(0))
    e = st.copy()
    I.tick(e, 'failed')
    outs = []
    for o in drop_value(I, fr, e, args[0], tys[0]):
        if o[0] == 'ret':
            outs.append(('ret', o[1], err(I.mk(('allocerr',), rty[2][1] if len(rty[2]) > 1 else ('raw', '?')))))
        else:
            outs.append(('unw', o[1], None))
    outs.append(('ret', st, ok(('P', I.alloc(st, args[0]), ()))))
    return outs


def drop_value(I, fr, st, v, ty):
    """drop an owned value that is not in a place"""
    o = I.alloc(st, v, 'tmp')
    return I.drop_place(fr, st, ('P', o, ()), ty)


# ---------------------------------------------------------------- strings

@model('alloc::string::String::new')
def string_new(I, fr, st, args, tys, rty, info):
    return ret(st, ('A', 'String', 0, (vec_new(I, fr, st, [], [], rty, info)[0][2],)))


@model('alloc::string::String::with_capacity')
def string_with_capacity(I, fr, st, args, tys, rty, info):
    return [(o[0], o[1], ('A', 'String', 0, (o[2],))) for o in vec_with_capacity(I, fr, st, args, tys, rty, info)]


@model('alloc::string::String::from_utf8', 'alloc::string::String::from_utf8_unchecked')
def string_from_utf8(I, fr, st, args, tys, rty, info):
    v = args[0]
    s = ('A', 'String', 0, (v,))
    if info['path'].endswith('unchecked'):
        return ret(st, s)
    if I.need_le(st, v[3][0][1], 0):
        return ret(st, ok(s))
    return [('ret', st, ok(s)), ('ret', st.copy(), err(I.mk(('utf8err',), rty[2][1])))]


@model('alloc::string::String::try_reserve', 'alloc::string::String::try_reserve_exact', 'alloc::string::String::reserve')
def string_reserve(I, fr, st, args, tys, rty, info):
    p = ('P', args[0][1], args[0][2] + (0,))
    f = vec_reserve if info['path'].endswith('::reserve') else vec_try_reserve
    return f(I, fr, st, [p, args[1]], tys, rty, info)


@model('alloc::string::String::len', 'alloc::string::String::capacity', 'alloc::string::String::is_empty')
def string_len(I, fr, st, args, tys, rty, info):
    p = ('P', args[0][1], args[0][2] + (0,))
    return vec_len(I, fr, st, [p], tys, rty, dict(info, path=info['path'].replace('string::String', 'vec::Vec')))


@model('alloc::string::String::push_str')
def string_push_str(I, fr, st, args, tys, rty, info):
    p = ('P', args[0][1], args[0][2] + (0,))
    b = as_bytes(I, fr, st, [args[1]], tys[1:], rty, info)[0][2]
    return vec_extend_from_slice(I, fr, st, [p, b], [('ref', True, ('adt', 'alloc::vec::Vec', (('adt', 'u8', ()),)))],
                                 rty, info)


@tmodel(('Write', 'write_fmt'), ('Write', 'write_str'))
def write_fmt(I, fr, st, selft, args, tys, rty, info):
    if tyname(selft) != 'String':
        return NotImplemented
    p = ('P', args[0][1], args[0][2] + (0,))
    if info['callee'].endswith('write_str'):
        outs = string_push_str(I, fr, st, args, tys, rty, info)
        return [(o[0], o[1], ok(UNIT) if o[0] == 'ret' else None) for o in outs]
    # the formatting machinery: user Display code runs, text is appended, growth is infallible
    n, c, b = vec_parts(I, st, p)
    I.stats['user_calls'] += 1
    k = I.tick(st, 'write_fmt')
    if I.mon is not None:
        I.mon.on_user(I, fr, st, 'write_fmt', args)
        I.mon.on_alloc(I, fr, st, info['callee'], 'grows when the text exceeds the capacity', None)
    add = V(('fmtlen', args[1], k))
    I.rng[('fmtlen', args[1], k)] = (0, 2**63 - 1)
    c2 = I.fresh('cap')
    fact(I, st, c2 - n - add)
    fact(I, st, c2 - c)
    segs = I.ar_get(st, bufar(I, st, b), L(0), n)
    txt = ('I', V(('fmtbyte', args[1], k, VIDX - n)))
    segs = segs + ((n, n + add, txt), (n + add, c2, X))
    nb = buf_new(I, st, segs)
    if b[1][0] in ('h', 'o'):
        st.mem[b[1]] = ('DEAD',)
    set_vec(I, st, p, n + add, c2, nb)
    e = st.copy()
    I.tick(e, 'fmterr')
    return [('ret', st, ok(UNIT)), ('ret', e, err(I.mk(('fmterr',), rty[2][1]))), ('unw', st.copy(), None)]


# ---------------------------------------------------------------- std::io

@model('std::io::Error::new', 'std::io::Error::other')
def io_error_new(I, fr, st, args, tys, rty, info):
    grow_alloc(I, fr, st, info, True, L(1), L(0))
    return ret(st, I.mk(('ioerr', 'boxed'), rty))


@model('std::io::Take::get_mut', 'std::io::Take::get_ref', 'std::io::Take::into_inner')
def take_inner(I, fr, st, args, tys, rty, info):
    v = I.deref_val(st, args[0]) if args[0][0] == 'P' else args[0]
    if v[0] == 'A' and v[1] == 'Take':
        return ret(st, v[3][0]) if args[0][0] != 'P' else ret(st, ('P', args[0][1], args[0][2] + (0,)))
    return ret(st, I.mk(('takeinner', args[0]), rty))


@model('std::io::Take::limit')
def take_limit(I, fr, st, args, tys, rty, info):
    v = I.deref_val(st, args[0])
    if v[0] == 'A' and v[1] == 'Take':
        return ret(st, v[3][1])
    return ret(st, I.mk(('takelimit', args[0]), rty))


@tmodel(('Read', 'take'))
def read_take(I, fr, st, selft, args, tys, rty, info):
    return ret(st, ('A', 'Take', 0, (args[0], args[1])))


@tmodel(('Read', 'by_ref'))
def read_by_ref(I, fr, st, selft, args, tys, rty, info):
    return ret(st, args[0])


@tmodel(('Read', 'read_to_end'), ('Read', 'read'), ('Read', 'read_exact'))
def read_to_end(I, fr, st, selft, args, tys, rty, info):
    """appends some bytes of the source; every growth inside std is a try_reserve"""
    if not info['callee'].endswith('read_to_end'):
        return NotImplemented
    lim = None
    if tyname(selft) == 'Take':
        v = I.deref_val(st, args[0])
        if v[0] == 'A' and v[1] == 'Take':
            lim = v[3][1][1]
            srcv = v[3][0]
        else:
            lim = V(('takelimit', args[0]))
            srcv = v
    else:
        srcv = args[0]
    n, c, b = vec_parts(I, st, args[1])
    k = I.tick(st, 'read')
    if I.mon is not None:
        I.mon.on_user(I, fr, st, 'read_to_end', (srcv, lim, n, c))
    outs = []
    for how in ('ret', 'err', 'unw'):
        s = st.copy()
        a = ('nread', how, k)
        I.rng[a] = (0, 2**63 - 1)
        m = V(a)
        if lim is not None:
            s.facts = s.facts.add_ge(L(lim) - m, I.nn)
            if s.facts is None:
                continue
        c2 = I.fresh('cap')
        s.facts = s.facts.add_ge(c2 - n - m, I.nn)
        s.facts = s.facts and s.facts.add_ge(c2 - c, I.nn)
        if s.facts is None:
            continue
        segs = I.ar_get(s, bufar(I, s, b), L(0), n)
        segs = I.ar_norm(s, segs + ((n, n + m, ('I', V(('readbyte', k, VIDX - n)))), (n + m, c2, X)))
        if b[1][0] in ('h', 'o'):
            s.mem[b[1]] = ('DEAD',)
        nb = buf_new(I, s, segs)
        set_vec(I, s, args[1], n + m, c2, nb)
        if how == 'ret':
            outs.append(('ret', s, ok(('I', m))))
        elif how == 'err':
            I.tick(s, 'ioerror')
            outs.append(('ret', s, err(I.mk(('readerr', k), rty[2][1]))))
        else:
            outs.append(('unw', s, None))
    return outs


@model('alloc::slice::into_vec', 'core::slice::into_vec')
def slice_into_vec(I, fr, st, args, tys, rty, info):
    v = args[0]
    if v[0] == 'F':
        return ret(st, ('A', 'Vec', 0, (('I', v[2]), ('I', v[2]), v[1])))
    raise Unsupported('into_vec of ' + show(v))


# ---------------------------------------------------------------- hash maps (std and hashbrown)
# ('A', 'HashMap', 0, (len, capacity, base, log)); log is a Vec of events on top of the opaque base map

def HM(*ms):
    return [x for m in ms for x in ('std::collections::HashMap::' + m, 'hashbrown::HashMap::' + m,
                                    'std::collections::hash_map::HashMap::' + m, 'hashbrown::hash_map::HashMap::' + m)]


def hm_new(I, fr, st, cap=None):
    log = ('A', 'Vec', 0, (I_(0), ('I', V(('logcap',))), buf_new(I, st, ((L(0), V(('logcap',)), X),))))
    return ('A', 'HashMap', 0, (I_(0), cap or I_(0), ('A', 'nobase', 0, ()), log))


def hm_parts(I, st, p):
    v = I.deref_val(st, p)
    if v[0] == 'X':
        raise Bad('moved', 'use of a moved map')
    if v[0] == 'S':
        v = hm_sym(I, st, v)
        I.put(st, p, v)
    if v[0] != 'A' or v[1] != 'HashMap':
        raise Unsupported('not a HashMap: ' + show(v))
    return v


def hm_sym(I, st, v):
    key = v[1]
    I.rng[('logcap',)] = (2**62, 2**63)
    o = ('o', ('hmlog', key), ('slice', ('raw', 'ev')))
    st.mem[o] = ('AR', ((L(0), V(('logcap',)), X),))
    return ('A', 'HashMap', 0, (('I', V(('hmlen', key))), ('I', V(('hmcap', key))), v,
                                ('A', 'Vec', 0, (I_(0), ('I', V(('logcap',))), ('P', o, (('i', L(0)),))))))


def hm_log(I, st, p, ev):
    v = hm_parts(I, st, p)
    lg = v[3][3]
    n, c, b = lg[3][0][1], lg[3][1][1], lg[3][2]
    I.rng[('logcap',)] = (2**62, 2**63)
    ar = I.load_obj(st, b[1])
    fact(I, st, c - n - 1)       # the ghost log never fills up
    st.mem[b[1]] = ('AR', I.ar_norm(st, I.ar_get(st, ar, L(0), n) + ((n, n + 1, ev), (n + 1, c, X))))
    fs = list(v[3])
    fs[3] = ('A', 'Vec', 0, (('I', n + 1), lg[3][1], b))
    I.put(st, p, ('A', 'HashMap', 0, tuple(fs)))
    return n


def hm_set(I, st, p, i, x):
    v = hm_parts(I, st, p)
    fs = list(v[3])
    fs[i] = x
    I.put(st, p, ('A', 'HashMap', 0, tuple(fs)))


@model(*HM('new', 'with_hasher'))
def hm_new_m(I, fr, st, args, tys, rty, info):
    I.rng[('logcap',)] = (2**62, 2**63)
    return ret(st, hm_new(I, fr, st))


@model(*HM('with_capacity', 'with_capacity_and_hasher'))
def hm_with_capacity(I, fr, st, args, tys, rty, info):
    grow_alloc(I, fr, st, info, True, args[0][1], L(0))
    I.rng[('logcap',)] = (2**62, 2**63)
    c = I.fresh('cap')
    fact(I, st, c - args[0][1])
    return ret(st, hm_new(I, fr, st, ('I', c)))


@model(*HM('len', 'is_empty', 'capacity'))
def hm_len(I, fr, st, args, tys, rty, info):
    v = hm_parts(I, st, args[0])
    if info['path'].endswith('capacity'):
        return ret(st, v[3][1])
    if info['path'].endswith('is_empty'):
        return ret(st, ('B', peq(v[3][0][1])))
    return ret(st, v[3][0])


@model(*HM('try_reserve'))
def hm_try_reserve(I, fr, st, args, tys, rty, info):
    v = hm_parts(I, st, args[0])
    n, c = v[3][0][1], v[3][1][1]
    add = args[1][1]
    if I.need_le(st, n + add, c):
        return ret(st, ok(UNIT))
    grow_alloc(I, fr, st, info, False, add, c)
    e = st.copy()
    I.tick(e, 'failed')
    outs = [('ret', e, err(I.mk(('reserve_err_hm',), rty[2][1])))]
    # rehashing runs the user's Hash implementation
    outs.append(('unw', st.copy(), None))
    if I.need_le(st, n + add, MAXU):
        c2 = I.fresh('cap')
        fact(I, st, c2 - n - add)
        hm_set(I, st, args[0], 1, ('I', c2))
        outs.append(('ret', st, ok(UNIT)))
    return outs


def hm_room(I, fr, st, p, info):
    v = hm_parts(I, st, p)
    if not I.need_le(st, v[3][0][1] + 1, v[3][1][1]):
        grow_alloc(I, fr, st, info, True, L(1), v[3][1][1])
        c2 = I.fresh('cap')
        fact(I, st, c2 - v[3][0][1] - 1)
        hm_set(I, st, p, 1, ('I', c2))


@model(*HM('reserve'))
def hm_reserve(I, fr, st, args, tys, rty, info):
    grow_alloc(I, fr, st, info, True, args[1][1], L(0))
    c2 = I.fresh('cap')
    hm_set(I, st, args[0], 1, ('I', c2))
    return ret(st)


@model(*HM('insert'))
def hm_insert(I, fr, st, args, tys, rty, info):
    has = hm_has(I, st, args[0], args[1])
    hm_room(I, fr, st, args[0], info)
    v = hm_parts(I, st, args[0])
    u = st.copy()
    n = hm_log(I, st, args[0], ('A', 'ins', 0, (args[1], args[2])))
    v = hm_parts(I, st, args[0])
    k = V(('hmlenat', v[3][2], n + 1))
    fact(I, st, k - v[3][0][1])
    fact(I, st, v[3][0][1] + 1 - k)
    fact(I, st, v[3][1][1] - k)
    fact(I, st, k - 1)
    hm_set(I, st, args[0], 0, ('I', k))
    return [('ret', st, some(hm_old(I, n, rty, 0)) if has else NONE), ('unw', u, None)]


def hm_has(I, st, p, k):
    """is the key present in the map as it is now; both cases are explored"""
    v = hm_parts(I, st, p)
    q = ('sym', ('hm_has', v[3][2], v[3][3][3][0][1], k))
    t = I.truth(st, q)
    if t is None:
        from .interp import NeedFork
        raise NeedFork([q, pnot(q)])
    return t


def hm_old(I, n, rty, i):
    t = rty[2][0] if rty[0] == 'adt' and rty[2] else ('raw', '?')
    return I.mk(('hm_old', n, i), t)


@model(*HM('remove', 'remove_entry'))
def hm_remove(I, fr, st, args, tys, rty, info):
    has = hm_has(I, st, args[0], args[1])
    v = hm_parts(I, st, args[0])
    u = st.copy()
    n = hm_log(I, st, args[0], ('A', 'rem', 0, (args[1],)))
    k = V(('hmlenat', v[3][2], n + 1))
    fact(I, st, v[3][0][1] - k)
    hm_set(I, st, args[0], 0, ('I', k))
    r = NONE
    if has:
        ts = rty[2][0] if rty[0] == 'adt' and rty[2] else ('raw', '?')
        if info['path'].endswith('_entry'):
            ts = ts[1] if ts[0] == 'tuple' else (('raw', '?'),) * 2
            r = some(tup(I.mk(('hm_old', n, 1), ts[0]), I.mk(('hm_old', n, 0), ts[1])))
        else:
            r = some(I.mk(('hm_old', n, 0), ts))
    return [('ret', st, r), ('unw', u, None)]


@model(*HM('get', 'get_mut', 'contains_key', 'get_key_value'))
def hm_get(I, fr, st, args, tys, rty, info):
    v = hm_parts(I, st, args[0])
    how = info['path'].split('::')[-1]
    t = hm_has(I, st, args[0], args[1])
    k = (v[3][2], v[3][3][3][0][1], args[1])
    if how == 'contains_key':
        r = ('B', t)
    elif not t:
        r = NONE
    else:
        ty = tys[0]
        while ty[0] in ('ref', 'ptr'):
            ty = ty[2]
        kp = ('P', ('o', ('hm_key',) + k, ty[2][0]), ())
        vp = ('P', ('o', ('hm_val',) + k, ty[2][1]), ())
        r = some(tup(kp, vp) if how == 'get_key_value' else vp)
    return [('ret', st, r), ('unw', st.copy(), None)]


@model(*HM('iter', 'iter_mut', 'keys', 'values', 'into_iter', 'drain', 'values_mut', 'into_keys', 'into_values'))
def hm_iter(I, fr, st, args, tys, rty, info):
    return hm_iter_of(I, fr, st, args[0], tys[0], info['path'].split('::')[-1])


def hm_iter_of(I, fr, st, p, ty, how):
    while ty[0] in ('ref', 'ptr'):
        ty = ty[2]
    v = hm_parts(I, st, p) if p[0] == 'P' else p
    if v[0] == 'S':
        v = hm_sym(I, st, v)
    if v[3][2][0] != 'S' or not I.need_eq(st, v[3][3][3][0][1], 0):
        raise Unsupported('iteration of a modified map')
    key = v[3][2][1]
    kt, vt = ty[2][0], ty[2][1]
    kp = ('P', ('o', ('hmk', key, VIDX), kt), ())
    vp = ('P', ('o', ('hmv', key, VIDX), vt), ())
    if how in ('iter', 'iter_mut'):
        el = tup(kp, vp)
    elif how == 'keys':
        el = kp
    elif how in ('values', 'values_mut'):
        el = vp
    elif how == 'into_iter' and p[0] != 'P':
        el = tup(I.mk(('*', ('hmk', key, VIDX)), kt), I.mk(('*', ('hmv', key, VIDX)), vt))
    else:
        raise Unsupported('HashMap::' + how)
    n = v[3][0][1]
    b = buf_new(I, st, ((L(0), n, el),))
    return ret(st, ('A', 'VecIntoIter', 0, (b, I_(0), ('I', n))))


@model(*HM('entry', 'clear', 'retain', 'extend', 'shrink_to_fit', 'clone'))
def hm_un(I, fr, st, args, tys, rty, info):
    raise Unsupported('no model for ' + info['path'])
