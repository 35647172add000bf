"""Box / Rc / Arc / TryClone / HashMap / tryformat / std_io cases."""
from .common import *
from .vec import surface, vec_mem, expect, old, seg, F, FC, FX, T, clones_of, std, tv

BX = {'alloc': 'C01', 'surface': 'C02', 'effect': 'C08', 'mem': 'C08', 'own': 'C08'}
ALL = ('unstable_io', 'std_io')


def unwrap1(v):
    while v[0] == 'A' and v[1] in ('TryBox', 'ManuallyDrop', 'Unique', 'NonNull') and len(v[3]) == 1:
        v = v[3][0]
    return v


def box_holds(I, s, p, want, facet='effect'):
    """the box p owns a live allocation of exactly one cell that holds `want`"""
    p = unwrap1(p)
    if p[0] != 'P':
        raise Unsupported('not a box: ' + show(p))
    if p[1][0] != 'h':
        return [(facet, 'the box does not own a fresh allocation')]
    v = I.load(s, p[1], p[2])
    m = None
    if v != want:
        m = 'the box does not hold the given value :: ' + show(v)
    ar = s.mem[p[1]]
    if m is None and ar[0] == 'AR' and not (len(ar[1]) == 1 and I.need_eq(s, ar[1][0][1] - ar[1][0][0], 1)):
        m = 'the box owns an allocation whose size differs from its content'
    return [(facet, m)]


def ctor(run, okf):
    def spec(I, kind, s, val):
        out = surface(I, kind, s, val)
        if kind == 'unw':
            out.append(('effect', 'panics' if happened(I, s, 'panic') else None))
            return out
        e, p = is_err(I, s, val)
        if e:
            return out + [('effect', None), ('mem', None)]
        return out + okf(I, s, p)
    return run, spec


@case('Box::try_new', finder(trait='FallibleBox', selfty='Box', method='try_new'), BX, ALL)
def _(f, cfg):
    r = Run(f, cfg)
    return ctor(r, lambda I, s, p: box_holds(I, s, p, r.args[0]))


@case('TryBox::try_new', finder(selfty='TryBox', method='try_new', module='boxed'), BX, ALL)
def _(f, cfg):
    r = Run(f, cfg)
    return ctor(r, lambda I, s, p: box_holds(I, s, p, r.args[0]))


def shared(name, nm):
    @case(name, finder(trait='Fallible' + nm, selfty=nm, method='try_new'),
          {'surface': 'C02', 'effect': 'C08', 'mem': 'C08'}, ALL)
    def _(f, cfg):
        r = Run(f, cfg)

        def okf(I, s, p):
            v = p
            if v[0] == 'A' and v[1] == nm:
                v = v[3][0]
            if v[0] == 'P':
                v = I.load(s, v[1], v[2])
            return [('effect', None if v == r.args[0] else 'the new %s does not hold the given value :: %s' % (nm, show(p)))]
        return ctor(r, okf)

    @case(name + ' ', finder(trait='Fallible' + nm, selfty=nm, method='try_new'), {'alloc': 'C01'}, ('unstable_io',))
    def _(f, cfg):
        r = Run(f, cfg)
        return r, lambda I, kind, s, val: []


shared('Rc::try_new', 'Rc')
shared('Arc::try_new', 'Arc')


@case('TryBox::into_raw', finder(selfty='TryBox', method='into_raw', module='boxed'),
      {'effect': 'C08', 'mem': 'C08', 'alloc': 'C14'}, ALL)
def _(f, cfg):
    r = Run(f, cfg)
    want = unwrap1(r.I.structval(r.args[0]) or r.args[0]) if r.args[0][0] == 'S' else unwrap1(r.args[0])

    def spec(I, kind, s, val):
        if kind == 'unw':
            return [('effect', 'panics')]
        if want[0] == 'P':
            return [('effect', None if val == want else 'the raw pointer is not the address of the boxed value')]
        return [('effect', None if val[0] == 'P' and val[1][0] == 'o' and val[1][1][0] == 'f' and not val[2] and
                 val[1][1][1][1] == r.args[0][1] else 'the raw pointer is not the address of the boxed value')]
    return r, spec


@case('TryBox::from_raw', finder(selfty='TryBox', method='from_raw', module='boxed'),
      {'effect': 'C08', 'mem': 'C08', 'alloc': 'C14'}, ALL)
def _(f, cfg):
    r = Run(f, cfg)

    def spec(I, kind, s, val):
        if kind == 'unw':
            return [('effect', 'panics')]
        return [('effect', None if unwrap1(val) == r.args[0] else 'the box does not own the given pointer')]
    return r, spec


@case('TryBox::deref', finder(selfty='TryBox', trait='Deref', method='deref', module='boxed'),
      {'effect': 'C08', 'mem': 'C08', 'alloc': 'C14'}, ALL)
def _(f, cfg):
    r = Run(f, cfg)
    inner = unwrap1(r.I.deref_val(r.start.copy(), r.args[0]))
    if inner[0] == 'S':
        inner = unwrap1(r.I.structval(inner))

    def spec(I, kind, s, val):
        if kind == 'unw':
            return [('effect', 'panics')]
        return [('effect', None if val == inner else 'deref does not return the boxed value :: ' + show(val))]
    return r, spec


# ---- TryClone
CL = {'alloc': 'C01', 'surface': 'C02', 'effect': 'C07', 'mem': 'C06'}


def clone_val(v, ty):
    return ('S', ('clone', v), ty)


@case('Box::try_clone', finder(trait='TryClone', selfty='Box', method='try_clone'), CL, ALL)
def _(f, cfg):
    r = Run(f, cfg)
    s0 = r.start.copy()
    inner = r.I.deref_val(s0, r.args[0])
    want = r.I.deref_val(s0, inner)
    return ctor(r, lambda I, s, p: box_holds(I, s, p, clone_val(want, T)))


@case('TryBox::try_clone', finder(trait='TryClone', selfty='TryBox', method='try_clone'), CL, ALL)
def _(f, cfg):
    r = Run(f, cfg)
    s0 = r.start.copy()
    inner = r.I.deref_val(s0, r.args[0])
    inner = unwrap1(r.I.structval(inner) if inner[0] == 'S' else inner)
    want = r.I.deref_val(s0, inner)
    return ctor(r, lambda I, s, p: box_holds(I, s, p, clone_val(want, T)))


@case('Arc::try_clone', finder(trait='TryClone', selfty='Arc', method='try_clone'), CL, ALL)
def _(f, cfg):
    r = Run(f, cfg)
    want = r.I.deref_val(r.start.copy(), r.args[0])

    def okf(I, s, p):
        return [('effect', None if p[0] == 'S' and p[1] == ('shared', want) else
                 'the clone does not share the original allocation :: ' + show(p))]
    return ctor(r, okf)


PRIMS = ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'usize', 'isize', 'bool')
for _p in PRIMS:
    @case(_p + '::try_clone', finder(trait='TryClone', selfty=_p, method='try_clone'), CL, ('unstable_io',))
    def _(f, cfg):
        r = Run(f, cfg)
        want = r.I.deref_val(r.start.copy(), r.args[0])

        def okf(I, s, p):
            return [('effect', None if p == want else 'the clone differs from the original :: ' + show(p))]
        return ctor(r, okf)


@case('Option::try_clone', finder(trait='TryClone', selfty='Option', method='try_clone'), CL, ('unstable_io',))
def _(f, cfg):
    r = Run(f, cfg)
    o = r.I.deref_val(r.start.copy(), r.args[0])

    def okf(I, s, p):
        v = I.force(s, o)
        q = I.force(s, p)
        if v[2] != q[2]:
            return [('effect', 'the clone has a different variant')]
        if v[2] == 1 and q[3][0] != clone_val(v[3][0], T):
            return [('effect', 'the payload is not a clone of the original')]
        return [('effect', None)]
    return ctor(r, okf)


# ---- HashMap
HM = ('hash', 'hash_io')
FH = {'alloc': 'C01', 'surface': 'C02', 'unchanged': 'C11', 'effect': 'C11', 'mem': 'C11', 'own': 'C11'}
RH = {'alloc': 'C14', 'effect': 'C11', 'mem': 'C11'}


def hm(m):
    return finder(selfty='TryHashMap', method=m, module='hashmap')


def hmap(I, s, p):
    from ..models import hm_parts
    v = p
    if v[0] == 'P':
        v = I.deref_val(s, v)
    while v[0] == 'A' and v[1] == 'TryHashMap':
        v = v[3][0]
    if v[0] == 'S':
        from ..models import hm_sym
        v = hm_sym(I, s, v)
    if v[0] != 'A' or v[1] != 'HashMap':
        raise Unsupported('not a map: ' + show(v))
    return v


def events(I, s, p):
    v = hmap(I, s, p)
    lg = v[3][3]
    n = lg[3][0][1]
    if I.le(s, n, 0):
        return v[3][2], n, ()
    s.facts = s.facts.add_ge(lg[3][1][1] - n, I.nn)      # the ghost log never fills up
    return v[3][2], n, I.ar_get(s, I.load_obj(s, lg[3][2][1]), L(0), n)


def ev_same(I, s, p, base, evs, facet, msg='the map is not the original one with the requested change'):
    b, n, got = events(I, s, p)
    if b != base:
        return [(facet, msg + ' (a different map)')]
    if not I.need_eq(s, n, len(evs)):
        return [(facet, msg + ' (%r insertions or removals, expected %d)' % (n, len(evs)))]
    for i, e in enumerate(evs):
        g = at(I.seg(s, ('AR', got), L(i))[2], L(i))
        if g[:3] != e[:3] or not all(I.same(s, x, y) for x, y in zip(g[3], e[3])):
            return [(facet, msg + ' :: ' + show(g))]
    return [(facet, None)]


def hm_start(r, i=0):
    return hmap(r.I, r.start.copy(), r.args[i])[3][2]


def hm_opt(I, s, v, base, key, some_ok):
    """Some(..) exactly if the key was present at the start, and then the right value"""
    q = ('sym', ('hm_has', base, L(0), key))
    t = I.truth(s, q)
    if t is None:
        raise NeedFork([q, pnot(q)])
    v = I.force(s, v)
    if v[0] != 'A' or v[1] != 'Option':
        raise Unsupported('not an option: ' + show(v))
    return v[2] == 1 and some_ok(v[3][0]) if t else v[2] == 0


@case('TryHashMap::insert', hm('insert'), FH, HM)
def _(f, cfg):
    r = Run(f, cfg)
    base = hm_start(r)
    ev = ('A', 'ins', 0, (r.args[1], r.args[2]))

    def spec(I, kind, s, val):
        out = surface(I, kind, s, val)
        if kind == 'unw':
            if happened(I, s, 'panic'):
                out.append(('effect', 'panics'))
            return out
        e, p = is_err(I, s, val)
        if e:
            return out + ev_same(I, s, r.args[0], base, [], 'unchanged', 'a failed insertion changed the map')
        ok_ = hm_opt(I, s, p, base, r.args[1], lambda x: x[0] == 'S' and x[1] == ('hm_old', L(0), 0))
        return out + ev_same(I, s, r.args[0], base, [ev], 'effect') + [
            ('effect', None if ok_ else 'the previous value is not returned :: ' + show(p))]
    return r, spec


@case('TryHashMap::with_capacity', hm('with_capacity'), FH, HM)
def _(f, cfg):
    r = Run(f, cfg)

    def okf(I, s, p):
        v = hmap(I, s, p)
        out = ev_same(I, s, p, ('A', 'nobase', 0, ()), [], 'effect', 'the new map is not empty')
        out.append(('effect', None if I.need_le(s, r.args[0][1], v[3][1][1]) else
                    'the new map has less capacity than requested'))
        return out
    return ctor(r, okf)


@case('TryHashMap::default', finder(selfty='TryHashMap', trait='Default', method='default', module='hashmap'), RH, HM)
def _(f, cfg):
    r = Run(f, cfg)

    def spec(I, kind, s, val):
        if kind == 'unw':
            return [('effect', 'panics')]
        return ev_same(I, s, val, ('A', 'nobase', 0, ()), [], 'effect', 'the new map is not empty')
    return r, spec


@case('TryHashMap::remove', hm('remove'), RH, HM)
def _(f, cfg):
    r = Run(f, cfg)
    base = hm_start(r)

    def spec(I, kind, s, val):
        if kind == 'unw':
            return [('effect', 'panics' if happened(I, s, 'panic') else None)]
        ok_ = hm_opt(I, s, val, base, r.args[1], lambda x: x[0] == 'S' and x[1] == ('hm_old', L(0), 0))
        return ev_same(I, s, r.args[0], base, [('A', 'rem', 0, (r.args[1],))], 'effect') + [
            ('effect', None if ok_ else 'the removed value is not returned :: ' + show(val))]
    return r, spec


@case('TryHashMap::get', hm('get'), RH, HM)
def _(f, cfg):
    r = Run(f, cfg)
    base = hm_start(r)

    def spec(I, kind, s, val):
        if kind == 'unw':
            return [('effect', 'panics' if happened(I, s, 'panic') else None)]
        ok_ = hm_opt(I, s, val, base, r.args[1], lambda x: x[0] == 'P' and x[1][1] == ('hm_val', base, L(0), r.args[1])
                     and x[2] == ())
        return ev_same(I, s, r.args[0], base, [], 'effect', 'a lookup changed the map') + [
            ('effect', None if ok_ else 'the result is not the entry stored for the key :: ' + show(val))]
    return r, spec


@case('TryHashMap::len', hm('len'), RH, HM)
def _(f, cfg):
    r = Run(f, cfg)
    v = hmap(r.I, r.start.copy(), r.args[0])

    def spec(I, kind, s, val):
        if kind == 'unw':
            return [('effect', 'panics')]
        return [('effect', None if I.same(s, val, v[3][0]) else 'the length differs from the number of entries')]
    return r, spec


def hm_iter_case(name, fnd, how):
    @case(name, fnd, RH, HM)
    def _(f, cfg):
        r = Run(f, cfg)
        v = hmap(r.I, r.start.copy(), r.args[0])
        key = v[3][2][1]

        def spec(I, kind, s, val):
            if kind == 'unw':
                return [('effect', 'panics')]
            if val[0] != 'A' or val[1] != 'VecIntoIter':
                raise Unsupported('iterator ' + show(val))
            b, lo, hi = val[3][0], val[3][1][1], val[3][2][1]
            if not (I.need_eq(s, lo, 0) and I.need_eq(s, hi, v[3][0][1])):
                return [('effect', 'the iterator does not cover every entry')]
            if I.need_eq(s, hi, 0):
                return [('effect', None)]
            t = I.ar_get(s, I.load_obj(s, b[1]), L(0), hi)
            ok_ = len(t) == 1 and t[0][2][0] == 'A' and len(t[0][2][3]) == 2
            if ok_:
                a, c = t[0][2][3]
                if how == 'ref':
                    ok_ = a[0] == 'P' and a[1][1] == ('hmk', key, VIDX) and c[0] == 'P' and c[1][1] == ('hmv', key, VIDX)
                else:
                    ok_ = a[0] == 'S' and a[1] == ('*', ('hmk', key, VIDX)) and c[1] == ('*', ('hmv', key, VIDX))
            return [('effect', None if ok_ else 'the iterator does not yield the entries of the map')]
        return r, spec


hm_iter_case('TryHashMap::iter', hm('iter'), 'ref')
hm_iter_case('TryHashMap::into_iter', finder(selfty='TryHashMap', trait='IntoIterator', method='into_iter', module='hashmap'),
             'own')


@case('TryHashMap::try_clone', finder(trait='TryClone', selfty='TryHashMap', method='try_clone'),
      dict(FH, effect='C07'), HM)
def _(f, cfg):
    r = Run(f, cfg)
    base = hm_start(r)
    start = hmap(r.I, r.start.copy(), r.args[0])
    key = base[1]
    n0 = start[3][0][1]
    kt, vt = T, T

    def okf(I, s, p):
        b, n, got = events(I, s, p)
        out = ev_same(I, s, r.args[0], base, [], 'effect', 'cloning changed the original')
        if b != ('A', 'nobase', 0, ()):
            return out + [('effect', 'the clone starts from a map that is not empty')]
        if not I.need_eq(s, n, n0):
            return out + [('effect', 'the clone does not have one insertion per original entry :: %r of %r' % (n, n0))]
        for lo, hi, t in got:
            if I.need_le(s, hi, lo):
                continue
            ok_ = t[0] == 'A' and t[1] == 'ins' and _is_clone(I, s, t[3][0], ('hmk', key), lo, hi) and \
                _is_clone(I, s, t[3][1], ('hmv', key), lo, hi)
            if not ok_:
                return out + [('effect', 'an inserted entry is not the clone of an original entry :: ' + show(t))]
        return out + [('effect', None)]
    return ctor(r, okf)


def _is_clone(I, s, v, key, lo, hi):
    if v[0] != 'S' or v[1][0] != 'clone' or v[1][1][0] != 'S':
        return False
    k = v[1][1][1]
    if k[0] != '*' or k[1][:2] != key:
        return False
    return k[1][2] == VIDX or (I.eq(s, hi, lo + 1) and I.eq(s, k[1][2], lo))


# ---- tryformat
@case('try_format', lambda p: [f for f in p.free.get('try_format', ()) if f.impl is None],
      {'alloc': 'C01', 'surface': 'C02', 'effect': 'C13', 'mem': 'C13'}, ALL)
def _(f, cfg):
    return fmt_case(Run(f, cfg), True)


@case('tryformat!', lambda p: [f for f in p.free.get('format_one', ()) if f.impl is None],
      {'alloc': 'C01', 'surface': 'C02', 'effect': 'C13', 'mem': 'C13'}, ALL)
def _(f, cfg):
    return fmt_case(Run(f, cfg), False)


def fmt_case(r, direct):
    r.allow = r'Write>::write_fmt'       # growth beyond max_capacity is documented
    caps = []
    r.mon.hooks['dummy'] = None

    def spec(I, kind, s, val):
        # a formatting implementation that reports an error is a documented panic
        fmts = count(I, s, 'write_fmt')
        if kind == 'unw':
            if I.need_le(s, fmts, 0) and happened(I, s, 'panic'):
                return [('surface', 'panics without having formatted anything'),
                        ('effect', 'panics without having formatted anything')]
            return [('surface', None), ('effect', None)]
        out = surface(I, kind, s, val)
        e, p = is_err(I, s, val)
        if happened(I, s, 'fmterr') and not e:
            return out + [('effect', 'success is reported although the formatting of an argument failed')]
        if e:
            return out + [('effect', None if I.need_eq(s, fmts, 0) else
                           'reports an allocation failure after having formatted')]
        if not I.need_eq(s, fmts, 1):
            return out + [('effect', 'the arguments are not formatted exactly once')]
        v = p
        n, c, got = vec_at(I, s, v[3][0])
        lo = I.mk(('x',), T)
        for a, b, t in got:
            if I.need_le(s, b, a):
                continue
            if not (t[0] == 'I' and len(t[1].m) == 1 and t[1].m[0][0][0] == 'fmtbyte'):
                return out + [('effect', 'the result is not the formatted text :: ' + show(t))]
            w = t[1].m[0][0]
            if direct and not I.same(s, w[1], r.args[1]):
                return out + [('effect', 'other arguments are formatted :: ' + show(w[1]))]
        ok_ = len(n.m) == 1 and n.c == 0 and n.m[0][0][0] == 'fmtlen'
        if not ok_ and not I.need_eq(s, n, 0):
            return out + [('effect', 'the result is not exactly the formatted text')]
        return out + [('effect', None if I.need_le(s, r.args[0][1], c) else
                       'the capacity requested by the caller was not reserved')]
    return r, spec


# ---- std_io
IO = {'alloc': 'C01', 'surface': 'C02', 'effect': 'C12', 'unchanged': 'C12', 'mem': 'C12'}


def read_spec(r, bi, limit):
    n, c, E = old(r, bi)

    def spec(I, kind, s, val):
        out = vec_mem(I, s, r.args[bi])
        k, c2, got = vec_at(I, s, r.args[bi])
        lim = limit(I, s)
        if not I.need_le(s, n, k):
            return out + [('effect', 'bytes that were already in the buffer are lost')]
        out.append(('effect', same_seq(I, s, I.ar_get(s, ('AR', got), L(0), n), n, E, n)))
        if not I.need_le(s, k - n, lim):
            out.append(('effect', 'more than `limit` bytes are appended'))
        if kind == 'unw':
            if happened(I, s, 'panic'):
                out.append(('effect', 'panics'))
            return out
        e, p = is_err(I, s, val)
        ioerr = happened(I, s, 'ioerror')
        failed = happened(I, s, 'failed')
        reads = count(I, s, 'read')
        if failed:
            out.append(('surface', None if e else 'an allocation failed but the read reports success'))
            out.append(('unchanged', None if I.need_eq(s, reads, 0) and I.need_eq(s, k, n) else
                        'input was consumed although the buffer could not be reserved'))
            return out
        if e:
            big = I.need_le(s, L(2**64), lim)
            out.append(('surface', None if ioerr or big else 'an error is reported although neither reading nor allocating failed'))
            return out
        if ioerr:
            out.append(('surface', 'a read error is swallowed'))
        out.append(('effect', None if I.same(s, p, ('I', k - n)) or I.need_eq(s, p[1], k - n) else
                    'the number of bytes reported differs from the number appended'))
        if not I.need_eq(s, reads, 1):
            out.append(('effect', 'the source is not read to its end exactly once'))
        elif not I.need_eq(s, k, n):
            for a, b, t in I.ar_get(s, ('AR', got), n, k):
                if I.need_le(s, b, a):
                    continue
                q = t[1].m[0][0] if t[0] == 'I' and len(t[1].m) == 1 and t[1].c == 0 else None
                if not q or q[0] != 'readbyte':
                    out.append(('effect', 'appended bytes are not the bytes that were read :: ' + show(t)))
        return out
    return spec


@case('try_read_up_to', lambda p: [f for f in p.free.get('try_read_up_to', ()) if f.impl is None], IO, ALL)
def _(f, cfg):
    r = Run(f, cfg)
    return r, read_spec(r, 2, lambda I, s: r.args[1][1])


@case('Take::try_read_to_end', finder(trait='TryRead', selfty='Take', method='try_read_to_end'), IO, ALL)
def _(f, cfg):
    r = Run(f, cfg)
    v = r.I.deref_val(r.start.copy(), r.args[0])

    def lim(I, s):
        t = I.deref_val(r.start.copy(), r.args[0])
        if t[0] == 'S':
            t = I.structval(t)
        return t[3][1][1]
    return r, read_spec(r, 1, lim)


@case('TryVec::write', finder(trait='Write', selfty='TryVec', method='write'), IO, ALL)
def _(f, cfg):
    from ..models import slice_segs
    r = Run(f, cfg)
    n, c, E = old(r)
    O, m = slice_segs(r.I, r.start.copy(), r.args[1])

    def spec(I, kind, s, val):
        def okf(s, p):
            return expect(I, s, r.args[0], *concat((E, n), (O, m)), 'effect') + [
                ('effect', None if I.same(s, p, ('I', m)) else 'the reported number of bytes is not the length of the input')]
        return std(r, kind, s, val, okf, lambda s, p: expect(I, s, r.args[0], E, n, 'unchanged'))
    return r, spec


@case('TryVec::flush', finder(trait='Write', selfty='TryVec', method='flush'), IO, ALL)
def _(f, cfg):
    r = Run(f, cfg)
    n, c, E = old(r)

    def spec(I, kind, s, val):
        if kind == 'unw':
            return [('effect', 'panics')]
        e, p = is_err(I, s, val)
        return [('effect', 'flushing fails' if e else None)] + expect(I, s, r.args[0], E, n, 'effect')
    return r, spec


# ---- try_vec!
for _n, _k in (('vec_list', 3), ('vec_list_trailing', 2), ('vec_empty', 0)):
    @case('try_vec![%d]' % _k, (lambda nm: lambda p: [f for f in p.free.get(nm, ()) if f.impl is None])(_n),
          {'alloc': 'C01', 'surface': 'C02', 'effect': 'C05', 'mem': 'C06'}, ('unstable_io',))
    def _(f, cfg):
        r = Run(f, cfg)
        segs = tuple((L(i), L(i + 1), a) for i, a in enumerate(r.args))

        def okf(I, s, p):
            k, c, got = vec_at(I, s, p)
            m = len(r.args)
            if not I.need_eq(s, k, m):
                return [('effect', 'the vector does not have one element per list item')]
            for i, a in enumerate(r.args):
                if at(I.seg(s, ('AR', got), L(i))[2], L(i)) != a:
                    return [('effect', 'an element differs from the list item')]
            return [('effect', None), ('mem', None if I.need_le(s, k, c) else 'length exceeds the capacity')]
        return ctor(r, okf)


@case('try_vec![v; n]', lambda p: [f for f in p.free.get('vec_elem', ()) if f.impl is None],
      {'alloc': 'C01', 'surface': 'C02', 'effect': 'C05', 'mem': 'C06'}, ('unstable_io',))
def _(f, cfg):
    from .vec import elem_case
    return elem_case(f, cfg, False)


@case('TryRead::read_into_try_vec', lambda p: [f for f in p.free.get('read_into_try_vec', ()) if f.impl is None], IO, ALL)
def _(f, cfg):
    r = Run(f, cfg, env={'Self': ('adt', 'std::io::Take', (('adt', 'R', ()),))})

    def spec(I, kind, s, val):
        if kind == 'unw':
            return [('effect', 'panics' if happened(I, s, 'panic') else None)]
        e, p = is_err(I, s, val)
        failed, ioerr, reads = happened(I, s, 'failed'), happened(I, s, 'ioerror'), count(I, s, 'read')
        if e:
            t = I.deref_val(r.start.copy(), r.args[0])
            t = I.structval(t) if t[0] == 'S' else t
            big = I.need_le(s, L(2**64), t[3][1][1])
            return [('surface', None if failed or ioerr or big else 'an error is reported although nothing failed')]
        out = [('surface', 'a failure is swallowed' if failed or ioerr else None)]
        k, c, got = vec_at(I, s, p)
        if not I.need_eq(s, reads, 1):
            return out + [('effect', 'the source is not read to its end exactly once')]
        for a, b, t in got:
            if I.need_le(s, b, a):
                continue
            q = t[1].m[0][0] if t[0] == 'I' and len(t[1].m) == 1 and t[1].c == 0 else None
            if not q or q[0] != 'readbyte':
                out.append(('effect', 'the result holds bytes that were not read :: ' + show(t)))
        m = V(('nread', 'ret', L(0)))
        rd = [a for a in k.atoms() if isinstance(a, tuple) and a[0] == 'nread']
        out.append(('effect', None if len(k.m) == 1 and k.c == 0 and rd or I.need_eq(s, k, 0) and not rd else
                    'the result does not hold exactly the bytes that were read :: %r' % k))
        return out + [('mem', init_msg(I, s, got))]
    return r, spec
