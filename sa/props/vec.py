"""Vec / TryVec cases."""
from .common import *

VEC = ('adt', 'alloc::vec::Vec', (('adt', 'T', ()),))
F = {'alloc': 'C01', 'surface': 'C02', 'unchanged': 'C03', 'giveback': 'C04', 'effect': 'C05', 'mem': 'C06', 'own': 'C04'}
FC = dict(F, effect='C07')


def vec_mem(I, s, *ptrs):
    out = []
    for p in ptrs:
        n, c, segs = vec_at(I, s, p)
        m = init_msg(I, s, segs)
        if not m and not I.need_le(s, n, c):
            m = 'length exceeds the capacity'
        out.append(('mem', m))
        if m:
            out.append(('effect', m))
    return out


def surface(I, kind, s, val, fallible=True):
    """failures are returned as Err; nothing else is"""
    failed = happened(I, s, 'failed')
    if kind == 'unw':
        if failed and happened(I, s, 'panic'):
            return [('surface', 'panics after an allocation failure instead of returning it')]
        return [('surface', None)]
    e, pay = is_err(I, s, val)
    if e and pay and pay[0] == 'S' and isinstance(pay[1], tuple) and pay[1][:2] == ('ioerr', 'Interrupted()'):
        return [('surface', 'a failure is reported as an interruption, which the caller answers by trying again for ever')]
    if failed and not e:
        return [('surface', 'an allocation failed on this path but the operation reports success')]
    if e and not failed:
        return [('surface', 'reports an allocation failure although no allocation failed')]
    return [('surface', None)]


def expect(I, s, p, segs, n, facet):
    k, c, got = vec_at(I, s, p)
    return [(facet, same_seq(I, s, got, k, segs, n))]


def prefix(I, s, p, segs, n, lo, facet):
    """content is a prefix of `segs` at least `lo` long"""
    k, c, got = vec_at(I, s, p)
    if not I.need_le(s, lo, k):
        return [(facet, 'the vector lost elements it already had')]
    if not I.need_le(s, k, n):
        return [(facet, 'the vector holds more elements than it should')]
    return [(facet, same_seq(I, s, got, k, I.ar_get(s, ('AR', segs), L(0), k), k))]


def old(run, i=0):
    s = run.start.copy()
    return vec_at(run.I, s, run.args[i])


def no_panic(I, s):
    if happened(I, s, 'panic'):
        return [('effect', 'panics on an input for which it is specified to return')]
    return []


def std(run, kind, s, val, okf, errf=None, unwf=None, ptrs=(0,), panic_ok=None):
    I = run.I
    out = vec_mem(I, s, *[run.args[i] for i in ptrs])
    out += surface(I, kind, s, val)
    if kind == 'unw':
        if happened(I, s, 'panic'):
            if panic_ok is None or not panic_ok(s):
                out.append(('effect', 'panics on an input for which it is specified to return'))
        if unwf:
            out += unwf(s)
        return out
    e, pay = is_err(I, s, val)
    out += errf(s, pay) if e else okf(s, pay)
    return out


def seg(template, n):
    return (((L(0), L(n), template),), L(n))


def clones_of(segs, plain, ty):
    return tuple((a, b, t if plain else ('S', ('clone', t), ty)) for a, b, t in segs)


def fv(m):
    return finder(trait='FallibleVec', method=m, selfty='Vec')


def tv(m):
    return finder(selfty='TryVec', method=m, module='vec')


T = ('adt', 'T', ())


# ---- reserve
def spec_reserve(run):
    n, c, E = old(run)
    add = run.args[1][1]

    def spec(I, kind, s, val):
        def okf(s, p):
            k, c2, got = vec_at(I, s, run.args[0])
            out = [('effect', same_seq(I, s, got, k, E, n))]
            if not I.need_le(s, n + add, c2):
                out.append(('effect', 'succeeds without the requested capacity'))
            return out
        return std(run, kind, s, val, okf, lambda s, p: expect(I, s, run.args[0], E, n, 'unchanged'),
                   lambda s: expect(I, s, run.args[0], E, n, 'unchanged'))
    return spec


@case('Vec::try_reserve', fv('try_reserve'), F)
def _(f, cfg):
    r = Run(f, cfg)
    return r, spec_reserve(r)


@case('TryVec::reserve', tv('reserve'), F)
def _(f, cfg):
    r = Run(f, cfg)
    return r, spec_reserve(r)


# ---- push
def spec_push(run, give):
    n, c, E = old(run)
    v = run.args[1]

    def spec(I, kind, s, val):
        def okf(s, p):
            return expect(I, s, run.args[0], *concat((E, n), seg(v, 1)), 'effect')

        def errf(s, p):
            out = expect(I, s, run.args[0], E, n, 'unchanged')
            if give:
                out.append(('giveback', None if p[0] == 'A' and p[3][0] == v else
                            'the error does not carry the element that was passed in :: found ' + show(p)))
            return out
        return std(run, kind, s, val, okf, errf, lambda s: expect(I, s, run.args[0], E, n, 'unchanged'))
    return spec


FX = {k: v for k, v in F.items() if k != 'giveback'}


@case('Vec::try_push', fv('try_push'), FX)
def _(f, cfg):
    r = Run(f, cfg)
    return r, spec_push(r, False)


@case('TryVec::push', tv('push'), FX)
def _(f, cfg):
    r = Run(f, cfg)
    return r, spec_push(r, False)


@case('Vec::try_push_give_back', fv('try_push_give_back'), F)
def _(f, cfg):
    r = Run(f, cfg)
    return r, spec_push(r, True)


# ---- with_capacity
def spec_with_cap(run, res_vec):
    want = run.args[0][1]

    def spec(I, kind, s, val):
        out = surface(I, kind, s, val)
        if kind == 'unw':
            out.append(('effect', 'panics' if happened(I, s, 'panic') else None))
            return out
        e, p = is_err(I, s, val)
        if e:
            return out
        k, c, got = vec_at(I, s, p)
        m = None
        if not I.need_eq(s, k, 0):
            m = 'the new vector is not empty'
        elif not I.need_le(s, want, c):
            m = 'the new vector has less capacity than requested'
        return out + [('effect', m), ('mem', None if I.need_le(s, k, c) else 'length exceeds the capacity')]
    return spec


@case('Vec::try_with_capacity', fv('try_with_capacity'), FX)
def _(f, cfg):
    r = Run(f, cfg)
    return r, spec_with_cap(r, None)


@case('TryVec::with_capacity', tv('with_capacity'), FX)
def _(f, cfg):
    r = Run(f, cfg)
    return r, spec_with_cap(r, None)


# ---- insert
@case('Vec::try_insert', fv('try_insert'), F)
def _(f, cfg):
    run = Run(f, cfg)
    n, c, E = old(run)
    i, v = run.args[1][1], run.args[2]

    def spec(I, kind, s, val):
        def okf(s, p):
            if not I.need_le(s, i, n):
                return [('effect', 'an index past the end is accepted')]
            a = I.ar_get(s, ('AR', E), L(0), i)
            b = I.ar_get(s, ('AR', E), i, n)
            return expect(I, s, run.args[0], *concat((a, i), seg(v, 1), (b, n - i)), 'effect')

        def errf(s, p):
            return expect(I, s, run.args[0], E, n, 'unchanged') + [
                ('giveback', None if p[0] == 'A' and p[3][0] == v else
                 'the error does not carry the element that was passed in :: found ' + show(p))]
        return std(run, kind, s, val, okf, errf, lambda s: expect(I, s, run.args[0], E, n, 'unchanged'),
                   panic_ok=lambda s: not I.need_le(s, i, n))
    return run, spec


# ---- append
def spec_append(run):
    n, c, E = old(run)
    m, _, O = old(run, 1)

    def spec(I, kind, s, val):
        def okf(s, p):
            return expect(I, s, run.args[0], *concat((E, n), (O, m)), 'effect') + \
                expect(I, s, run.args[1], (), L(0), 'effect')

        def same(s, p=None):
            return expect(I, s, run.args[0], E, n, 'unchanged') + expect(I, s, run.args[1], O, m, 'unchanged')
        return std(run, kind, s, val, okf, same, same, ptrs=(0, 1))
    return spec


@case('Vec::try_append', fv('try_append'), FX)
def _(f, cfg):
    r = Run(f, cfg)
    return r, spec_append(r)


@case('TryVec::append', tv('append'), FX)
def _(f, cfg):
    r = Run(f, cfg)
    return r, spec_append(r)


# ---- resize family
def resized(I, s, E, n, m, tail):
    if I.need_le(s, m, n):
        return I.ar_get(s, ('AR', E), L(0), m), m
    return concat((E, n), tail)


def tail_ok(I, s, run, n, m, v, plain):
    """content after growing: every new element is v or a clone of it"""
    k, c, got = vec_at(I, s, run.args[0])
    if not I.need_eq(s, k, m):
        return 'length is %r, expected %r' % (k, m)
    if I.need_le(s, m, n):
        return None
    for a, b, t in I.ar_get(s, ('AR', got), n, m):
        if I.need_le(s, b, a):
            continue
        if t == v or (not plain and t == ('S', ('clone', v), T)):
            continue
        return 'a new element is neither the given value nor a clone of it :: ' + show(t)
    return None


def spec_resize(run, plain):
    n, c, E = old(run)
    m, v = run.args[1][1], run.args[2]

    def spec(I, kind, s, val):
        def head(s, facet, lo):
            k, c2, got = vec_at(I, s, run.args[0])
            if not I.need_le(s, lo, k):
                return [(facet, 'the vector is shorter than expected')]
            return [(facet, same_seq(I, s, I.ar_get(s, ('AR', got), L(0), lo), lo, I.ar_get(s, ('AR', E), L(0), lo), lo))]

        def okf(s, p):
            lo = m if I.need_le(s, m, n) else n
            return head(s, 'effect', lo) + [('effect', tail_ok(I, s, run, n, m, v, plain))]

        def errf(s, p):
            # a failed element clone may leave a longer vector, never a shorter or altered one
            out = head(s, 'unchanged', n)
            k, c2, got = vec_at(I, s, run.args[0])
            if p == S_RESERVE(I) and not I.need_eq(s, k, n):
                out.append(('unchanged', 'the vector grew although its reservation failed'))
            if not I.need_le(s, k, n) and not I.need_le(s, k, m):
                out.append(('unchanged', 'the vector grew past the requested length'))
            return out

        def unwf(s):
            # growing: nothing lost; shrinking: the first m elements survive
            lo = m if I.need_le(s, m, n) else n
            return head(s, 'effect', lo)
        return std(run, kind, s, val, okf, errf, unwf)
    return spec


def S_RESERVE(I):
    return I.mk(('reserve_err',), ('adt', 'alloc::collections::TryReserveError', ()))


@case('Vec::try_resize', fv('try_resize'), FX)
def _(f, cfg):
    r = Run(f, cfg, copy=(T,))
    return r, spec_resize(r, True)


@case('Vec::try_resize_no_copy', fv('try_resize_no_copy'), FX)
def _(f, cfg):
    r = Run(f, cfg)
    return r, spec_resize(r, False)


def spec_resize_with(run):
    n, c, E = old(run)
    m, fun = run.args[1][1], run.args[2]

    def spec(I, kind, s, val):
        calls = ((L(0), m - n, I.mk(('u', ('call', fun[1]), V(IDX)), T)),)

        def okf(s, p):
            if I.need_le(s, m, n):
                return expect(I, s, run.args[0], I.ar_get(s, ('AR', E), L(0), m), m, 'effect')
            return expect(I, s, run.args[0], *concat((E, n), (calls, m - n)), 'effect')

        def errf(s, p):
            return expect(I, s, run.args[0], E, n, 'unchanged')

        def unwf(s):
            if I.need_le(s, m, n):
                return prefix(I, s, run.args[0], E, n, m, 'effect')
            full, k = concat((E, n), (calls, m - n))
            return prefix(I, s, run.args[0], full, k, n, 'effect')
        return std(run, kind, s, val, okf, errf, unwf)
    return spec


@case('Vec::try_resize_with', fv('try_resize_with'), FX)
def _(f, cfg):
    r = Run(f, cfg)
    return r, spec_resize_with(r)


@case('TryVec::resize_with', tv('resize_with'), FX)
def _(f, cfg):
    r = Run(f, cfg)
    return r, spec_resize_with(r)


# ---- extend
def spec_extend(run, plain, ty=T):
    n, c, E = old(run)
    O, m = slice_of(run.I, run.start.copy(), run.args[1])

    def spec(I, kind, s, val):
        full, k = concat((E, n), (clones_of(O, plain, ty), m))

        def okf(s, p):
            return expect(I, s, run.args[0], full, k, 'effect')

        def errf(s, p):
            if p == S_RESERVE(I):
                return expect(I, s, run.args[0], E, n, 'unchanged')
            return prefix(I, s, run.args[0], full, k, n, 'unchanged')

        def unwf(s):
            return prefix(I, s, run.args[0], full, k, n, 'effect')
        return std(run, kind, s, val, okf, errf, unwf)
    return spec


def slice_of(I, s, v):
    from ..models import slice_segs
    return slice_segs(I, s, v)


@case('Vec::try_extend_from_slice', fv('try_extend_from_slice'), FX)
def _(f, cfg):
    r = Run(f, cfg, copy=(T,))
    return r, spec_extend(r, True)


@case('Vec::try_extend_from_slice_no_copy', fv('try_extend_from_slice_no_copy'), FX)
def _(f, cfg):
    r = Run(f, cfg)
    return r, spec_extend(r, False)


@case('TryVec::extend_from_slice', tv('extend_from_slice'), FX)
def _(f, cfg):
    r = Run(f, cfg)
    return r, spec_extend(r, False)


# ---- construction of new vectors from existing data
def spec_new(run, want, partial_ok=True):
    """success returns a vector equal to want=(segs, n)"""
    def spec(I, kind, s, val):
        out = surface(I, kind, s, val)
        if kind == 'unw':
            out.append(('effect', 'panics on an input for which it is specified to return'
                        if happened(I, s, 'panic') else None))
            return out
        e, p = is_err(I, s, val)
        if e:
            return out
        segs, n = want(I, s)
        k, c, got = vec_at(I, s, p)
        m = init_msg(I, s, got)
        return out + [('mem', m or (None if I.need_le(s, k, c) else 'length exceeds the capacity')),
                      ('effect', same_seq(I, s, got, k, segs, n))]
    return spec


def source_same(run, i, spec):
    """the source read through a shared reference is unchanged"""
    n, c, E = old(run, i)

    def spec2(I, kind, s, val):
        return spec(I, kind, s, val) + expect(I, s, run.args[i], E, n, 'effect')
    return spec2


@case('Vec::try_clone', finder(trait='TryClone', selfty='Vec', method='try_clone', module='vec'), FC)
def _(f, cfg):
    r = Run(f, cfg)
    n, c, E = old(r)
    return r, source_same(r, 0, spec_new(r, lambda I, s: (clones_of(E, False, T), n)))


@case('TryVec::try_clone', finder(trait='TryClone', selfty='TryVec', method='try_clone', module='vec'), FC)
def _(f, cfg):
    r = Run(f, cfg)
    n, c, E = old(r)
    return r, source_same(r, 0, spec_new(r, lambda I, s: (clones_of(E, False, T), n)))


@case('TryVec::try_from', finder(trait='TryFrom', selfty='TryVec', method='try_from', module='vec'), FC)
def _(f, cfg):
    r = Run(f, cfg)
    O, m = slice_of(r.I, r.start.copy(), r.args[0])
    u8 = mir.show(f.impl.self_ty).endswith('<u8>')
    return r, spec_new(r, lambda I, s: (clones_of(O, u8, T), m))


def elem_case(f, cfg, plain):
    run = Run(f, cfg)
    v, n = run.args[0], run.args[1][1]

    def spec(I, kind, s, val):
        out = surface(I, kind, s, val)
        if kind == 'unw':
            return out
        e, p = is_err(I, s, val)
        if e:
            return out
        k, c, got = vec_at(I, s, p)
        m = init_msg(I, s, got)
        out.append(('mem', m))
        if m:
            return out + [('effect', m)]
        if not I.need_eq(s, k, n):
            return out + [('effect', 'length is %r, expected %r' % (k, n))]
        for a, b, t in got:
            if I.need_le(s, b, a) or t == v or t == ('S', ('clone', v), T):
                continue
            return out + [('effect', 'an element is neither the given value nor a clone of it :: ' + show(t))]
        return out + [('effect', None)]
    return run, spec


@case('try_from_elem', lambda p: [f for f in p.free.get('try_from_elem', ()) if f.impl is None], FC,
      cfgs=('unstable_io',))
def _(f, cfg):
    return elem_case(f, cfg, False)


@case('u8 try_from_elem', finder(trait='SpecFromElem', selfty='u8', method='try_from_elem'), FC,
      cfgs=('unstable_io',), public=False)
def _(f, cfg):
    return elem_case(f, cfg, True)


@case('Vec::try_from_iterator', finder(trait='TryFromIterator', selfty='Vec', method='try_from_iterator'), FX)
def _(f, cfg):
    return collect_case(f, cfg)


@case('try_collect into a vector', finder(trait='TryCollect', method='try_collect'),
      {k: v for k, v in FX.items() if k != 'own'})
def _(f, cfg):
    return collect_case(f, cfg, env={'C': ('adt', 'alloc::vec::Vec', (('adt', 'I', ()),))})


def collect_case(f, cfg, env=None):
    run = Run(f, cfg, env=env)

    def spec(I, kind, s, val):
        out = surface(I, kind, s, val)
        if kind == 'unw':
            out.append(('effect', 'panics' if happened(I, s, 'panic') else None))
            return out
        e, p = is_err(I, s, val)
        if e:
            return out
        k, c, got = vec_at(I, s, p)
        m = init_msg(I, s, got)
        out.append(('mem', m))
        if m:
            return out + [('effect', m)]
        # k-th element = payload of the k-th call of next(); the (k+1)-th call returned None
        calls = count(I, s, ('Iterator', 'next'))
        if not I.need_eq(s, calls, k + 1):
            return out + [('effect', 'the number of elements differs from the number of items the iterator produced'
                           ' :: %r items requested, %r stored' % (calls, k))]
        for a, b, t in got:
            if I.need_le(s, b, a):
                continue
            ok_ = t[0] == 'S' and t[1][0] == 'v' and t[1][1][0] == 'u' and t[1][1][1] == ('Iterator', 'next') and (
                t[1][1][2] == V(IDX) or (not contains_idx(t) and I.eq(s, t[1][1][2], a) and I.eq(s, b, a + 1)))
            if not ok_:
                return out + [('effect', 'elements are not the items of the iterator in order :: ' + show(t))]
        return out + [('effect', None)]
    return run, spec


# ---- other TryVec operations
@case('TryVec::clear', tv('clear'), {'own': 'C04', 'effect': 'C05', 'mem': 'C06', 'alloc': 'C14'})
def _(f, cfg):
    run = Run(f, cfg)

    def spec(I, kind, s, val):
        out = vec_mem(I, s, run.args[0])
        if kind == 'unw':
            n, c, E = old(run)
            return out + prefix(I, s, run.args[0], E, n, L(0), 'effect')
        return out + expect(I, s, run.args[0], (), L(0), 'effect')
    return run, spec


@case('TryVec::pop', tv('pop'), {'own': 'C04', 'effect': 'C05', 'mem': 'C06', 'alloc': 'C14'})
def _(f, cfg):
    run = Run(f, cfg)
    n, c, E = old(run)

    def spec(I, kind, s, val):
        out = vec_mem(I, s, run.args[0])
        if kind == 'unw':
            return out + [('effect', 'panics')]
        v = I.force(s, val)
        if I.need_eq(s, n, 0):
            return out + [('effect', None if v[2] == 0 else 'pop on an empty vector returns an element')] + \
                expect(I, s, run.args[0], (), L(0), 'effect')
        if v[2] == 0:
            return out + [('effect', 'pop on a non-empty vector returns None')]
        last = at(I.seg(s, ('AR', E), n - 1)[2], n - 1)
        return out + [('effect', None if I.same(s, v[3][0], last) else 'pop does not return the last element')] + \
            expect(I, s, run.args[0], I.ar_get(s, ('AR', E), L(0), n - 1), n - 1, 'effect')
    return run, spec


def view_case(name, fnd, kind_):
    @case(name, fnd, {'effect': 'C05', 'mem': 'C06', 'alloc': 'C14'})
    def _(f, cfg):
        run = Run(f, cfg)
        n, c, E = old(run)

        def spec(I, kind, s, val):
            out = vec_mem(I, s, run.args[0])
            if kind == 'unw':
                return out + [('effect', 'panics')]
            if kind_ == 'slice':
                O, m = slice_of(I, s, val)
                out.append(('effect', same_seq(I, s, O, m, E, n)))
            elif kind_ == 'empty':
                t = I.truth(s, val[1])
                if t is None:
                    raise NeedFork([val[1], pnot(val[1])])
                out.append(('effect', None if t == I.need_eq(s, n, 0) else 'is_empty disagrees with the length'))
            elif kind_ == 'iter':
                v = val
                while v[0] == 'A' and v[1] not in ('SliceIter',) and len(v[3]) == 1:
                    v = v[3][0]
                if v[0] != 'A' or v[1] != 'SliceIter':
                    raise Unsupported('iterator ' + show(v))
                O, m = slice_of(I, s, ('F', I.padd(v[3][0], v[3][1][1]), v[3][2][1] - v[3][1][1]))
                out.append(('effect', same_seq(I, s, O, m, E, n)))
            return out + expect(I, s, run.args[0], E, n, 'effect')
        return run, spec


view_case('TryVec::as_slice', tv('as_slice'), 'slice')
view_case('TryVec::as_mut_slice', tv('as_mut_slice'), 'slice')
view_case('TryVec::is_empty', tv('is_empty'), 'empty')
view_case('TryVec::iter', tv('iter'), 'iter')
view_case('TryVec::iter_mut', tv('iter_mut'), 'iter')
view_case('TryVec::deref', finder(trait='Deref', selfty='TryVec', method='deref', module='vec'), 'slice')
view_case('TryVec::deref_mut', finder(trait='DerefMut', selfty='TryVec', method='deref_mut', module='vec'), 'slice')
view_case('TryVec::as_ref', finder(trait='AsRef', selfty='TryVec', method='as_ref', module='vec'), 'slice')


def empty_case(name, fnd):
    @case(name, fnd, {'effect': 'C05', 'mem': 'C06', 'alloc': 'C14'})
    def _(f, cfg):
        run = Run(f, cfg)

        def spec(I, kind, s, val):
            if kind == 'unw':
                return [('effect', 'panics')]
            k, c, got = vec_at(I, s, val)
            return [('effect', None if I.need_eq(s, k, 0) else 'the new vector is not empty'),
                    ('mem', None if I.need_le(s, k, c) else 'length exceeds capacity')]
        return run, spec


empty_case('TryVec::new', tv('new'))
empty_case('TryVec::default', finder(trait='Default', selfty='TryVec', method='default', module='vec'))


# ---- concat: the ghost counter g is the number of inner vectors already appended in full
def concat_case(f, cfg):
    from ..models import vec_parts, vec_slice, grow_alloc
    G = ('o', ('concat',), ('adt', 'usize', ()))
    used = []

    def setup(run):
        run.st.mem[G] = ('I', L(0))
        arg.extend(run.args)
    arg = []

    def extend(I, fr, st, fn, env, args, tys, rty):
        from .. import models
        used.append(1)
        g = st.mem[G][1]
        n, c, b = vec_parts(I, st, ('P', arg[0][1], arg[0][2] + (0,)))
        if not I.need_le(st, g + 1, n):
            raise Bad('effect', 'more slices are appended than there are inner vectors')
        e = I.padd(b, g)
        want = vec_slice(I, fr, st, [('P', e[1], e[2] + (0,))], [], None, {})[0][2]
        if not I.same(st, args[1], want):
            raise Bad('effect', 'the slice appended is not the whole of the next inner vector: ' + show(args[1]))
        rn, rc, rb = vec_parts(I, st, args[0])
        outs = []
        for how in ('ok', 'err', 'unw'):
            s = st.copy()
            if how == 'ok':
                s.mem[G] = ('I', g + 1)
                outs.append(('ret', s, ok(UNIT)))
            elif how == 'err':
                grow_alloc(I, fr, s, dict(callee='try_extend_from_slice_no_copy'), False, L(1), L(0))
                I.tick(s, 'failed')
                outs.append(('ret', s, err(I.mk(('reserve_err',), ('adt', 'alloc::collections::TryReserveError', ())))))
            else:
                outs.append(('unw', s, None))
        return outs

    key = [src.fn_key(x) for x in prog(cfg).find(trait='FallibleVec', method='try_extend_from_slice_no_copy', selfty='Vec')]
    run = Run(f, cfg, setup=setup, contracts={k: extend for k in key})
    n, c, E = old(run)

    def spec(I, kind, s, val):
        if not used:
            raise Unsupported('concat is not written in terms of extending by slices')
        out = surface(I, kind, s, val) + expect(I, s, run.args[0], E, n, 'effect')
        if kind == 'unw':
            if happened(I, s, 'panic'):
                out.append(('surface', 'panics where it is specified to return an error'))
            return out
        e, p = is_err(I, s, val)
        if e:
            return out
        k, c2, got = vec_at(I, s, p)
        if not I.need_eq(s, k, 0):
            raise Unsupported('concat adds elements one by one')
        return out + [('effect', None if I.need_eq(s, s.mem[G][1], n) else 'not every inner vector is appended')]
    return run, spec


@case('TryVec::concat', tv('concat'), {'alloc': 'C01', 'surface': 'C02', 'effect': 'C05'})
def _(f, cfg):
    return concat_case(f, cfg)


# ---- comparison, conversion and the iterators of TryVec
def content_of(I, s, p):
    from ..models import as_seq, seq_val
    x = as_seq(I, s, p)
    if x is None:
        v = I.deref_val(s, p) if p[0] == 'P' else p
        while v[0] == 'P':
            v = I.deref_val(s, v)
        if v[0] == 'A' and v[1] == 'str':
            from ..models import as_bytes
            x = as_seq(I, s, as_bytes(I, None, s, [v], None, None, None)[0][2])
        while x is None and v[0] == 'A' and v[1] != 'Vec' and len(v[3]) == 1:
            v = v[3][0]
        x = x or as_seq(I, s, v)
    if x is None:
        raise Unsupported('contents of ' + show(p))
    return seq_val(I, s, x)


@case('TryVec::eq', finder(trait='PartialEq', selfty='TryVec', method='eq', module='vec'),
      {'effect': 'C05', 'mem': 'C06', 'alloc': 'C14'})
def _(f, cfg):
    run = Run(f, cfg)

    def spec(I, kind, s, val):
        if kind == 'unw':
            return [('effect', 'panics' if happened(I, s, 'panic') else None)]
        st0 = run.start.copy()
        a, b = content_of(I, st0, run.args[0]), content_of(I, st0, run.args[1])
        la, lb = (x[2] if len(x) > 2 else None for x in (a, b))
        if val[0] != 'B':
            raise Unsupported('result ' + show(val))
        if val[1] is False and la is not None and lb is not None and not I.need_eq(s, la, lb):
            return [('effect', None)]
        for x, y in ((a, b), (b, a)):
            q = ('sym', ('seqeq', x, y))
            if val[1] == q or isinstance(val[1], bool) and I.truth(s, q) is val[1]:
                return [('effect', None)]
        if any(u == ('cmp', 'eq') for u in run.mon.users):
            raise Unsupported('the elements are compared one by one')
        return [('effect', 'the result is not the comparison of the whole contents of both sides :: ' + show(val))]
    return run, spec


@case('TryVec::from', finder(trait='From', selfty='TryVec', method='from', module='vec'),
      {'effect': 'C05', 'mem': 'C06', 'alloc': 'C14'})
def _(f, cfg):
    run = Run(f, cfg)
    n, c, E = vec_at(run.I, run.start.copy(), run.args[0])

    def spec(I, kind, s, val):
        if kind == 'unw':
            return [('effect', 'panics')]
        k, c2, got = vec_at(I, s, val)
        return [('effect', same_seq(I, s, got, k, E, n)), ('mem', init_msg(I, s, got))]
    return run, spec


@case('TryVec::into_iter', finder(trait='IntoIterator', selfty='TryVec', method='into_iter', module='vec'),
      {'effect': 'C05', 'mem': 'C06', 'alloc': 'C14'})
def _(f, cfg):
    run = Run(f, cfg)
    n, c, E = vec_at(run.I, run.start.copy(), run.args[0])

    def spec(I, kind, s, val):
        if kind == 'unw':
            return [('effect', 'panics')]
        if val[0] != 'A' or val[1] not in ('VecIntoIter', 'SliceIter'):
            raise Unsupported('iterator ' + show(val))
        b, lo, hi = val[3]
        O, m = slice_of(I, s, ('F', I.padd(b, lo[1]), hi[1] - lo[1]))
        return [('effect', same_seq(I, s, O, m, E, n))]
    return run, spec


@case('&TryVec::into_iter', lambda p: [f for f in p.by_trait.get(('IntoIterator', 'into_iter'), ()) if f.impl.self_ty[0] == 'ref' and
                                       'TryVec' in mir.show(f.impl.self_ty)],
      {'effect': 'C05', 'mem': 'C06', 'alloc': 'C14'})
def _(f, cfg):
    run = Run(f, cfg)
    n, c, E = old(run)

    def spec(I, kind, s, val):
        if kind == 'unw':
            return [('effect', 'panics')]
        v = val
        while v[0] == 'A' and v[1] != 'SliceIter' and len(v[3]) == 1:
            v = v[3][0]
        if v[0] != 'A' or v[1] != 'SliceIter':
            raise Unsupported('iterator ' + show(v))
        O, m = slice_of(I, s, ('F', I.padd(v[3][0], v[3][1][1]), v[3][2][1] - v[3][1][1]))
        return [('effect', same_seq(I, s, O, m, E, n))]
    return run, spec


def iter_case(ty, method):
    @case('%s::%s' % (ty, method), finder(trait='Iterator', selfty=ty, method=method, module='vec'),
          {'effect': 'C05', 'mem': 'C06', 'alloc': 'C14'})
    def _(f, cfg):
        keep = {}

        def setup(run):
            I = run.I
            i, n = I.fresh('pos'), I.fresh('end')
            run.st.facts = run.st.facts.add_ge(n - i, I.nn)
            o = ('o', ('itbase',), ('slice', T))
            it = ('A', 'SliceIter', 0, (('P', o, (('i', L(0)),)), ('I', i), ('I', n)))
            p = ('o', ('iter',), ('adt', ty, (T,)))
            run.st.mem[p] = ('A', ty, 0, (it,))
            run.args[0] = ('P', p, ())
            keep.update(i=i, n=n, base=it[3][0], p=p)
        run = Run(f, cfg, setup=setup)
        i, n = keep['i'], keep['n']

        def spec(I, kind, s, val):
            if kind == 'unw':
                return [('effect', 'panics')]
            now = s.mem[keep['p']][3][0]
            if now[0] != 'A' or now[1] != 'SliceIter':
                raise Unsupported('iterator ' + show(now))
            lo, hi = now[3][1][1], now[3][2][1]
            if method == 'size_hint':
                lov, up = val[3]
                up = I.force(s, up)
                ok_ = I.need_eq(s, lov[1], n - i) and up[2] == 1 and I.need_eq(s, up[3][0][1], n - i)
                return [('effect', None if ok_ and I.need_eq(s, lo, i) and I.need_eq(s, hi, n) else
                         'size_hint is not the number of elements left')]
            v = I.force(s, val)
            if I.need_eq(s, i, n):
                return [('effect', None if v[2] == 0 and I.need_eq(s, lo, i) and I.need_eq(s, hi, n) else
                         'an exhausted iterator yields an element or moves')]
            if v[2] == 0:
                return [('effect', 'the iterator ends although elements are left')]
            return [('effect', None if I.same(s, v[3][0], I.padd(keep['base'], i)) and I.need_eq(s, lo, i + 1) and
                     I.need_eq(s, hi, n) else 'the iterator does not yield its next element and step past it')]
        return run, spec


for _t in ('Iter', 'IterMut'):
    for _m in ('next', 'size_hint'):
        iter_case(_t, _m)
