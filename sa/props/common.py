"""Case framework: a case analyses one entry point and yields facet-tagged findings on every exit state.

Facets name the aspect of the specification; each facet of each case belongs to one property."""
from .. import src, mir
from ..spec import *
from ..interp import approximate

CASES = []


class Case:
    def __init__(self, name, fn, build, facets, cfgs, public, group, cost=1):
        self.cost = cost
        self.name = name
        self.fn = fn
        self.build = build
        if facets.get('alloc') == 'C01':
            # a request that cannot fail gracefully is also a failure that goes unreported
            facets = dict(facets, alloc=('C01', 'C02'))
        self.facets = facets
        self.cfgs = cfgs
        self.public = public
        self.group = group


def case(name, finder, facets, cfgs=('unstable_io', 'std_io'), public=True, group='', cost=1):
    def deco(build):
        CASES.append(Case(name, finder, build, facets, cfgs, public, group, cost))
        return build
    return deco


def finder(**kw):
    return lambda p: p.find(**kw)


def all_cfgs(c, tier):
    """the configurations case c is decided in; thorough: also with debug assertions and overflow checks, and without std"""
    if tier != 'thorough':
        return tuple(c.cfgs)
    more = ('none', 'std') if 'std_io' in c.cfgs else ()
    return tuple(c.cfgs) + tuple(x + src.DBG for x in c.cfgs) + more


def run_case(res, c, facets, thorough=False, only_cfg=None):
    """check the given facets of case c; violations are attributed to res"""
    for cfg in all_cfgs(c, 'thorough' if thorough else 'quick'):
        if only_cfg and cfg != only_cfg:
            continue
        p = prog(cfg)
        fs = c.fn(p)
        if not fs:
            if c.public and cfg in c.cfgs:
                res.missing(c.name)
            continue
        for f in fs:
            res.deep = False
            nu, nv, no = len(res.undecided), len(res.violations), len(res.obligations)
            try:
                run_one(res, c, f, cfg, facets)
            except Unsupported as e:
                res.undecided.append((c.name, str(e)))
            if len(res.undecided) > nu and len(res.violations) == nv:
                second_look(res, c, f, cfg, facets)
            elif len(res.violations) > nv and not res.deep and all(v.key in res.weak for v in res.violations[nv:]):
                confirm(res, c, f, cfg, facets, nv, no)


def rounds(c):
    """how many rounds of a loop are followed: a node has at most 12 children, so its loops are followed to their end"""
    return 13 if c.build.__module__.endswith('.node') else 3


def second_look(res, c, f, cfg, facets):
    """a case without a verdict: the paths through the first rounds of its loops may already break the rule"""
    r2 = Result(res.pid)
    PEEL[0] = rounds(c)
    try:
        run_one(r2, c, f, cfg, facets)
    except Budget:
        raise
    except Exception:
        pass
    finally:
        PEEL[0] = 0
    res.peeled += 1
    for v in r2.violations:
        res.violate(v.key, v.where, v.msg, v.rule, v.detail)


def confirm(res, c, f, cfg, facets, nv, no):
    """violations that all rest on joined loop states, which may be too coarse: a path through the first rounds of the loops
    must break the rule as well"""
    r2 = Result(res.pid)
    PEEL[0] = rounds(c)
    try:
        run_one(r2, c, f, cfg, facets)
    except Budget:
        raise
    except Exception:
        pass
    finally:
        PEEL[0] = 0
    res.peeled += 1
    if r2.violations:
        return
    for v in res.violations[nv:]:
        res.violations.remove(v)
        res.undecided.append((v.key.split('|')[0], 'not confirmed on the first rounds of the loops: ' + v.msg))
    res.obligations = [(a, b, 'undecided: not confirmed' if i >= no and x == 'violated' else x) for i, (a, b, x) in enumerate(res.obligations)]


def run_one(res, c, f, cfg, facets):
    made = c.build(f, cfg)
    if made is None:
        return
    for run, spec in (made if isinstance(made, list) else [made]):
        check_run(res, c.name + ('' if not getattr(run, 'tag', '') else ':' + run.tag), cfg, run, spec, facets, c)


def check_run(res, name, cfg, run, spec, facets, c):
    f = run.f
    key = src.fn_key(f)
    oname = '%s [%s]' % (name, cfg)
    res.functions.add(key)
    res.absorb(run.I)
    res.deep = run.I.deep
    if run.error is not None:
        res.undecided.append((oname, run.error))
        res.obligations.append((oname, 0, 'undecided: ' + run.error))
        return
    bad = 0
    n = 0
    strong = set()
    gaps = list(dict.fromkeys(run.I.gaps))     # paths the analysis had to give up
    sem = [x for x in facets if x not in ('alloc', 'total')]
    if 'alloc' in facets:
        n += 1
        for callee, how, fn in (run.mon.asked if res.pid == 'C14' else run.mon.allocs):
            if getattr(run, 'allow', None) and re.search(run.allow, callee or ''):
                continue
            bad += 1
            res.violate('%s|alloc|%s|%s' % (name, fn, norm_callee(callee)), fn,
                        'reaches `%s`, which allocates%s on a path from %s' % (
                            norm_callee(callee), ' infallibly (aborts or panics when memory is exhausted)' if how else '', key),
                        'no allocation is reachable' if res.pid == 'C14' else
                        'no infallible allocation is reachable from a fallible operation')
    for x in ('surface', 'panic', 'bounds', 'effect'):
        if x in c.facets:
            if x in facets:
                n += 1
                for fn in dict.fromkeys(run.I.overflows):
                    bad += 1
                    if all(a for g, a in run.I.joined if g == fn):
                        res.weak['%s|overflow|%s' % (name, fn)] = 'overflow'
                    res.violate('%s|overflow|%s' % (name, fn), fn, 'plain arithmetic overflows here on a path from %s: it panics in '
                                'builds with overflow checks and wraps in others' % key, 'no arithmetic overflow is reachable')
            break
    if sem:
        for r in run.I.reports:
            bad += 1
            vk = '%s|%s|%s|%s' % (name, r.kind, r.fn, norm_callee(r.callee))
            if not r.approx:
                strong.add(vk)
            elif vk not in strong:
                res.weak[vk] = r.kind
            if vk in strong:
                res.weak.pop(vk, None)
            res.violate(vk, r.fn,
                        '%s at `%s`: %s' % (r.kind, norm_callee(r.callee), r.msg),
                        'every memory access on every path is to initialised, live, owned cells in bounds',
                        'path: ' + ' <- '.join(r.chain))
        for kind, st, val in run.outs:
            try:
                for s, msgs in split(run.I, st.copy(), lambda s: with_own(run, kind, s, val, guard2(
                        spec, run.I, kind, s, val, c.facets), c.facets)):
                    for facet, msg in msgs or ():
                        if facet not in facets:
                            n += 1
                            continue
                        n += 1
                        if msg:
                            bad += 1
                            vk = '%s|%s|%s|%s' % (name, facet, kind, re.sub(r'\d+', '#', msg.split(' :: ')[0]))
                            if approximate(s):
                                res.weak[vk] = facet
                            else:
                                strong.add(vk)
                            res.violate(vk, key, '%s exit: %s' % ('normal' if kind == 'ret' else 'unwinding', msg), facet,
                                        'path assumptions: ' + '; '.join(repr(x) + ' >= 0' for x in sorted(
                                            s.facts.ge, key=repr))[:1500] + ' refinements: ' + str(
                                            [(show(k), v) for k, v in s.refine.items()])[:600])
                            if vk in strong:
                                res.weak.pop(vk, None)
            except Budget:
                raise
            except Unsupported as e:
                if str(e) not in gaps:
                    gaps.append(str(e))
    for g in gaps:
        res.undecided.append((oname, g))
    if gaps and not bad:
        res.obligations.append((oname, n, 'undecided: ' + gaps[0]))
        return
    res.obligations.append((oname, n, 'violated' if bad else 'discharged'))
    if not bad:
        res.decided += 1


def guard2(spec, I, kind, s, val, facets=('mem', 'effect')):
    try:
        return spec(I, kind, s, val)
    except Bad as e:
        fs = [f for f in ('mem', 'effect') if f in facets] or list(facets)
        return [(f, 'exit state is not readable (%s: %s)' % (e.kind, e.msg)) for f in fs]


def with_own(run, kind, s, val, msgs, facets):
    if kind == 'ret' and 'own' in facets:
        return list(msgs or ()) + [('own', own(run, s, val))]
    return msgs


def own(run, s, val):
    """every value handed over ends in exactly one place: in the result, behind an argument, or dropped"""
    I = run.I
    if any(k[0] == 'b' and isinstance(k[1], tuple) and k[1][0] == 'needs_drop' and v is False for k, v in s.refine.items()):
        return None      # nothing is lost with values that need no drop
    params = set(run.f.impl.params) if run.f.impl else set()
    for i, a in enumerate(run.args):
        if a[0] != 'S' or a[1] != ('arg', i) or not I.user_ty(a[2]) or not I.needs_drop(a[2]) or a[2][0] != 'adt' or \
                a[2][1] not in params or a[2] in I.copy_types:
            continue
        d = count(I, s, ('dropped', a[1]))
        there = holds(I, s, val, a) or any(holds(I, s, b, a) for j, b in enumerate(run.args) if j != i)
        if there:
            if not I.need_le(s, d, 0):
                return 'argument %d is dropped although it was also stored or returned' % i
        elif not I.need_le(s, 1, d):
            return 'argument %d is neither stored, returned nor dropped: it is leaked' % i
        elif not I.need_le(s, d, 1):
            return 'argument %d is dropped more than once' % i
    return lost(run, s, val)


def lost(run, s, val):
    """the elements of vectors handed over are still in them, in the result, or dropped"""
    I = run.I
    st0 = run.start.copy()
    kept = {}

    def scan(x):
        if x[0] == 'S' and isinstance(x[1], tuple) and x[1][:1] == ('el',):
            kept[x[1][:2]] = kept.get(x[1][:2], L(0)) + 1
        elif x[0] == 'A':
            for y in x[3]:
                scan(y)

    def vec(st, p):
        try:
            n, c, segs = vec_at(I, st, p)
        except (Unsupported, Bad, KeyError, IndexError, TypeError):
            return None
        return [(t[1][:2], b - a) for a, b, t in segs if t[0] == 'S' and isinstance(t[1], tuple) and t[1][:1] == ('el',)]
    had = {}
    for a in run.args:
        if a[0] == 'P':
            for k, n in vec(st0, a) or ():
                had[k] = (had.get(k, (L(0),))[0] + n, a)
    if not had:
        return None
    for a in run.args:
        if a[0] == 'P':
            for k, n in vec(s, a) or ():
                kept[k] = kept.get(k, L(0)) + n
    scan(val)
    for k, (n, a) in had.items():
        if not I.need_le(s, n, kept.get(k, L(0)) + count(I, s, ('dropped', k))):
            return 'elements that were in the vector are neither kept, returned nor dropped: they are leaked'
    return None


def holds(I, s, x, v, seen=None):
    seen = set() if seen is None else seen
    if x == v:
        return True
    if x[0] == 'A':
        return any(holds(I, s, y, v, seen) for y in x[3] if isinstance(y, tuple))
    if x[0] == 'AR':
        return any(holds(I, s, t, v, seen) and not I.need_le(s, b, a) for a, b, t in x[1])
    if x[0] == 'F':
        return holds(I, s, x[1], v, seen)
    if x[0] == 'P' and x[1] not in seen:
        seen.add(x[1])
        try:
            return holds(I, s, I.load_obj(s, x[1]), v, seen)
        except (Bad, KeyError):
            return False
    return False


def norm_callee(c):
    return re.sub(r'\s+', ' ', c or '')[:160]


def count(I, st, key):
    return st.mem.get(('g', key), ('I', L(0)))[1]


def happened(I, st, key):
    return not I.need_le(st, count(I, st, key), 0)


def is_err(I, s, val):
    v = I.force(s, val)
    if v[0] != 'A' or v[1] != 'Result':
        raise Unsupported('not a Result: ' + show(v))
    return v[2] == 1, v[3][0]


def drop_bad(I, st):
    return None
