"""Obligations: run the abstract interpreter on one function and compare its exit states with a
specification."""
import re
from . import src, mir, interp
from .interp import Interp, St, NeedFork, Bad, Unsupported, Budget, tyname
from .lin import Lin, V, L
from .vals import *

_prog = {}
PEEL = [0]      # set while a case that could not be decided is examined again, loops peeled
_pre = [None]


def prog(cfg, text=None):
    p = _prog.get(cfg)
    if p is None:
        p = _prog[cfg] = src.Program(cfg, src=_prog['#src'] if '#src' in _prog else None, text=text)
        _prog['#src'] = p.src
    return p


def prelude():
    if _pre[0] is None:
        _pre[0] = src.build_prelude()
    return _pre[0]


class Violation:
    def __init__(self, key, where, msg, rule, detail=''):
        self.key = key            # line-number free identification
        self.where = where
        self.msg = msg
        self.rule = rule
        self.detail = detail

    def __repr__(self):
        return '%s: %s [%s]' % (self.where, self.msg, self.rule)


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []
        self.obligations = []     # (name, n exit states, status)
        self.undecided = []
        self.functions = set()
        self.stats = {}
        self.notes = []
        self.decided = 0
        self.peeled = 0
        self.deep = False      # the last case was one whose loops need many rounds
        self.weak = {}            # key of a violation that rests on a joined loop state -> what would confirm it

    def violate(self, key, where, msg, rule='', detail=''):
        for v in self.violations:
            if v.key == key:
                return
        self.violations.append(Violation(key, where, msg, rule, detail))

    def absorb(self, I):
        for k, v in I.stats.items():
            if isinstance(v, set):
                self.stats.setdefault(k, set()).update(v)
            elif isinstance(v, int):
                self.stats[k] = self.stats.get(k, 0) + v
        self.stats['steps'] = self.stats.get('steps', 0) + I.steps

    def merge(self, o):
        for v in o.violations:
            self.violate(v.key, v.where, v.msg, v.rule, v.detail)
        self.obligations += o.obligations
        self.undecided += o.undecided
        self.functions |= o.functions
        self.notes += o.notes
        self.decided += o.decided
        self.peeled += o.peeled
        for k, v in o.stats.items():
            if isinstance(v, set):
                self.stats.setdefault(k, set()).update(v)
            else:
                self.stats[k] = self.stats.get(k, 0) + v

    def missing(self, what):
        self.violate('anchor:' + what, what, 'the construct this property is anchored in was not found', 'anchor')


class Mon:
    """observes allocation requests, user callbacks and panics"""

    def __init__(self):
        self.allocs = []
        self.asked = []      # every request, also those that may fail gracefully
        self.panics = []
        self.users = []
        self.hooks = {}

    def on_alloc(self, I, fr, st, callee, infallible, need):
        self.asked.append((callee, infallible, src.fn_key(fr.f)))
        if infallible:
            self.allocs.append((callee, infallible, src.fn_key(fr.f)))
        h = self.hooks.get('alloc')
        if h:
            h(I, fr, st, callee, infallible, need)

    def on_user(self, I, fr, st, what, arg):
        self.users.append(what)
        h = self.hooks.get('user')
        if h:
            return h(I, fr, st, what, arg)
        return None

    def on_unknown(self, I, fr, st, what, args, rty):
        h = self.hooks.get('unknown')
        if h:
            return h(I, fr, st, what, args, rty)
        return None

    def on_panic(self, I, fr, st, why):
        self.panics.append((why, src.fn_key(fr.f)))
        h = self.hooks.get('panic')
        if h:
            h(I, fr, st, why)


def split(I, st, fn, depth=0):
    """apply fn to st, case-splitting on undetermined facts; yields (st, result)"""
    nid = I.nid
    try:
        return [(st, fn(st))]
    except NeedFork as e:
        I.nid = nid
        if depth > 14:
            raise Unsupported('too many case splits')
        out = []
        for p in e.preds:
            try:
                s = I.assume(st, p)
            except NeedFork as e2:
                for q in e2.preds:
                    s = I.assume(st, q)
                    if s is not None:
                        out.extend(split(I, s.copy(), fn, depth + 1))
                continue
            if s is st:
                raise Unsupported('case split without progress')
            if s is not None:
                out.extend(split(I, s.copy(), fn, depth + 1))
        return out


class Run:
    """one analysed entry point"""

    def __init__(self, f, cfg, env=None, args=None, setup=None, contracts=None, hooks=None, limit=90, steps=600000,
                 cls=Interp, copy=()):
        self.f = f
        self.cfg = cfg
        p = prog(cfg)
        self.I = I = cls(p, prelude())
        I.time_limit = limit
        I.max_steps = steps
        if PEEL[0]:
            I.peel = PEEL[0]
            I.time_limit = min(limit, 40)
        I.mon = self.mon = Mon()
        I.copy_types = set(copy)
        if hooks:
            self.mon.hooks.update(hooks)
        if contracts:
            I.contracts = contracts
        I.entry = src.fn_key(f)
        mir.parse_body(f)
        self.env = env or {}
        self.st = St()
        self.args = args if args is not None else [
            I.mk(('arg', i), mir.subst(t, self.env)) for i, (n, t) in enumerate(f.params)]
        if setup:
            setup(self)
        self.start = self.st.copy()
        self.error = None
        self.outs = []
        try:
            self.outs = I.call_fn(f, self.env, self.args, self.st)
        except Unsupported as e:
            self.error = str(e)
        except (NeedFork, RecursionError, AssertionError, KeyError, IndexError, ValueError, TypeError,
                AttributeError) as e:
            self.error = 'engine: %s %s' % (type(e).__name__, str(e)[:200])
            import traceback
            self.tb = traceback.format_exc()


def obligation(res, name, run, spec, rule, reports=True):
    """check every exit state of run against spec(I, kind, st, val) -> None or message"""
    f = run.f
    key = src.fn_key(f)
    res.functions.add(key)
    res.absorb(run.I)
    if run.error is not None:
        res.undecided.append((name, run.error))
        res.obligations.append((name, 0, 'undecided: ' + run.error))
        return False
    n = 0
    bad = False
    if reports:
        for r in run.I.reports:
            bad = True
            res.violate('%s|%s|%s|%s' % (name, r.kind, r.fn, re.sub(r'\b[a-z]\.[\w.*{}]+|\d+', '#', r.callee)), r.fn,
                        '%s at `%s`: %s' % (r.kind, r.callee, r.msg), rule, 'path: ' + ' <- '.join(r.chain))
    for o in run.outs:
        kind, st, val = o
        try:
            for s, msg in split(run.I, st.copy(), lambda s: guard(spec, run.I, kind, s, val)):
                n += 1
                if msg:
                    bad = True
                    res.violate('%s|%s|%s' % (name, kind, re.sub(r'\d+', '#', msg.split(' :: ')[0])), key,
                                '%s exit: %s' % ('normal' if kind == 'ret' else 'unwinding', msg), rule,
                                'assumptions on the path: ' + '; '.join(repr(x) + '>=0' for x in sorted(
                                    s.facts.ge, key=repr))[:1500])
        except Unsupported as e:
            res.undecided.append((name, str(e)))
            res.obligations.append((name, n, 'undecided: ' + str(e)))
            return False
    res.obligations.append((name, n, 'violated' if bad else 'discharged'))
    if not bad:
        res.decided += 1
    return not bad


def guard(spec, I, kind, s, val):
    try:
        return spec(I, kind, s, val)
    except Bad as e:
        return 'exit state is not readable (%s: %s)' % (e.kind, e.msg)


# ---------------------------------------------------------------- sequences

def vec_at(I, st, p):
    """(len, cap, segments of [0,len)) of the Vec stored behind p"""
    v = I.deref_val(st, p) if p[0] == 'P' else p
    while v[0] == 'A' and v[1] != 'Vec' and len(v[3]) == 1:
        v = v[3][0]
    if v[0] == 'X':
        raise Bad('moved', 'the vector was moved out')
    if v[0] != 'A' or v[1] != 'Vec':
        raise Unsupported('not a vector: ' + show(v))
    n, c, b = v[3][0][1], v[3][1][1], v[3][2]
    if I.le(st, n, 0):
        return n, c, ()
    ar = I.load(st, b[1], b[2][:-1])
    o = b[2][-1][1]
    segs = I.ar_get(st, ar, o, o + n)
    return n, c, segs


def init_msg(I, st, segs):
    for lo, hi, t in segs:
        if has_x(t) and not I.need_le(st, hi, lo):
            return 'elements from index %r on are uninitialised, moved-out or already dropped but still inside the ' \
                   'length' % (lo,)
    return None


def has_x(t):
    if t == X:
        return True
    if isinstance(t, tuple) and t and t[0] == 'A':
        return any(has_x(x) for x in t[3])
    return False


def concat(*parts):
    """concatenate segment lists given as (segs, length)"""
    out = []
    off = L(0)
    for segs, n in parts:
        for s in segs:
            out.append(shift(s, off))
        off = off + n
    return tuple(out), off


def same_seq(I, st, a, n, b, m):
    """None or a message; a: segments of length n, b expected of length m"""
    if not I.eq(st, n, m):
        if I.need_eq(st, n, m):
            pass
        else:
            return 'length is %r, expected %r' % (n, m)
    a = tuple(s for s in a if not I.need_le(st, s[1], s[0]))
    b = tuple(s for s in b if not I.need_le(st, s[1], s[0]))
    if I.same_segs(st, a, b):
        return None
    return 'contents differ :: found %s, expected %s' % (show(('AR', a)), show(('AR', b)))
