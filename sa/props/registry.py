"""Which cases and extra analyses decide which property."""
import gc
import importlib
import multiprocessing
import os
import signal
import time
import traceback
from . import common
from .. import spec
from .meta import META

MODULES = ['vec', 'misc', 'types', 'node', 'tree', 'set', 'rng', 'bulk', 'alg', 'lex']
EXTRA = {}      # pid -> [(fn(res, tier), cfgs)]


def extra(pid, cfgs=()):
    def deco(f):
        EXTRA.setdefault(pid, []).append((f, tuple(cfgs)))
        return f
    return deco


def load(pid):
    for m in MODULES:
        importlib.import_module('sa.props.' + m)
    cases = []
    for c in common.CASES:
        fs = {k for k, v in c.facets.items() if v == pid or (isinstance(v, tuple) and pid in v)}
        if fs:
            cases.append((c, fs))
    return cases, EXTRA.get(pid, [])


def configs(reg, tier):
    out = set()
    for c, fs in reg[0]:
        out.update(common.all_cfgs(c, tier))
    for f, cfgs in reg[1]:
        out.update(cfgs)
    return out


T0 = time.time()
COST = {'bulk_steal_left': 40, 'bulk_steal_right': 10, 'merge': 8, 'BTreeSet::remove': 60, 'BTreeSet::take': 60, 'BTreeMap::remove': 60,
        'BTreeMap Recover::take': 60, 'OccupiedEntry::remove_entry, occupied internal': 50,
        'OccupiedEntry::remove, occupied internal': 40, 'IntoIter::drop, tree': 45, 'BTreeMap::split_off': 40}   # scheduling only
for _f in ('BTreeMap::range', 'BTreeMap::range_mut', 'BTreeSet::range'):
    for _b, _n in (('included present', 50), ('excluded present', 50), ('included absent', 25), ('excluded absent', 25)):
        COST['%s from %s, tree' % (_f, _b)] = _n
TASK_LIMIT = 240     # seconds one case may take before it is given up as undecided


def _task(i):
    pid, tasks, tier = _state
    c, fs, cfg = tasks[i]
    res = spec.Result(pid)
    t0 = time.time()

    def late(*a):
        raise spec.Budget('analysis of %s took more than %d s' % (c.name, TASK_LIMIT))
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, TASK_LIMIT, 1)
    try:
        common.run_case(res, c, fs, tier == 'thorough', only_cfg=cfg)
    except (spec.Unsupported, RecursionError, MemoryError) as e:
        res.undecided.append((c.name, str(e) or type(e).__name__))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res.undecided.append((c.name, 'analysis failed: %s: %s at %s:%d' % (
            type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if os.environ.get('SA_TIME'):
        print('%6.1f %6.1f %s [%s]' % (t0 - T0, time.time() - t0, c.name, cfg))
    return res


def run(reg, res, tier):
    global _state
    tasks = [(c, fs, cfg) for c, fs in reg[0] for cfg in common.all_cfgs(c, tier)]
    if tasks:
        # heavy cases first; the parent has parsed the programs already, children inherit them
        order = sorted(range(len(tasks)), key=lambda i: -COST.get(tasks[i][0].name, tasks[i][0].cost))
        _state = (res.pid, tasks, tier)
        out = {}
        gc.collect()
        gc.freeze()
        gc.disable()
        with multiprocessing.get_context('fork').Pool(8) as pool:
            for i, r in zip(order, pool.imap(_task, order, 1)):
                out[i] = r
        for i in range(len(tasks)):
            res.merge(out[i])
    for f, cfgs in reg[1]:
        f(res, tier)
    if not reg[0] and not reg[1]:
        raise SystemExit('no analysis registered for ' + res.pid)
