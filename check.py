#!/usr/bin/env python3
"""check.py <PROPERTY> [--thorough]: decide one property of /repo's current source statically.

exit 0: every obligation that could be decided holds; exit 1 with a VIOLATION line otherwise."""
import sys, os, time, json, traceback
from concurrent.futures import ThreadPoolExecutor
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def known(pid):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, what = rest.partition(' :: ')
                out[key.strip()] = what.strip()
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    pid = args[0]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t0 = time.time()
    from sa import props, src, spec
    from sa.props import registry
    res = spec.Result(pid)
    fatal = None
    try:
        reg = registry.load(pid)
        cfgs = sorted(registry.configs(reg, tier))
        with ThreadPoolExecutor(8) as ex:
            pre = ex.submit(spec.prelude)
            if any(src.CONFIGS[c][1] for c in cfgs):
                src.hashbrown_rlib()
            texts = list(ex.map(src.build_mir, cfgs))
            pre.result()
        for c, t in zip(cfgs, texts):
            spec.prog(c, t)
        registry.run(reg, res, tier)
    except src.BuildError as e:
        fatal = str(e)
    wall = time.time() - t0
    kf = known(pid)
    viol = []
    seen = set()
    for v in res.violations:
        if v.key in kf:
            seen.add(v.key)
            print('KNOWN-FINDING: property=%s %s' % (pid, kf[v.key]))
        else:
            viol.append(v)
    ev = evidence(pid, tier, res, viol, wall, seen, registry.META.get(pid, {}), cfgs if not fatal else [])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    if fatal:
        print('ERROR: the sources could not be analysed: ' + fatal)
        return 2
    for n, m in res.undecided:
        print('UNDECIDED: %s: %s' % (n, m[:300]))
    print('%s: %d obligations groups over %d functions, %d undecided, %d violations, %.1fs' % (
        pid, len(res.obligations), len(res.functions), len(res.undecided), len(viol), wall))
    if viol:
        rep = os.path.join(HERE, 'evidence', pid + '.violations.txt')
        with open(rep, 'w') as f:
            for v in viol:
                f.write('%s\n  where: %s\n  what: %s\n  rule: %s\n  %s\n\n' % (v.key, v.where, v.msg, v.rule, v.detail))
        for v in viol[:40]:
            print('  %s: %s' % (v.where, v.msg[:400]))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    return 0


def evidence(pid, tier, res, viol, wall, seen, meta, cfgs):
    n = sum(max(1, o[1]) for o in res.obligations)
    bad = sum(max(1, o[1]) for o in res.obligations if o[2] != 'discharged')
    und = [o for o in res.obligations if o[2].startswith('undecided')]
    cov = {
        'obligations': n,
        'discharged': n - bad if bad <= n else 0,
        'checker_cmd': 'python3 check.py %s%s' % (pid, ' --thorough' if tier == 'thorough' else ''),
        'trusted_base': meta.get('trusted', [
            'rustc nightly-2024-11-07 MIR construction (-Zmir-opt-level=0)',
            'sa/ abstract interpreter and its linear-arithmetic domain',
            'sa/models.py and sa/prelude.rs: transfer functions of std items',
            'user code reached through type parameters is arbitrary but memory safe']),
        'explanation': meta.get('explanation', ''),
        'rule': meta.get('rule', ''),
        'configurations': cfgs,
        'functions_analysed': sorted(res.functions),
        'analysed': {k: (len(v) if isinstance(v, (set, list)) else v) for k, v in res.stats.items()},
        'obligation_groups': [{'name': o[0], 'checked': o[1], 'status': o[2]} for o in res.obligations],
        'undecided': [{'name': a, 'why': b} for a, b in res.undecided],
        'cases_re_examined_with_peeled_loops': res.peeled,
        'known_findings': sorted(seen),
        'notes': res.notes[:50],
    }
    return {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': meta.get('level', 'proof'), 'coverage': cov, 'wall_s': round(wall, 2),
            'assumptions': meta.get('assumptions', []),
            'violations': len(viol)}


if __name__ == '__main__':
    sys.exit(main())
