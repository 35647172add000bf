#!/usr/bin/env python3
"""regenerate properties.jsonl and MANIFEST.json from sa/props/meta.py"""
import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from sa.props.meta import PROPS, META
try:
    from sa.props.meta import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
na = {x['property'] for x in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p['id'] in na:
        continue
    m = META[p['id']]
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                   'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': m['technique'],
                   'level': m['level'], 'level_note': m['note']})
json.dump({'version': 1, 'setup_cmd': 'python3 --version', 'checks': checks,
           'not_applicable': NOT_APPLICABLE,
           'notes': 'All checks analyse the MIR that rustc emits for /repo/src (no code of the crate is executed). '
                    'DESIGN.md describes the analyses; known_findings.txt lists defects found and repaired.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)


def tables():
    """the tables of DESIGN.md, between <!-- NAME --> and <!-- /NAME -->"""
    import re
    t = {}
    fixes = [l.split(None, 3) for l in open(os.path.join(H, 'known_findings.txt')) if l.startswith('fixed:')]
    t['FIXES'] = ['| property | commit | what failed |', '|---|---|---|'] + [
        '| %s | %s | %s |' % (a[1].split('=')[1], a[2], a[3].strip()) for a in fixes]
    rows = ['| id | property | decided by | obligation groups / functions |', '|---|---|---|---|']
    for p in PROPS:
        m = META[p['id']]
        n = ''
        try:
            c = json.load(open(os.path.join(H, 'evidence', p['id'] + '.json')))['coverage']
            n = '%s / %s' % (c['obligation_groups'] if isinstance(c['obligation_groups'], int) else len(c['obligation_groups']),
                             len(c['functions_analysed']))
        except (OSError, KeyError):
            pass
        rows.append('| %s | %s | %s. %s | %s |' % (p['id'], p['title'], m['rule'] or m['technique'].split(':')[0], m['note'], n))
    t['PROPS'] = rows
    rows = ['| planted bug | property, caught by | needs | breaks |', '|---|---|---|---|']
    S = os.path.join(H, 'seeded')
    for d in sorted(os.listdir(S)):
        m = json.load(open(os.path.join(S, d, 'meta.json')))
        rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks']))
    t['PLANTS'] = rows
    f = os.path.join(H, 'DESIGN.md')
    s = open(f).read()
    for k, v in t.items():
        s = re.sub(r'@@%s@@|<!-- %s -->.*?<!-- /%s -->' % (k, k, k),
                   lambda _: '<!-- %s -->\n%s\n<!-- /%s -->' % (k, '\n'.join(v), k), s, flags=re.S)
    open(f, 'w').write(s)


if os.path.isdir(os.path.join(H, 'seeded')):
    tables()
