#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tool'))
from props import PROPS, NA

lines, checks, na = [], [], []
for p in PROPS:
    q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
    assert len(p['title']) <= 80, p['id']
    lines.append(json.dumps(q))
    if p['id'] in NA:
        na.append({'property': p['id'], 'reason': NA[p['id']]})
        continue
    assert os.path.exists('%s/rules/%s.py' % (V, p['id'].lower())), p['id']
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
        'technique': p['technique'],
        'level': 'other',
        'level_note': p['note'],
    })
open(V + '/properties.jsonl', 'w').write('\n'.join(lines) + '\n')
json.dump({'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': checks,
           'not_applicable': na,
           'notes': 'Static analysis only: tool/rcx.cpp exports the resolved AST of the current '
                    'tree (all sources plus probe/*.cpp, which instantiate the header library), '
                    'lib/absint.py interprets it abstractly, rules/*.py state the properties. '
                    'No hooks in /repo are needed.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(lines), 'properties,', len(checks), 'checks')
