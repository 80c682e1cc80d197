#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import specs
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    s = specs.SPECS.get(p['id'])
    if not s:
        na.append({'property': p['id'], 'reason': specs.NA.get(p['id'], 'check not built yet')}); continue
    c = {'property': p['id'], 'quick_cmd': 'bin/check %s --tier quick' % p['id'], 'technique': s.get('technique', specs.TECH),
         'level': s.get('level', 'model_checking'), 'level_note': s.get('note', specs.NOTE)}
    if not s.get('no_thorough'): c['thorough_cmd'] = 'bin/check %s --tier thorough' % p['id']
    checks.append(c)
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check compiles the sources in /repo/src/libzt itself into a scratch directory; see DESIGN.md. No hooks are needed in /repo.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
