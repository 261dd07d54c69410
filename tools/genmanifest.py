#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
cs, na = [], []
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        cs.append({'property': i, 'quick_cmd': 'python3 run.py %s --tier quick' % i,
                   'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
                   'technique': c['technique'], 'level': c['level'], 'level_note': c['level_note']})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built for it yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': cs, 'not_applicable': na,
           'notes': 'See DESIGN.md. Every check builds its own driver from /repo and needs no setup.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
