#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import props
allp = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = getattr(props, 'NOT_APPLICABLE', {})
checks = []
for p in allp:
    if p not in props.PROPS:
        continue
    s = props.PROPS[p]
    checks.append({'property': p, 'quick_cmd': f'./check {p} quick', 'thorough_cmd': f'./check {p} thorough', 'evidence_file': f'evidence/{p}.json',
                   'technique': s.get('technique', props.TECH), 'level': s['level'], 'level_note': s.get('note', props.NOTE)})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': NA.get(p, 'check under construction')} for p in allp if p not in props.PROPS],
     'notes': 'No hooks in /repo: the checks reach the code through overlays and wire-level stand-ins. See DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(m['not_applicable']), 'not applicable')
