#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from specs/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/specs')
sys.path.insert(0, os.path.join(V, 'engine'))
import registry
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    c = registry.PROPS.get(i)
    if c:
        checks.append({
            'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': c['technique'],
            'level': c.get('level', 'proof' if c.get('proof') else 'exploration'), 'level_note': c['note']})
    else:
        na.append({'property': i, 'reason': registry.NOT_APPLICABLE[i]})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks compile the unmodified sources', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Every check compiles /repo to LLVM IR, executes it symbolically against contracts and discharges the obligations with z3; a bounded schedule explorer on the compiled sources searches failing inputs.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
