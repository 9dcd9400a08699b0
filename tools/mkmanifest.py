#!/usr/bin/env python3
"""Writes MANIFEST.json and known-findings.txt."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
levels = json.load(open(os.path.join(here, 'tools', 'levels.json')))
checks = []
for p in props:
    i = p['id']
    l = levels.get(i, levels['default'])
    checks.append({
        'property': i,
        'quick_cmd': f'./check.sh {i} quick',
        'thorough_cmd': f'./check.sh {i} thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': l['technique'], 'level': l['level'], 'level_note': l['note'],
    })
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [],
     'notes': 'Contracts are in /verif/contracts, the verifier in /verif/gov, the concrete searches in /verif/harness. No hooks in /repo: contracts are keyed by function and applied to the SSA form of the current source.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
