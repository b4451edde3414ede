#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from props import PROPS
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    c = PROPS[i]
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py ' + i,
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': c.get('technique', 'property-based testing with rapid against an independent reference model'),
        'level': 'exploration',
        'level_note': c.get('note', 'Random search over generated cases; shows no violation in what was explored. Trusts the reference model and the Go runtime.'),
    })
json.dump({
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'hooks': {'guard': 'none', 'enable': 'No hooks in /repo: schedule perturbation is added at build time through go build -overlay (harness/cmd/instr).', 'source_commits': []},
    'checks': checks,
    'not_applicable': [{'property': i, 'reason': 'check not built yet'} for i in ids if i not in PROPS],
    'notes': 'See DESIGN.md. Findings and repairs: known_findings.txt.',
}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
