#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the sub-checks the harness registers."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
subprocess.check_call([f'{V}/check.sh', '--build'])
have = {}
for l in subprocess.check_output([f'{V}/build/verif', 'list'], text=True).splitlines():
    p, s, *_ = l.split(); have.setdefault(p, []).append(s)
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            'property': i,
            'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'property-based testing: generated cases (rapid) against an explicit oracle, shrunk to a replay file',
            'level': 'exploration',
            'level_note': 'random structured search over generated cases with an independent oracle; sub-checks: ' + ', '.join(have[i]) + '. No exhaustiveness claim; bounds on sizes and depths are in DESIGN.md.'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './check.sh --build', 'checks': checks, 'not_applicable': na}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1); open(f'{V}/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
