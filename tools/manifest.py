#!/usr/bin/env python3
"""Generates MANIFEST.json from properties.jsonl and the harness cases present."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl') if l.strip()]
have = {}
for fn in sorted(os.listdir(H + '/harness')):
    if fn.endswith('.cpp'):
        for m in re.finditer(r'^CASE\((C\d\d)_(\w+)\)', open(os.path.join(H, 'harness', fn)).read(), re.M):
            have.setdefault(m.group(1), []).append(fn)
        # cases generated by macros register the property with an @property comment
        for m in re.finditer(r'@property (C\d\d)', open(os.path.join(H, 'harness', fn)).read()):
            have.setdefault(m.group(1), []).append(fn)
bounds = json.load(open(H + '/tools/bounds.json')) if os.path.exists(H + '/tools/bounds.json') else {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'symbolic execution of the LLVM IR of the real sources, decided by Z3 (QF_BV)',
            'level': 'model_checking',
            'level_note': bounds.get(i, 'All values of the symbolic inputs within the bounds listed in DESIGN.md for %s; counterexamples are replayed natively against the real code.' % i),
        })
    else:
        na.append({'property': i, 'reason': bounds.get(i, 'No check has been built for it yet.')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
