#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, V)
TRUST = (' Trusted: TLC, the projection code in drivers/drv.py and the pure-Python reference cryptography in '
         'lib/refcrypto.py; PyCrypto\'s missing AES C module is replaced by an equivalent shim (lib/kzenv.py).')
CHECKS = json.load(open(os.path.join(V, 'tools', 'checks.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
out = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    c = CHECKS.get(p)
    if not c:
        out['not_applicable'].append({'property': p, 'reason': 'check not built yet'})
        continue
    out['checks'].append({'property': p, 'quick_cmd': 'python3 check.py ' + p,
                          'thorough_cmd': 'env VERIF_TIER=thorough python3 check.py ' + p, 'technique': c['technique'],
                          'level': c.get('level', 'model_checking'), 'level_note': c['note'] + TRUST})
out['notes'] = 'See DESIGN.md. No hooks in /repo are needed; the only /repo commits are fixes (known_findings.txt).'
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
