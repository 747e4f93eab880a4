#!/usr/bin/env python3
"""writes MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, D)
from checks import CHECKS
ids = [json.loads(l)['id'] for l in open(os.path.join(D, 'properties.jsonl'))]
TRUST = 'Trusts the compilers, the Linux kernel and the harness; a violation is reported only after the shrunk case failed again on every re-run.'
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=[], not_applicable=[],
    notes='No hooks in /repo: the checks link /repo/neco.c (and deps/) unmodified and interpose libc with the linker (--wrap).')
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i, evidence_file='evidence/%s.json' % i,
            technique=c.get('technique', 'property-based testing'), level=c.get('level', 'exploration'), level_note=c.get('note', 'Generated-case search with an explicit oracle; holds on everything generated, not a proof.') + ' ' + TRUST))
    else: m['not_applicable'].append(dict(property=i, reason='The check for this property is not built yet.'))
json.dump(m, open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
