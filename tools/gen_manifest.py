#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import REG, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    if p not in REG: continue
    r = REG[p]
    checks.append({'property': p, 'quick_cmd': 'python3 tools/check.py %s' % p, 'thorough_cmd': 'python3 tools/check.py %s thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
                   'technique': 'symbolic execution of the LLVM IR compiled from /repo, decided by SMT (Z3, cvc5)', 'level': 'model_checking',
                   'level_note': 'Bounded: holds for ' + r['bounds'] + '. Outside: ' + r['outside'] + '. Trusts rustc, the executor (finished paths are replayed natively) and the solvers.'})
na = [{'property': p, 'reason': NA.get(p, 'no check built yet')} for p in props if p not in REG]
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo are needed: the harnesses drive public functions and the real binaries\' main functions.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
