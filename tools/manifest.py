#!/usr/bin/env python3-vt
"""MANIFEST.json from symx/spec.py"""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'symx'))
import spec
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    s = spec.SPEC.get(i)
    if not s:
        continue
    checks.append({
        'property': i, 'quick_cmd': 'python3-vt check.py %s' % i,
        'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % i,
        'technique': 'symbolic execution of the LLVM IR of the real sources; assertions decided by Z3 over exact reals; counterexamples replayed natively',
        'level': 'model_checking',
        'level_note': ('bounded: ' + s['bounds'] + '. Oracle: ' + s.get('oracle', '') +
                       '. Doubles are modelled as exact reals; libm by algebraic identities and range axioms; models of iostream/filesystem/' 
                       'HDF5/MPI listed in DESIGN.md are trusted. ' + s.get('outside', ''))[:1500]})
na = [{'property': i, 'reason': spec.NA.get(i, 'no check built for this property yet')} for i in ids if i not in spec.SPEC]
m = {'version': 1, 'setup_cmd': 'python3-vt check.py --selftest',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed in /repo: harnesses compile the repository sources unchanged. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
