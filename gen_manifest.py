#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the list below"""
import json, subprocess
NOTE = 'Every obligation generated from the current sources is discharged for all inputs (any number of particles, any positions); doubles are treated as reals, containers and linear algebra by contract.'
CLAIMED = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C25 C26 C27 C28'.split()
REASON = 'not claimed'
IO = 'Every obligation generated from the current sources is discharged for all inputs; the standard library, Boost (property tree, format, string algorithms) and file opening are used by contract, texts are uninterpreted values, doubles reals.'
SPECIAL = {i: IO for i in ('C21', 'C22', 'C23', 'C27')}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
fx = []
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: the contracts are kept in /verif/vc/specs.py and (operations of the particle system) and /verif/vc/specs_io.py (the application), bound to the functions by name; the verifier works on the resolved AST clang produces from the unmodified sources on every run.'}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'python3-vt check.py %s --thorough' % i,
            'technique': 'contract-based deductive verification of the real C++ (symbolic execution of the clang AST with loop contracts; z3/cvc5)',
            'level': 'proof', 'level_note': SPECIAL.get(i, NOTE)})
    else: m['not_applicable'].append({'property': i, 'reason': REASON})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
