#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, contracts/*.py and tools/na.json"""
import json, os, re
H = '/verif'
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
na = json.load(open(H + '/tools/na.json'))
notes = json.load(open(H + '/tools/notes.json'))
checks = []; nas = []
for p in props:
    i = p['id']
    if os.path.exists(f'{H}/contracts/{i}.py') and i not in na:
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd=f'python3-vt run.py {i} quick', thorough_cmd=f'python3-vt run.py {i} thorough',
            evidence_file=f'evidence/{i}.json',
            technique=n.get('technique', 'contract-based deductive verification: pre/postconditions over the LLVM IR of the real code, obligations discharged by z3 (cvc5 second)'),
            level=n.get('level', 'proof'), level_note=n.get('note', 'Every obligation is discharged for all inputs satisfying the stated precondition; trusts clang, the VC generator in vc/, the solvers and the contracts of external functions listed in the evidence file.')))
    else: nas.append(dict(property=i, reason=na.get(i, 'no check has been built for this property yet')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=nas,
    notes='See DESIGN.md. Checks compile /verif/harness/*.cpp against /repo (no hooks in /repo), symbolically execute the resulting IR and discharge the obligations; replay drivers in /verif/replay turn a failed obligation into a concrete failing input where one is found.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(nas), 'n/a')
