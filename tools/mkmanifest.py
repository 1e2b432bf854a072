"""writes MANIFEST.json from the property modules present in props/"""
import json
import os
import importlib
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = {'D01': 'the Dilithium and Kyber code is in the submodules deps/dilithium and deps/kyber, which are empty here; the wrappers cannot be compiled, so no contract on them can be discharged'}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(H + '/props/%s.py' % i.lower()) and i not in NA:
        m = importlib.import_module('props.' + i.lower())
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': getattr(m, 'TECHNIQUE', 'contract-based deductive verification of the LLVM IR of /repo (own VC generator, z3/cvc5)'),
                       'level': getattr(m, 'LEVEL', 'proof'), 'level_note': m.NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
d = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3"', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Every check compiles /repo/src afresh (LLVM IR for the proof, an AddressSanitizer library for the bounded replay run) into a temporary directory.'}
json.dump(d, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
