#!/usr/bin/env python3
"""Regenerate /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
NOTE = ('Deductive proof over the LLVM IR that clang emits from /repo on every run: pre/postconditions on the public operation, loops summarised for any iteration count, '
        'all extents, strides, paddings and element values symbolic. Float arithmetic is treated as real arithmetic, libm as uninterpreted, allocation as successful; '
        'the verifier, clang and z3 are trusted. A sanitizer-built native replay of the same specification runs alongside.')
CLAIM = json.load(open(os.path.join(root, 'tools', 'claims.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIM['claimed']:
        c = CLAIM['claimed'][i]
        checks.append(dict(property=i, quick_cmd='python3-vt run.py %s' % i, thorough_cmd='python3-vt run.py %s --thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique=c.get('technique', 'contract-based deductive verification of the real code (symbolic execution of its LLVM IR with loop summaries, obligations discharged by a linear prover and z3)'),
                           level=c.get('level', 'proof'), level_note=c.get('note', '') + (' ' if c.get('note') else '') + NOTE))
    else: na.append(dict(property=i, reason=CLAIM['not_applicable'][i]))
json.dump(dict(version=1, setup_cmd='python3-vt run.py --selftest', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the verifier and the native replay build /repo\'s sources as they are.'), open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
