#!/usr/bin/env python3
"""Writes MANIFEST.json from the claimed properties and the reasons for the others."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(os.path.join(HERE, 'tools', 'claimed.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTE = ('Contracts on the real functions, executed from /repo\'s current source by the pydv verifier; all inputs, loops by '
        'invariants; reals instead of floats; library shims for numpy/shapely are trusted and cross-checked on real runs. ')
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && z3-new --version && cvc5 --version',
         checks=[], not_applicable=[])
for p in props:
    c = CLAIMED['claimed'].get(p['id'])
    if c is not None:
        m['checks'].append(dict(property=p['id'], quick_cmd='./check.py %s' % p['id'],
                                thorough_cmd='VERIF_TIER=thorough ./check.py %s' % p['id'],
                                technique='contract-based deductive verification (pydv VCs on the real code; ring/z3/cvc5)',
                                level='proof', level_note=NOTE + c))
    else:
        m['not_applicable'].append(dict(property=p['id'], reason=CLAIMED['not_applicable'].get(
            p['id'], 'no check for this property has been built yet')))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
