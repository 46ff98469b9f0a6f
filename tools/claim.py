#!/usr/bin/env python3
"""claim.py PID 'note' ...: adds to claimed.json and rewrites the manifest"""
import json, os, sys, subprocess
d = os.path.dirname(os.path.abspath(__file__))
f = os.path.join(d, 'claimed.json')
c = json.load(open(f))
for p, n in zip(sys.argv[1::2], sys.argv[2::2]):
    c['claimed'][p] = n
    c['not_applicable'].pop(p, None)
json.dump(c, open(f, 'w'), indent=1)
subprocess.check_call([sys.executable, os.path.join(d, 'mkmanifest.py')])
