#!/usr/bin/env python3
"""seed.py FILE : makes seeded/<id>/ from a description (id, property, file, replacements, needs, breaks, demo)."""
import json, os, subprocess, sys, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    for s in runpy.run_path(f)['SEEDS']:
        d = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        for fn, old, new in s['edits']:
            p = os.path.join('/repo', fn)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], fn, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\nMPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print(s['id'])
