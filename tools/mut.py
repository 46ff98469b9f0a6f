"""mut.py PID FILE OLD NEW [check args]: run a check against a scratch copy of /repo with one textual change."""
import os, shutil, subprocess, sys, tempfile
pid, fn, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='mut')
try:
    r = d + '/repo'
    shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    s = open(r + '/' + fn).read()
    old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
    assert s.count(old) >= 1, 'text not found'
    open(r + '/' + fn, 'w').write(s.replace(old, new, 1))
    p = subprocess.run(['./check.py', pid] + sys.argv[5:], cwd='/verif', env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
    print('\n'.join((p.stdout + p.stderr).strip().splitlines()[-12:])[:6000], '\nEXIT', p.returncode)
finally:
    shutil.rmtree(d)
