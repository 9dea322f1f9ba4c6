#!/usr/bin/env python3
"""mkseeds.py [ID...]: generate /verif/seeded from seeds*.py (development tool, no check uses it)."""
import os, sys, subprocess, tempfile, shutil, json, glob
D = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(D, '..', '..', 'seeded')
S = {}
def seed(id, prop, needs, breaks, edits, demo):
    assert id not in S, id
    S[id] = (prop, needs, breaks, edits, demo)
for f in sorted(glob.glob(D + '/seeds*.py')):
    exec(open(f).read())
ids = sys.argv[1:] or list(S)
W = tempfile.mkdtemp(prefix='mkseeds-')
try:
    subprocess.run(['git', 'clone', '-q', '/repo', W + '/r'], check=True)
    for id in ids:
        prop, needs, breaks, edits, demo = S[id]
        for f, old, new in edits:
            p = W + '/r/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print('%s: %d matches in %s of %r' % (id, s.count(old), f, old)); break
            open(p, 'w').write(s.replace(old, new))
        d = OUT + '/' + id
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', 'diff'], cwd=W + '/r', text=True))
        subprocess.run(['git', 'checkout', '-q', '.'], cwd=W + '/r', check=True)
        shutil.copy(D + '/lib.py', d + '/lib.py')
        open(d + '/demo.py', 'w').write('from lib import *\n' + demo.lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/sh\nexec env PYTHONDONTWRITEBYTECODE=1 python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
finally:
    shutil.rmtree(W)
print(len(ids), 'seeds')
