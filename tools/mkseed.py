"""Make /verif/seeded/<id>/ from an edit list: mkseed.py FILE.py ...
FILE.py (in tools/seedsrc) defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text; uses PyECLOUD).
The demo is run on a clean copy and on a patched copy of /repo."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HEAD = '''import atexit, os, shutil, sys, tempfile
REPO = os.getcwd()
_t = tempfile.mkdtemp(prefix='demo_')
atexit.register(shutil.rmtree, _t, ignore_errors=True)
os.symlink(REPO, os.path.join(_t, 'PyECLOUD'))
sys.path.insert(0, _t)
sys.dont_write_bytecode = True
os.environ['MPLBACKEND'] = 'Agg'
os.chdir(_t)
import time
time.sleep = lambda s: None
import numpy as np


def check(ok, msg):
    if not ok:
        print('BROKEN: ' + msg)
        sys.exit(1)


'''
SH = '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexec /opt/venv/bin/python "$here/demo.py"\n'


def one(path, native=False):
    ns = {}
    exec(open(path).read(), ns)
    out = '/verif/seeded/' + ns['ID']
    os.makedirs(out, exist_ok=True)
    open(out + '/demo.py', 'w').write(HEAD + ns['DEMO'].lstrip('\n'))
    open(out + '/demo.sh', 'w').write(SH)
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    top = tempfile.mkdtemp(prefix='mkseed_')
    wt = top + '/repo'
    try:
        subprocess.check_call(['cp', '-a', '/repo', wt])
        r0 = subprocess.run(['bash', out + '/demo.sh'], cwd=wt, capture_output=True, text=True)
        for f, a, b in ns['EDITS']:
            t = open(os.path.join(wt, f)).read()
            assert t.count(a) == 1, (f, t.count(a), a)
            open(os.path.join(wt, f), 'w').write(t.replace(a, b))
        d = subprocess.run(['git', 'diff'], cwd=wt, capture_output=True, text=True).stdout
        open(out + '/patch.diff', 'w').write(d)
        if any(f.endswith(('.f', '.c', '.pyx', '.h', '.pxd')) for f, _, _ in ns['EDITS']):
            # native: rebuilt in the copy
            bn = subprocess.run('cd %s && PATH=/opt/venv/bin:$PATH make F2PY=/opt/venv/bin/f2py >/dev/null 2>&1; PATH=/opt/venv/bin:$PATH /opt/venv/bin/python setup.py build_ext -i -f >/dev/null 2>&1' % wt, shell=True)
        r1 = subprocess.run(['bash', out + '/demo.sh'], cwd=wt, capture_output=True, text=True)
        print(ns['ID'], 'clean', r0.returncode, 'patched', r1.returncode, '' if (r0.returncode == 0 and r1.returncode != 0) else 'BAD')
        if r0.returncode:
            print(r0.stdout[-500:], r0.stderr[-1500:])
        print('   ', (r1.stdout[-300:] + r1.stderr[-700:]).strip())
    finally:
        shutil.rmtree(top, ignore_errors=True)


for p in sys.argv[1:]:
    one(p)
