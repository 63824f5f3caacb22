"""Scratch package of /repo's current tree with native modules that match its current sources."""
import concurrent.futures
import glob
import hashlib
import json
import os
import shlex
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import atexit

REPO = os.environ.get('PV_REPO', '/repo')
F2PY = '/opt/venv/bin/f2py'
HERE = os.path.dirname(os.path.abspath(__file__))


def digest(command, files, d):
    h = hashlib.sha256(repr(command).encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        p = os.path.join(d, f)
        h.update(open(p, "rb").read() if os.path.exists(p) else b"missing")
    return h.hexdigest()


def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                       env=dict(os.environ, PATH='/opt/venv/bin:' + os.environ.get('PATH', ''), CCACHE_DISABLE='1'))
    return p.returncode, p.stdout


def scratch_package(natives=None):
    """-> directory to put on sys.path; contains package PyECLOUD"""
    top = tempfile.mkdtemp(prefix='pvconc_')
    atexit.register(shutil.rmtree, top, ignore_errors=True)
    pk = os.path.join(top, 'PyECLOUD')
    os.mkdir(pk)
    for f in os.listdir(REPO):
        if f.endswith(('.py', '.pyx', '.pxd', '.h', '.c', '.f')) or f in ('Makefile',):
            if f in ('geom_impact_poly_cython.c', 'boris_cython.c'):
                continue
            shutil.copy(os.path.join(REPO, f), os.path.join(pk, f))
    suf = sysconfig.get_config_var('EXT_SUFFIX') or '.so'
    try:
        stamps = json.load(open(os.path.join(REPO, 'build', 'vp-stamps.json')))
    except (OSError, ValueError):
        stamps = {}
    jobs = []
    out = subprocess.run(['make', '-n', 'all', 'F2PY=' + F2PY], cwd=pk, stdout=subprocess.PIPE, text=True).stdout
    for line in out.splitlines():
        cmd = shlex.split(line)
        if not cmd or 'f2py' not in cmd[0] or '-m' not in cmd:
            continue
        name = cmd[cmd.index('-m') + 1]
        if natives is not None and name not in natives:
            continue
        files = [a for a in cmd if a.endswith('.f')]
        so = os.path.join(REPO, name + suf)
        if stamps.get(name) == digest(cmd, files, REPO) and os.path.exists(so):
            shutil.copy(so, pk)
            continue
        jobs.append((name, 'f', cmd))
    pyx = sorted(os.path.basename(q) for q in glob.glob(os.path.join(REPO, '*.pyx')))
    cyfiles = pyx + [os.path.basename(q) for e in ('*.pxd', '*.h') for q in glob.glob(os.path.join(REPO, e))] + ['boris_c_function.c', 'setup.py']
    cy_ok = stamps.get('+'.join(q[:-4] for q in pyx)) == digest(['/opt/venv/bin/python', 'setup.py', 'build_ext', '-i', '-f'], cyfiles, REPO)
    for name, deps in (('geom_impact_poly_cython', ['geom_impact_poly_cython.pyx']),
                       ('boris_cython', ['boris_cython.pyx', 'boris_cython.pxd', 'boris_c_function.c', 'boris_c_function.h'])):
        if natives is not None and name not in natives:
            continue
        so = os.path.join(REPO, name + suf)
        if cy_ok and os.path.exists(so):
            shutil.copy(so, pk)
            continue
        jobs.append((name, 'c', deps))
    if jobs:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for msg in ex.map(lambda j: build(j, pk, suf), jobs):
                if msg:
                    sys.stderr.write(msg + '\n')
    return top


def build(job, pk, suf):
    name, kind, arg = job
    d = tempfile.mkdtemp(prefix='pvnat_')
    try:
        for f in os.listdir(pk):
            if not f.endswith('.so') and f != '__init__.py':
                shutil.copy(os.path.join(pk, f), d)
        if kind == 'f':
            rc, out = run(arg, d)
        else:
            inc = sysconfig.get_paths()['include']
            import numpy
            rc, out = run(['/opt/venv/bin/cython', '-3', name + '.pyx'], d)
            if rc == 0:
                src = [name + '.c'] + [a for a in arg if a.endswith('.c')]
                rc, o2 = run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-I' + numpy.get_include(), '-I' + inc] + src + ['-o', name + suf, '-lm'], d)
                out += o2
        sos = glob.glob(os.path.join(d, name + '.*.so'))
        if rc or not sos:
            return 'native build of %s failed: %s' % (name, out[-2000:])
        shutil.copy(sos[0], pk)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    if 1:
        import time
        t = time.time()
        top = scratch_package()
        sys.path.insert(0, top)
        import PyECLOUD.buildup_simulation
        print(os.listdir(os.path.join(top, 'PyECLOUD')), time.time() - t)
