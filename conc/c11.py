import math
import os
import shutil
import tempfile
import numpy as np
from conc.util import *
from conc.c10 import cloud as cloud0, untouched, XV

NATIVES = ['int_field_for', 'hist_for']
ME = 9.10938291e-31
QM = 1.602176565e-19 / ME


def cloud(rng, n=None):
    from PyECLOUD.MP_system import MP_system
    ch = ellip(rng)
    n = rng.randint(1, 12) if n is None else n
    return mp_object(rng, ch, n_live=n, n_max=n + rng.randint(1, 20), mass=ME, charge=-QE), n


def expm(A):
    """exp of each matrix of a stack: scaling and squaring with a Taylor polynomial"""
    nrm = np.abs(A).sum(2).max()
    k = max(0, int(math.ceil(math.log(max(nrm, 1e-300), 2))) + 4)
    A = A / 2.**k
    R = np.eye(A.shape[1])[None] + 0 * A
    T = R.copy()
    for j in range(1, 18):
        T = np.einsum('nij,njk->nik', T, A) / j
        R = R + T
    for _ in range(k):
        R = np.einsum('nij,njk->nik', R, R)
    return R


def exact(x, v, Ex, Ey, Bx, By, dt):
    """motion of an electron in uniform E = (Ex, Ey, 0), B = (Bx, By, 0): d/dt (r, v dt) as an exponential, time in units of dt"""
    n = x.shape[1]
    A = np.zeros((n, 7, 7))
    w = np.array([QM * dt * Bx, QM * dt * By])
    for i in range(3):
        A[:, i, 3 + i] = 1.
    # v' = -qm (E + v x B);   v x B = (-vz By, vz Bx, vx By - vy Bx)
    A[:, 3, 5] = w[1]
    A[:, 4, 5] = -w[0]
    A[:, 5, 3] = -w[1]
    A[:, 5, 4] = w[0]
    A[:, 3, 6] = -QM * Ex * dt * dt
    A[:, 4, 6] = -QM * Ey * dt * dt
    S = np.concatenate([x, v * dt, np.ones((1, n))]).T
    R = np.einsum('nij,nj->ni', expm(A), S).T
    return R[:3], R[3:6] / dt


def get(o, n):
    return np.array([getattr(o, a)[:n] for a in XV[:3]]), np.array([getattr(o, a)[:n] for a in XV[3:]])


def snap(o):
    return {a: getattr(o, a).copy() for a in XV + ['nel_mp']}


def compare(o, n, X, V, x0, v0, Ex, Ey, dt, th, what, tol=1e-9):
    gx, gv = get(o, n)
    vs = np.sqrt((v0**2).sum(0)) + QM * np.hypot(Ex, Ey) * dt + 1e-300
    xs = np.abs(x0).max(0) + vs * dt
    t = tol + 1e-14 / np.where(th > 0, th, 1.)**2
    # near a zero of the field the errors of the drift terms are amplified by 1/theta^2
    for k in range(3):
        need(np.all(np.abs(gx[k] - X[k]) <= t * xs), '%s: %s is not the exact motion in a uniform field' % (what, 'xyz'[k]), 'position')
        need(np.all(np.abs(gv[k] - V[k]) <= t * vs), '%s: v%s is not the exact motion in a uniform field' % (what, 'xyz'[k]), 'velocity')


def efield(rng, n):
    if rng.rand() < .25:
        return np.zeros(n), np.zeros(n)
    return rng.randn(n) * 10**rng.uniform(1, 6), rng.randn(n) * 10**rng.uniform(1, 6)


def energy(o, n, v0, what):
    v = get(o, n)[1]
    a, b = (v**2).sum(0), (v0**2).sum(0)
    need(np.all(np.abs(a - b) <= 1e-9 * b), '%s: without electric field the energy changes' % what, 'energy')


def independent(rng, mk, o, o2, n, Ex, Ey, pu, what):
    """the particle alone moves as within the cloud"""
    i = rng.randint(n)
    for a in XV + ['nel_mp']:
        getattr(o2, a)[0] = o2.__dict__[a][i]
    o2.N_mp = 1
    pu.step(o2, Ex[i:i + 1].copy(), Ey[i:i + 1].copy())
    for a in XV:
        g, r = getattr(o2, a)[0], getattr(o, a)[i]
        need(abs(g - r) <= 1e-9 * abs(r) + 1e-14 * np.abs(getattr(o, a)[:n]).max(),
             '%s: the motion of a macroparticle depends on the others' % what, 'independent')


def make(kind, rng):
    """pusher, dt, function (x, y) -> (Bx, By) seen by the particles, threshold"""
    from PyECLOUD import dynamics_dipole, dynamics_strong_B_generalized as sg
    dt = 10**rng.uniform(-12, -10)
    th = 10**rng.uniform(-2, 2.5) * rng.choice([-1, 1])
    B = th / (QM * dt)
    if kind == 'dipole':
        if rng.rand() < .2:
            B = rng.choice([0., 1e-6, 1e-5, 3e-5]) * B / abs(th)
        return dynamics_dipole.pusher_dipole_magnet(dt, B), dt, lambda x, y: (0 * x, 0 * x + B), 0.
    a = rng.uniform(0, 2 * math.pi) if rng.rand() < .6 else rng.choice([0., .5, 1., 1.5]) * math.pi
    bx, by = B * math.cos(a), B * math.sin(a)
    thr = abs(B) * 10**rng.uniform(-2, 0.5)
    if kind == 'uniform':
        return sg.pusher_strong_B_generalized(dt, bx, by, None, None, thr), dt, lambda x, y: (0 * x + bx, 0 * y + by), thr
    g = rng.choice([-1, 1]) * abs(B) / 2e-2 * 10**rng.uniform(-1, .5)
    thr = abs(B) * 10**rng.uniform(-2, -.3)
    if rng.rand() < .5:
        bx = by = 0.
    if kind == 'quad':
        import sys
        name = sys.intern('analytic_qaudrupole_unit_grad')
        return sg.pusher_strong_B_generalized(dt, bx, by, name, g, thr), dt, lambda x, y: (g * y + bx, g * x + by), thr
    # map, affine so that linear interpolation reproduces it
    import scipy.io as sio
    d = tempfile.mkdtemp(prefix='pvmap')
    try:
        hx, hy = [10**rng.uniform(-3, -2) for _ in '12']
        nx, ny = int(.25 / hx) + 4, int(.25 / hy) + 4
        xx = -.5 * hx * nx + hx * np.arange(nx) + rng.uniform(0, .5) * hx
        yy = -.5 * hy * ny + hy * np.arange(ny) + rng.uniform(0, .5) * hy
        c = rng.randn(8)
        f = [lambda x, y, k=k: c[k] + c[k + 1] * x / .05 + c[k + 2] * y / .05 + c[k + 3] * x * y / .0025 for k in (0, 4)]
        X, Y = np.meshgrid(xx, yy, indexing='ij')
        sio.savemat(os.path.join(d, 'm.mat'), {'Bx': f[0](X, Y), 'By': f[1](X, Y), 'xx': xx, 'yy': yy}, oned_as='row')
        pu = sg.pusher_strong_B_generalized(dt, bx, by, os.path.join(d, 'm.mat'), B, thr)
    finally:
        shutil.rmtree(d)

    def fld(x, y):
        # outside the mapped region the interpolated field vanishes
        inn = (x > xx[0]) & (x < xx[-1]) & (y > yy[0]) & (y < yy[-1])
        return np.where(inn, B * f[0](x, y), 0.) + bx, np.where(inn, B * f[1](x, y), 0.) + by
    return pu, dt, fld, thr


def one(rng, kind):
    pu, dt, fld, thr = make(kind, rng)
    o, n = cloud(rng)
    s = snap(o)
    x0, v0 = get(o, n)
    Ex, Ey = efield(rng, n)
    e0 = (Ex.copy(), Ey.copy())
    Bx, By = fld(x0[0], x0[1])
    bm = np.hypot(Bx, By)
    if np.any(np.abs(bm - thr) < 1e-6 * thr):
        return
    off = bm < thr
    X, V = exact(x0, v0, Ex, Ey, np.where(off, 0., Bx), np.where(off, 0., By), dt)
    th = np.where(off, 0., bm * QM * dt)
    r = pu.step(o, Ex, Ey)
    need(r is None or r is o, '%s: step does not work in place' % kind)
    need(eq(Ex, e0[0]) and eq(Ey, e0[1]), '%s: the fields passed in were changed' % kind, 'fields')
    if kind == 'dipole':
        th = np.where(th < 2e-2, 0., th)
        compare(o, n, X, V, x0, v0, Ex, Ey, dt, th, kind, 1e-7)
    else:
        compare(o, n, X, V, x0, v0, Ex, Ey, dt, th, kind, 1e-9 if kind != 'map' else 1e-7)
    untouched(o, s, n, kind)
    if not (e0[0].any() or e0[1].any()):
        energy(o, n, v0, kind)
    o2, _ = cloud(rng, n)
    for a in XV + ['nel_mp']:
        getattr(o2, a)[:n] = s[a][:n]
    independent(rng, None, o, o2, n, Ex, Ey, pu, kind)
    if rng.rand() < .3:
        o2.N_mp = 0
        s2 = snap(o2)
        pu.step(o2, np.zeros(0), np.zeros(0))
        for a in XV:
            need(eq(getattr(o2, a), s2[a]), '%s: step without macroparticles changes the arrays' % kind, 'empty')


def case_dipole(rng):
    one(rng, 'dipole')


def case_uniform(rng):
    one(rng, 'uniform')


def case_quad(rng):
    one(rng, 'quad')


def case_map(rng):
    one(rng, 'map')


def case_many(rng):
    """several steps, the same pusher reused, the number of particles changing in between: each step is exact"""
    kind = rng.choice(['dipole', 'uniform', 'quad'])
    pu, dt, fld, thr = make(kind, rng)
    for _ in range(3):
        o, n = cloud(rng)
        for _ in range(2):
            x0, v0 = get(o, n)
            Ex, Ey = efield(rng, n)
            Bx, By = fld(x0[0], x0[1])
            bm = np.hypot(Bx, By)
            if np.any(np.abs(bm - thr) < 1e-6 * thr):
                return
            off = bm < thr
            X, V = exact(x0, v0, Ex, Ey, np.where(off, 0., Bx), np.where(off, 0., By), dt)
            th = np.where(off, 0., bm * QM * dt)
            if kind == 'dipole':
                th = np.where(th < 2e-2, 0., th)
            pu.step(o, Ex, Ey)
            compare(o, n, X, V, x0, v0, Ex, Ey, dt, th, kind, 1e-7 if kind == 'dipole' else 1e-9)


def case_sincc(rng):
    from PyECLOUD import sincc_cosincc_cubsincc as cs
    th = 10**rng.uniform(-8, 3) * rng.choice([-1, 1])
    if rng.rand() < .1:
        th = 0.
    if abs(th) < .5:
        t2 = th * th
        ref = [1 - t2 / 6 + t2**2 / 120 - t2**3 / 5040 + t2**4 / 362880, .5 - t2 / 24 + t2**2 / 720 - t2**3 / 40320 + t2**4 / 3628800,
               1. / 6 - t2 / 120 + t2**2 / 5040 - t2**3 / 362880 + t2**4 / 39916800]
    else:
        ref = [math.sin(th) / th, (1 - math.cos(th)) / th**2, (th - math.sin(th)) / th**3]
    for k, r in zip(('sincc', 'cosincc', 'cubsincc'), ref):
        g = getattr(cs, k)(th)
        need(abs(g - r) <= 1e-7 + 1e-4 * (k == 'cubsincc' and abs(th) < 1e-3) + 1e-6 * (k != 'sincc' and abs(th) < 1e-3),
             '%s(%g) = %g instead of %g' % (k, th, g, r), k)


CASES = {k[5:]: f for k, f in list(globals().items()) if k.startswith('case_')}
