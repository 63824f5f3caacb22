import math
import numpy as np
from conc.util import *
from conc.main import Skip

NATIVES = ['boris_step', 'boris_cython', 'int_field_for', 'hist_for']
XV = ['x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp']
SPEC = [('electron', 9.10938291e-31, -QE), ('proton', 1.672621777e-27, QE), ('ion', 28 * 1.66e-27, 2 * QE)]


def boris(x, v, E, B, qm, dt):
    t = .5 * qm * dt * B
    s = 2 * t / (1 + (t * t).sum(0))
    vm = v + .5 * qm * dt * E
    vp = vm + np.cross(vm, t, axis=0)
    vn = vm + np.cross(vp, s, axis=0) + .5 * qm * dt * E
    return x + vn * dt, vn


def cloud(rng, n=None, n_max=None):
    from PyECLOUD.MP_system import MP_system
    ch = ellip(rng)
    nm, m, q = SPEC[rng.randint(len(SPEC))]
    n = rng.randint(1, 30) if n is None else n
    o = mp_object(rng, ch, n_live=n, n_max=n + rng.randint(1, 20), mass=m, charge=q)
    o.vx_mp *= math.sqrt(9.1e-31 / m)
    o.vz_mp *= 10**rng.uniform(-2, 1)
    return o, n, q / m


def same(o, x, v, n, what, sc):
    for k, a in enumerate(XV):
        r = (x if k < 3 else v)[k % 3]
        g = getattr(o, a)[:n]
        need(np.all(np.abs(g - r) <= 1e-9 * sc[k // 3]), '%s: %s differs from the half kick - rotation - half kick map' % (what, a))


def scales(x, v, E, qm, T):
    vs = np.abs(v).max() + np.abs(qm * E).max() * T + 1e-300
    return np.abs(x).max() + vs * T, vs


def untouched(o, s, n, what):
    for a in XV + ['nel_mp']:
        need(eq(getattr(o, a)[n:], s[a][n:]), '%s: unused slots of %s changed' % (what, a), 'tail')
    need(eq(o.nel_mp, s['nel_mp']) and o.N_mp == n, '%s: charges or number of macroparticles changed' % what, 'charge')


def run(pu, o, Ex, Ey, dt, ns, custom, Ez=None):
    kw = {} if Ez is None else {'Ez_n': Ez}
    if custom:
        r = pu.stepcustomDt(o, Ex, Ey, Dt_substep=dt / ns, N_sub_steps=ns, **kw)
    else:
        r = pu.step(o, Ex, Ey, **kw)
    return r


def fields(rng, n, qm, dt):
    """electric fields and a magnetic field scale giving small to very large rotation angles"""
    E = np.array([rng.randn(n), rng.randn(n), np.zeros(n)]) * 10**rng.uniform(1, 6)
    if rng.rand() < .3:
        E[:] = 0
    ang = 10**rng.uniform(-3, 1.5)
    return E, ang / abs(qm * dt)


def case_uniform(rng):
    from PyECLOUD import dynamics_Boris_f2py as D
    o, n, qm = cloud(rng)
    ns = rng.randint(1, 8)
    dt = 10**rng.uniform(-12, -10)
    E, Bs = fields(rng, n, qm, dt / ns)
    B0 = rng.randn(3) * Bs * (rng.rand(3) < .7)
    custom = rng.rand() < .5
    quad = rng.rand() < .4
    g = Bs / (np.abs(o.x_mp[:n]).max() + np.abs(o.y_mp[:n]).max())
    args = (dt, B0[0], B0[1], B0[2], 'analytic_qaudrupole_unit_grad' if quad else None, g)
    pu = D.pusher_Boris(*args, N_sub_steps=ns) if not custom else D.pusher_Boris(7 * dt, *args[1:], N_sub_steps=rng.randint(1, 9))
    s = snap(o)
    x, v = np.array([s[a][:n] for a in XV[:3]]), np.array([s[a][:n] for a in XV[3:]])
    Ek, v0, x0 = E.copy(), v.copy(), x.copy()
    sc = scales(x, v, E, qm, dt)
    for k in range(ns):
        B = np.array([b + 0 * x[0] for b in B0])
        if quad:
            B[0] += g * x[1]
            B[1] += g * x[0]
        x, v = boris(x, v, E, B, qm, dt / ns)
    r = run(pu, o, E[0], E[1], dt, ns, custom)
    need(r is o, 'step returns another cloud')
    what = 'Boris tracker (%s)' % ('quadrupole' if quad else 'uniform field')
    if not quad or Bs * abs(qm * dt) < 3:
        same(o, x, v, n, what, sc)
    untouched(o, s, n, what)
    need(eq(E, Ek), 'field arrays changed')
    vn = np.array([getattr(o, a)[:n] for a in XV[3:]])
    if not E.any():
        e0 = (v0**2).sum(0)
        need(np.all(np.abs((vn**2).sum(0) - e0) <= 1e-11 * e0), 'kinetic energy not conserved without electric field', 'energy')
    if not B0.any() and not quad:
        need(np.all(np.abs(vn - v0 - qm * E * dt) <= 1e-11 * sc[1]), 'no magnetic field: not a uniform acceleration', 'acceleration')
        xr = x0 + sum((v0 + qm * E * dt / ns * (k + 1)) * dt / ns for k in range(ns))
        need(np.all(np.abs(np.array([getattr(o, a)[:n] for a in XV[:3]]) - xr) <= 1e-10 * sc[0]), 'no magnetic field: positions', 'acceleration')


def case_multipole(rng):
    from PyECLOUD import dynamics_Boris_multipole as D
    o, n, qm = cloud(rng)
    ns = rng.randint(1, 8)
    dt = 10**rng.uniform(-12, -10)
    E, Bs = fields(rng, n, qm, dt / ns)
    K = rng.randint(1, 6)
    size = np.hypot(o.x_mp[:n], o.y_mp[:n]).max() + 1e-6
    Bm = rng.randn(K) * Bs * (rng.rand(K) < .7) * np.array([math.factorial(k) / size**k for k in range(K)])
    Sk = rng.randn(K) * Bs * np.array([math.factorial(k) / size**k for k in range(K)]) if rng.rand() < .5 else None
    ext = rng.rand() < .5
    B0 = [rng.randn() * Bs if ext and rng.rand() < .7 else None for _ in range(3)]
    Bn = [rng.randn(n) * Bs if rng.rand() < .3 else None for _ in range(3)]
    custom = rng.rand() < .5
    kb = dict(B_multip=Bm if rng.rand() < .5 else list(Bm), B_skew=Sk, B0x=B0[0], B0y=B0[1], B0z=B0[2])
    pu = D.pusher_Boris_multipole(Dt=dt, N_sub_steps=ns, **kb) if not custom else D.pusher_Boris_multipole(Dt=3 * dt, N_sub_steps=rng.randint(1, 9), **kb)
    s = snap(o)
    x, v = np.array([s[a][:n] for a in XV[:3]]), np.array([s[a][:n] for a in XV[3:]])
    v0 = v.copy()
    sc = scales(x, v, E, qm, dt)
    for k in range(ns):
        w = sum((Bm[j] + 1j * (Sk[j] if Sk is not None else 0)) / math.factorial(j) * (x[0] + 1j * x[1])**j for j in range(K))
        B = np.array([w.imag, w.real, 0 * x[0]])
        for c in range(3):
            if B0[c] is not None:
                B[c] += B0[c]
            if Bn[c] is not None:
                B[c] += Bn[c]
        x, v = boris(x, v, E, B, qm, dt / ns)
    kw = dict(Bx_n=Bn[0], By_n=Bn[1], Bz_n=Bn[2])
    keep = [b.copy() if b is not None else None for b in Bn]
    if custom:
        r = pu.stepcustomDt(o, E[0], E[1], Dt_substep=dt / ns, N_sub_steps=ns, **kw)
    else:
        r = pu.step(o, E[0], E[1], **kw)
    need(r is o, 'step returns another cloud')
    small = Bs * abs(qm * dt) < 2 and max(np.hypot(x[0], x[1]).max(), 0) < 3 * size
    if small or (K == 1):
        same(o, x, v, n, 'multipole Boris tracker', sc)
    untouched(o, s, n, 'multipole Boris tracker')
    need(all(a is None or eq(a, b) for a, b in zip(Bn, keep)), 'field arrays changed')
    if not E.any():
        e0 = (v0**2).sum(0)
        vn = np.array([getattr(o, a)[:n] for a in XV[3:]])
        need(np.all(np.abs((vn**2).sum(0) - e0) <= 1e-11 * e0), 'kinetic energy not conserved without electric field', 'energy')


def case_kernels(rng):
    """the Fortran and the C implementation compute the same map; every particle by itself"""
    from PyECLOUD import dynamics_Boris_f2py as D, dynamics_Boris_multipole as DM
    o, n, qm = cloud(rng)
    o2, _, _ = cloud(rng, n)
    ns = rng.randint(1, 6)
    dt = 10**rng.uniform(-12, -10)
    E, Bs = fields(rng, n, qm, dt / ns)
    g = rng.randn() * Bs / (np.abs(o.x_mp[:n]).max() + np.abs(o.y_mp[:n]).max())
    quad = rng.rand() < .5 and Bs * abs(qm * dt) < 2
    B0 = rng.randn(3) * Bs
    for q in (o2,):
        for a in XV + ['nel_mp']:
            setattr(q, a, getattr(o, a).copy())
        q.mass, q.charge, q.N_mp = o.mass, o.charge, n
    f = D.pusher_Boris(dt, B0[0], B0[1], B0[2], 'analytic_qaudrupole_unit_grad' if quad else None, g, N_sub_steps=ns)
    c = DM.pusher_Boris_multipole(dt, ns, [0., g] if quad else None, None, B0[0], B0[1], B0[2])
    perm = rng.permutation(n)
    for a in XV:
        getattr(o2, a)[:n] = getattr(o, a)[:n][perm]
    x, v = np.array([getattr(o, a)[:n] for a in XV[:3]]), np.array([getattr(o, a)[:n] for a in XV[3:]])
    sc = scales(x, v, E, qm, dt)
    f.step(o, E[0].copy(), E[1].copy())
    c.step(o2, E[0][perm].copy(), E[1][perm].copy())
    for k, a in enumerate(XV):
        need(np.all(np.abs(getattr(o, a)[:n][perm] - getattr(o2, a)[:n]) <= 1e-8 * sc[k // 3]), 'Fortran and C implementations differ (%s)' % a)


def case_longitudinal(rng):
    """longitudinal electric field and per-particle fields of the Fortran kernel"""
    from PyECLOUD.boris_step import boris_step
    n = rng.randint(1, 30)
    nm, m, q = SPEC[rng.randint(len(SPEC))]
    qm = q / m
    dt = 10**rng.uniform(-13, -10)
    x, v = rng.randn(3, n) * 1e-2, rng.randn(3, n) * 1e6
    E = rng.randn(3, n) * 10**rng.uniform(1, 6)
    B = rng.randn(3, n) * 10**rng.uniform(-3, 1.5) / abs(qm * dt)
    xr, vr = boris(x, v, E, B, qm, dt)
    sc = scales(x, v, E, qm, dt)
    a = [u.copy() for u in x] + [u.copy() for u in v]
    boris_step(dt, *a, *E, *B, m, q)
    for k in range(6):
        r = (xr if k < 3 else vr)[k % 3]
        need(np.all(np.abs(a[k] - r) <= 1e-9 * sc[k // 3]), 'Fortran kernel: component %d differs from the Boris map' % k)


def case_map(rng):
    """magnetic field map: bilinear interpolation of the rescaled map plus the uniform field"""
    import scipy.io as sio
    import tempfile, os, shutil
    from PyECLOUD import dynamics_Boris_f2py as D
    nx, ny = rng.randint(3, 9), rng.randint(3, 9)
    dx, dy = 10**rng.uniform(-3, -2), 10**rng.uniform(-3, -2)
    xx, yy = np.arange(nx) * dx - rng.rand() * nx * dx, np.arange(ny) * dy - rng.rand() * ny * dy
    mp = {k: rng.randn(nx, ny) for k in ('Bx', 'By', 'Bz')}
    hz = rng.rand() < .5
    d = dict(xx=xx, yy=yy, Bx=mp['Bx'], By=mp['By'])
    if hz:
        d['Bz'] = mp['Bz']
    B0, g = rng.randn(3), rng.randn()
    t = tempfile.mkdtemp()
    try:
        fn = os.path.join(t, 'b.mat')
        sio.savemat(fn, d)
        pu = D.pusher_Boris(1e-11, B0[0], B0[1], B0[2], fn, g, N_sub_steps=1)
    finally:
        shutil.rmtree(t)
    n = rng.randint(1, 20)
    u, w = rng.uniform(.001, nx - 1.001, n), rng.uniform(.001, ny - 1.001, n)
    B = pu.B_ob.get_B(xx[0] + u * dx, yy[0] + w * dy)
    i, j = u.astype(int), w.astype(int)
    a, b = u - i, w - j
    for c, k in enumerate(('Bx', 'By', 'Bz')):
        M = mp[k] if k != 'Bz' or hz else 0 * mp[k]
        r = M[i, j] * (1 - a) * (1 - b) + M[i + 1, j] * a * (1 - b) + M[i, j + 1] * (1 - a) * b + M[i + 1, j + 1] * a * b
        need(close(B[c], g * r + B0[c], 1e-8, 1e-8), 'magnetic field map %s: not the rescaled bilinear interpolation plus the uniform field' % k)


def case_empty(rng):
    from PyECLOUD import dynamics_Boris_f2py as D, dynamics_Boris_multipole as DM
    o, n, qm = cloud(rng, 0)
    s = snap(o)
    pu = D.pusher_Boris(1e-11, 1., 0., 0., None, 1., N_sub_steps=3) if rng.rand() < .5 else DM.pusher_Boris_multipole(1e-11, 3, [1.])
    pu.step(o, np.zeros(0), np.zeros(0))
    untouched(o, s, 0, 'empty cloud')


CASES = {k[5:]: f for k, f in list(globals().items()) if k.startswith('case_')}
