import numpy as np
from conc.main import Bad, Skip

from scipy.constants import e as QE
ATTRS = ['x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp', 'nel_mp']


def need(cond, msg, key=''):
    if not cond:
        raise Bad(msg, key)


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) if a.dtype.kind == 'f' else a == b))


def close(a, b, rtol=1e-9, atol=0.):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))


def ellip(rng, seg=False):
    from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
    return ellip_cham_geom_object(10**rng.uniform(-2.5, -1), 10**rng.uniform(-2.5, -1))


POLY = {
    'rect': ([1, -1, -1, 1], [1, 1, -1, -1]),
    'hexagon': ([1, .5, -.5, -1, -.5, .5], [0, .8, .8, 0, -.8, -.8]),
    'concave': ([1, 1, 0, -1, -1], [-1, 1, .4, 1, -1]),
    'triangle': ([1, -.2, -1], [-.9, 1, -.4]),
}


def polygon(rng, name=None, yields=True):
    from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_geom_object
    name = name or list(POLY)[rng.randint(len(POLY))]
    vx, vy = POLY[name]
    sx, sy = 10**rng.uniform(-2.3, -1.3), 10**rng.uniform(-2.3, -1.3)
    d = {'Vx': np.array(vx, float) * sx, 'Vy': np.array(vy, float) * sy, 'x_sem_ellip_insc': 0.2 * sx, 'y_sem_ellip_insc': 0.2 * sy}
    return polyg_cham_geom_object(d, flag_non_unif_sey=False, flag_assume_convex=(name != 'concave'))


def chamber(rng):
    return ellip(rng) if rng.rand() < .5 else polygon(rng)


def mp_object(rng, chamb, n_live=None, n_max=None, lifetime=None, mass=9.10938291e-31, charge=-QE, **kw):
    from PyECLOUD.MP_system import MP_system
    n_max = n_max or 400
    lifetime = bool(rng.randint(2)) if lifetime is None else lifetime
    d = dict(N_mp_max=n_max, nel_mp_ref_0=10**rng.uniform(2, 6), fact_split=rng.uniform(1.2, 3), fact_clean=10**rng.uniform(-7, -1),
             N_mp_regen_low=5, N_mp_regen=1000000, N_mp_after_regen=100,
             Dx_hist_reg=chamb.x_aper / 20., Nx_reg=11, Ny_reg=9, Nvx_reg=7, Nvy_reg=5, Nvz_reg=5, regen_hist_cut=1e-4, chamb=chamb,
             N_mp_soft_regen=None, N_mp_after_soft_regen=None, charge=charge, mass=mass, flag_lifetime_hist=lifetime)
    d.update(kw)
    o = MP_system(**d)
    o.set_nel_mp_ref(o.nel_mp_ref_0 * (1. if rng.rand() < .4 else rng.uniform(.5, 5)))
    n = rng.randint(0, 60) if n_live is None else n_live
    x, y = inside(rng, chamb, n)
    o.x_mp[:n], o.y_mp[:n], o.z_mp[:n] = x, y, rng.randn(n)
    for a in ('vx_mp', 'vy_mp', 'vz_mp'):
        getattr(o, a)[:n] = rng.randn(n) * 3e6
    o.nel_mp[:n] = o.nel_mp_ref * 10**rng.uniform(-8, .4, n)
    o.nel_mp[:n][rng.rand(n) < .3] = o.nel_mp_cl_th
    # dead slots keep stale coordinates
    for a in ('x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp'):
        getattr(o, a)[n:] = rng.randn(n_max - n) * 1e-3
    o.N_mp = n
    if lifetime:
        o.t_last_impact[:n] = np.where(rng.rand(n) < .5, -1, rng.rand(n))
        o.t_last_impact[n:] = 77.
    return o


def inside(rng, chamb, n):
    xs, ys = [], []
    while len(xs) < n:
        x, y = rng.uniform(-1, 1) * chamb.x_aper, rng.uniform(-1, 1) * chamb.y_aper
        if not chamb.is_outside(np.array([x]), np.array([y]))[0]:
            xs.append(x)
            ys.append(y)
    return np.array(xs), np.array(ys)


def outside(rng, chamb, n, far=1.5):
    xs, ys = [], []
    while len(xs) < n:
        x, y = rng.uniform(-far, far) * chamb.x_aper, rng.uniform(-far, far) * chamb.y_aper
        if chamb.is_outside(np.array([x]), np.array([y]))[0]:
            xs.append(x)
            ys.append(y)
    return np.array(xs), np.array(ys)


def snap(o):
    d = {a: getattr(o, a).copy() for a in ATTRS}
    if o.flag_lifetime_hist:
        d['t_last_impact'] = o.t_last_impact.copy()
    d['N_mp'] = int(o.N_mp)
    return d


def live(o):
    return ATTRS + (['t_last_impact'] if o.flag_lifetime_hist else [])


def wf(o, key=''):
    need(0 <= o.N_mp <= len(o.x_mp), 'N_mp outside the container', key)
    need(np.all(o.nel_mp[int(o.N_mp):] == 0), 'slots beyond N_mp carry charge', key or 'tail')


def edges(ch):
    """vertices in counter-clockwise order, without the repeated one"""
    vx, vy = np.array(ch.Vx, float), np.array(ch.Vy, float)
    if vx[0] == vx[-1] and vy[0] == vy[-1]:
        vx, vy = vx[:-1], vy[:-1]
    return vx, vy


def wall_normal(ch, X, Y):
    """inward unit normal of the wall at wall points X, Y; ok: unambiguous (away from corners)"""
    X, Y = np.asarray(X, float), np.asarray(Y, float)
    if not hasattr(ch, 'Vx'):
        gx, gy = -X / ch.x_aper**2, -Y / ch.y_aper**2
        g = np.sqrt(gx**2 + gy**2)
        return gx / g, gy / g, np.ones(X.shape, bool)
    vx, vy = edges(ch)
    x1, y1 = np.roll(vx, -1), np.roll(vy, -1)
    L = np.hypot(x1 - vx, y1 - vy)
    tx, ty = (x1 - vx) / L, (y1 - vy) / L
    d = []
    for k in range(len(vx)):
        s = np.clip((X - vx[k]) * tx[k] + (Y - vy[k]) * ty[k], 0, L[k])
        d.append(np.hypot(X - vx[k] - s * tx[k], Y - vy[k] - s * ty[k]))
    d = np.array(d)
    k = np.argmin(d, axis=0)
    srt = np.sort(d, axis=0)
    size = max(vx.max() - vx.min(), vy.max() - vy.min())
    return -ty[k], tx[k], srt[1] > srt[0] + 1e-4 * size
