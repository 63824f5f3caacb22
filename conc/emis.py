"""Secondary emission models on the real code: construction, documented laws, impacts."""
import types
import numpy as np
from conc.util import *

UNI = ('ECLOUD', 'ACC_LOW', 'cos_low_ene', 'flat_low_ene', 'from_file')
SEG = ('ECLOUD_nunif', 'ECLOUD_nunif_charging')
ME = 9.10938291e-31


def true_law(E, c, Emax, dmax, s=1.35, scale=True, shift=True):
    d = dmax * np.exp(.5 * (1 - c)) if scale else dmax
    em = Emax * (1 + .7 * (1 - c)) if shift else Emax
    x = E / em
    return d * s * x / (s - 1 + x**s)


def elastic_law(E, R0, E0):
    return R0 * ((np.sqrt(E) - np.sqrt(E + E0)) / (np.sqrt(E) + np.sqrt(E + E0)))**2


def chamber_seg(rng, charging=False, uniform=False):
    from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_geom_object
    name = list(POLY)[rng.randint(len(POLY))]
    vx, vy = POLY[name]
    n = len(vx)
    sx, sy = 10**rng.uniform(-2.3, -1.3), 10**rng.uniform(-2.3, -1.3)
    d = {'Vx': np.array(vx, float) * sx, 'Vy': np.array(vy, float) * sy, 'x_sem_ellip_insc': .2 * sx, 'y_sem_ellip_insc': .2 * sy}
    glob = np.full(n, True) if uniform else rng.rand(n) < .3
    d['del_max_segments'] = np.where(glob, -1., rng.uniform(.8, 2.5, n))
    d['R0_segments'] = np.where(rng.rand(n) < .3 if not uniform else glob, -1., rng.uniform(0, .95, n))
    d['Emax_segments'] = np.where(rng.rand(n) < .3 if not uniform else glob, -1., rng.uniform(150, 500, n))
    if charging:
        d['flag_charging'] = (rng.rand(n) < .5).astype(int) if not uniform else np.zeros(n, int)
        d['Q_max_segments'] = 10**rng.uniform(-10, -8, n)
        d['EQ_segments'] = rng.uniform(5, 50, n)
        d['tau_segments'] = np.where(rng.rand(n) < .3, -1., 10**rng.uniform(-8, -5, n))
    return polyg_cham_geom_object(d, flag_non_unif_sey=True, flag_assume_convex=(name != 'concave'))


def model(rng, name, switch=0, angle=None, ch=None, pars=None):
    """-> namespace(obj, law(E, cos, seg) -> (true, reflected))"""
    angle = angle or ['cosine_3D', 'normal_emission'][rng.randint(2)]
    k = dict(E_th=rng.uniform(5, 50), sigmafit=rng.uniform(.9, 1.3), mufit=rng.uniform(.5, 1.8), switch_no_increase_energy=switch,
             thresh_low_energy=rng.choice([1., 1.5, 5., 20.]), secondary_angle_distribution=angle)
    p = dict(Emax=rng.uniform(150, 500), del_max=rng.uniform(.8, 2.6), R0=rng.uniform(0, .95))
    p.update(pars or {})
    E0 = rng.uniform(10, 200)
    ns = types.SimpleNamespace(name=name, k=k, p=p, E0=E0, ch=ch, emin=1e-6)
    if name == 'ECLOUD':
        from PyECLOUD.sec_emission_model_ECLOUD import SEY_model_ECLOUD as M
        ns.s, sc, sh = rng.choice([1.35, rng.uniform(1.2, 1.8)]), bool(rng.randint(2)), bool(rng.randint(2))
        if pars:
            ns.s, sc, sh = 1.35, True, True
        ns.obj = M(E0=E0, s=ns.s, flag_costheta_delta_scale=sc, flag_costheta_Emax_shift=sh, **p, **k)
        ns.law = lambda E, c, g: (true_law(E, c, p['Emax'], p['del_max'], ns.s, sc, sh), elastic_law(E, p['R0'], E0))
        ns.emin = 0.
    elif name == 'ACC_LOW':
        from PyECLOUD.sec_emission_model_accurate_low_ene import SEY_model_acc_low_ene as M
        ns.obj = M(E0=E0, **p, **k)
        ns.law = lambda E, c, g: (true_law(E, c, p['Emax'], p['del_max']), elastic_law(E, p['R0'], E0))
    elif name == 'cos_low_ene':
        from PyECLOUD.sec_emission_model_cos_low_ener import SEY_model_cos_le as M
        ns.obj = M(E0=E0, **p, **k)
        ns.law = lambda E, c, g: (true_law(E, c, p['Emax'], p['del_max']), np.where(E < E0, p['R0'] * np.cos(.5 * np.pi * E / E0)**2, 0.))
    elif name == 'flat_low_ene':
        from PyECLOUD.sec_emission_model_flat_low_ener import SEY_model_flat_le as M
        ns.obj = M(**p, **k)

        def law(E, c, g):
            t = true_law(E, c, p['Emax'], p['del_max'])
            return t, np.where((t < p['R0']) & (E < p['Emax']), p['R0'] - t, 0.)
        ns.law = law
    elif name == 'from_file':
        from PyECLOUD.sec_emission_model_from_file import SEY_model_from_file as M
        n, e0, de = rng.randint(5, 40), rng.choice([0., rng.uniform(0, 5)]), rng.choice([1., 2.5, 10., 50.])
        en = e0 + de * np.arange(n)
        tab = dict(energy_eV=en, sey_true=rng.uniform(0, 2, n), sey_elast=rng.uniform(0, .5, n))
        ex = dict(extrapolate_grad_true=rng.uniform(-2e-3, 1e-3), extrapolate_const_true=rng.uniform(.5, 1.5),
                  extrapolate_grad_elast=rng.uniform(-1e-3, 0), extrapolate_const_elast=rng.uniform(0, .5))
        sc, sh = bool(rng.randint(2)), bool(rng.randint(2))
        tb = dict(tab)
        tb.update({a: np.array([v]) for a, v in ex.items()})
        ns.obj = M(sey_file=tb, flag_costheta_delta_scale=sc, flag_costheta_Emax_shift=sh, **k)
        ns.emin = 2.2 * e0 if sh else e0
        ns.table = en

        def law(E, c, g):
            Es = E / (1 + .7 * (1 - c)) if sh else E
            f = lambda e, nm: np.where(e > en[-1], ex['extrapolate_const_' + nm] + ex['extrapolate_grad_' + nm] * e, np.interp(e, en, tab['sey_' + nm]))
            t = f(Es, 'true') * (np.exp(.5 * (1 - c)) if sc else 1)
            return np.maximum(t, 0), np.maximum(f(E, 'elast'), 0)
        ns.law = law
    else:
        from PyECLOUD.sec_emission_model_ECLOUD_nunif import SEY_model_ECLOUD_non_unif, SEY_model_ECLOUD_non_unif_charging
        ns.ch = ch = ch or chamber_seg(rng, name.endswith('charging'))
        seg = {a: np.array(getattr(ch, a + '_segments'), float) for a in ('del_max', 'R0', 'Emax')}
        seg = {a: np.where(v < 0, p[a], v) for a, v in seg.items()}
        ns.seg = seg
        ns.obj = (SEY_model_ECLOUD_non_unif_charging if name.endswith('charging') else SEY_model_ECLOUD_non_unif)(ch, E0=E0, **p, **k)
        ns.law = lambda E, c, g: (true_law(E, c, seg['Emax'][g], seg['del_max'][g]), elastic_law(E, seg['R0'][g], E0))
        ns.emin = 0.
    return ns


def impacts(rng, m, n, mass=ME, ch=None):
    ch = ch or m.ch or chamber(rng)
    if hasattr(ch, 'Vx'):
        vx, vy = edges(ch)
        N = len(vx)
        g = rng.randint(0, N, n)
        t = rng.uniform(.05, .95, n)
        x1, y1 = np.roll(vx, -1), np.roll(vy, -1)
        X, Y = vx[g] + t * (x1 - vx)[g], vy[g] + t * (y1 - vy)[g]
        L = np.hypot(x1 - vx, y1 - vy)[g]
        nx, ny = -(y1 - vy)[g] / L, (x1 - vx)[g] / L
    else:
        g = None
        th = rng.uniform(0, 2 * np.pi, n)
        X, Y = ch.x_aper * np.cos(th), ch.y_aper * np.sin(th)
        nx, ny, _ = wall_normal(ch, X, Y)
    E = np.maximum(10**rng.uniform(-1.5, 3.6, n), m.emin * (1 + 1e-9) + 1e-9)
    hi = getattr(m, 'table', None)
    if hi is not None:
        j = rng.rand(n) < .3
        E[j] = np.maximum(rng.choice(hi, int(j.sum())), m.emin * (1 + 1e-9) + 1e-9)
    speed = np.sqrt(2 * QE / mass * E)
    c = np.sqrt(rng.rand(n))
    c[rng.rand(n) < .05] = 1.
    s = np.sqrt(1 - c**2)
    ph = rng.uniform(0, 2 * np.pi, n)
    vt, vz = speed * s * np.cos(ph), speed * s * np.sin(ph)
    v = types.SimpleNamespace(n=n, mass=mass, g=g, x=X, y=Y, z=rng.randn(n), nx=nx, ny=ny, E=E, cos=c,
                              vx=-speed * c * nx - vt * ny, vy=-speed * c * ny + vt * nx, vz=vz, ch=ch)
    v.vn = v.vx * nx + v.vy * ny
    v.nel = 10**rng.uniform(2, 7, n)
    v.th = 10**rng.uniform(3, 8)
    if rng.rand() < .3 and n:
        # multiples of the split size are on the edge of the rounding up
        v.nel[:] = v.th * rng.randint(1, 5, n)
    return v


OUT = ('tot', 'ev', 'info', 'nel_r', 'x_r', 'y_r', 'z_r', 'vx_r', 'vy_r', 'vz_r', 'seg_r', 'nel_n', 'x_n', 'y_n', 'z_n', 'vx_n', 'vy_n', 'vz_n', 'seg_n')


def step(m, v, flag_seg):
    cp = lambda a: None if a is None else a.copy()
    args = [cp(a) for a in (v.nel, v.x, v.y, v.z, v.vx, v.vy, v.vz, v.nx, v.ny, v.g if flag_seg else None, v.vn, v.E, v.cos)]
    r = m.obj.impacts_on_surface(v.mass, *args, v.th, flag_seg)
    need(len(r) == len(OUT), 'emission model returns %d values' % len(r))
    for a, b in zip(args, (v.nel, v.x, v.y, v.z, v.vx, v.vy, v.vz, v.nx, v.ny, v.g if flag_seg else None, v.vn, v.E, v.cos)):
        need(a is None or eq(a, b), 'the impacts handed to the model are modified')
    return types.SimpleNamespace(**dict(zip(OUT, r)))


def owners(v, r):
    """impact that each new macroparticle comes from (impact points are distinct)"""
    if len(r.x_n) == 0:
        return np.zeros(0, int)
    d = np.abs(r.x_n[:, None] - v.x[None, :]) + np.abs(r.y_n[:, None] - v.y[None, :]) + np.abs(r.z_n[:, None] - v.z[None, :])
    k = np.argmin(d, axis=1)
    need(np.all(d[np.arange(len(k)), k] == 0), 'a new macroparticle is not at the point of any impact')
    return k


def elastic_flags(v, r):
    """documented reflection: same speed, tangential components kept, normal one reversed"""
    ex, ey = v.vx - 2 * v.vn * v.nx, v.vy - 2 * v.vn * v.ny
    s = np.sqrt(v.vx**2 + v.vy**2 + v.vz**2)
    return (np.abs(r.vx_r - ex) <= 1e-9 * s) & (np.abs(r.vy_r - ey) <= 1e-9 * s) & (r.vz_r == v.vz)
