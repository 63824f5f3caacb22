import numpy as np
from conc.util import *

from scipy.constants import c as CL, k as KB


def mono_E(o, n0, n, E0, key):
    """all seeded MPs have the speed of E0"""
    v2 = o.vx_mp[n0:n]**2 + o.vy_mp[n0:n]**2 + o.vz_mp[n0:n]**2
    need(close(v2, np.full(n - n0, 2 * QE / o.mass * E0), 1e-9), 'seeded speed does not correspond to the configured energy', key)


def common(o, p, ref, ch, req, key, at_most=False):
    n0, n = p['N_mp'], int(o.N_mp)
    k = n - n0
    need(k >= 0, 'number of macroparticles decreases', key)
    need(k < req / ref + 1 + 1e-9, 'added %d macroparticles for a request of %g' % (k, req / ref), key)
    if not at_most:
        need(k > req / ref - 1 - 1e-9, 'added %d macroparticles for a request of %g' % (k, req / ref), key)
    if req == 0:
        need(k == 0, 'macroparticles added with nothing requested', key)
    for a in live(o):
        need(eq(getattr(o, a)[:n0], p[a][:n0]), '%s of existing macroparticles altered' % a, key)
    need(o.nel_mp_ref == ref, 'reference size altered', key)
    need(np.all(o.nel_mp[n0:n] == ref), 'new macroparticles do not have the reference size', key)
    need(np.all(o.nel_mp[n:] == 0), 'charge beyond the live macroparticles', key)
    need(not np.any(ch.is_outside(o.x_mp[n0:n].copy(), o.y_mp[n0:n].copy())), 'seeded macroparticles outside the chamber', key)
    if o.flag_lifetime_hist:
        need(np.all(o.t_last_impact[n0:n] == -1), 'new macroparticles have a previous impact', key)
    return n0, n


def request(rng, ref):
    return 0. if rng.rand() < .15 else ref * rng.choice([rng.uniform(0, 1), rng.uniform(0, 40), float(rng.randint(0, 30))])


def window(rng, ch):
    if rng.rand() < .5:
        return None, None, None, None
    x0, x1 = sorted(rng.uniform(-1, 1, 2) * ch.x_aper)
    y0, y1 = sorted(rng.uniform(-1, 1, 2) * ch.y_aper)
    return x1, x0, y1, y0


def bounded_v(o, n0, n, E0, key):
    v0 = np.sqrt(2 * (E0 / 3.) * QE / o.mass)
    for a in ('vx_mp', 'vy_mp', 'vz_mp'):
        need(np.all(np.abs(getattr(o, a)[n0:n]) <= .5 * v0 * (1 + 1e-9)), '%s exceeds the seed energy' % a, key)


def inwin(o, n0, n, w, key):
    if w[0] is not None:
        x, y = o.x_mp[n0:n], o.y_mp[n0:n]
        need(np.all((x <= w[0]) & (x >= w[1]) & (y <= w[2]) & (y >= w[3])), 'seeded outside the window', key)


def box(rng):
    """window with a fair chance to contain points of the chamber"""
    ch = chamber(rng)
    w = window(rng, ch)
    if w[0] is not None:
        pts = rng.uniform(0, 1, (2, 200))
        x, y = w[1] + (w[0] - w[1]) * pts[0], w[3] + (w[2] - w[3]) * pts[1]
        if np.mean(ch.is_outside(x, y)) > .9:
            w = (None,) * 4
    return ch, w


def case_uniform(rng):
    ch, w = box(rng)
    o = mp_object(rng, ch)
    p, ref = snap(o), o.nel_mp_ref
    req, E0 = request(rng, ref), rng.uniform(0, 20)
    o.add_uniform_MP_distrib(req, E0, *w)
    n0, n = common(o, p, ref, ch, req, 'uniform')
    inwin(o, n0, n, w, 'uniform')
    bounded_v(o, n0, n, E0, 'uniform')


def case_density(rng):
    ch, w = box(rng)
    o = mp_object(rng, ch)
    p, ref = snap(o), o.nel_mp_ref
    req, E0 = request(rng, ref), rng.uniform(0, 20)
    x1, x0, y1, y0 = w if w[0] is not None else (ch.x_aper, -ch.x_aper, ch.y_aper, -ch.y_aper)
    o.add_uniform_ele_density(req / ((x1 - x0) * (y1 - y0)), E0, *w)
    n0, n = common(o, p, ref, ch, req, 'density', at_most=True)
    inwin(o, n0, n, w, 'density')
    bounded_v(o, n0, n, E0, 'density')


def case_density_expect(rng):
    """with everything inside, the density is that requested"""
    ch = ellip(rng)
    a = .6
    w = (a * ch.x_aper, -a * ch.x_aper, a * ch.y_aper, -a * ch.y_aper)
    o = mp_object(rng, ch, n_live=rng.randint(0, 20))
    p, ref = snap(o), o.nel_mp_ref
    req = request(rng, ref)
    o.add_uniform_ele_density(req / ((w[0] - w[1]) * (w[2] - w[3])), 1., *w)
    common(o, p, ref, ch, req, 'density_full')


def case_gas(rng):
    from PyECLOUD.gas_ionization_class import residual_gas_ionization
    ch = chamber(rng)
    o = mp_object(rng, ch)
    p, ref = snap(o), o.nel_mp_ref
    E0 = rng.uniform(0, 20)
    P, sg, T = rng.uniform(1, 100), rng.uniform(.1, 3), rng.uniform(4, 300)
    g = residual_gas_ionization(rng.choice([0., 1., rng.rand()]), P, sg, T, ch, E0, o.flag_lifetime_hist)
    req = request(rng, ref)
    kion = P * 133.32e-9 / (KB * T) * sg * 1e-22 * CL
    Dt = 10**rng.uniform(-12, -9)
    lam = req / kion / Dt
    a = (rng.uniform(-.3, .3) * ch.x_aper, rng.uniform(-.3, .3) * ch.y_aper) if rng.rand() < .5 else ()
    g.generate(o, lam, Dt, .3 * ch.x_aper, .3 * ch.y_aper, *a)
    n0, n = common(o, p, ref, ch, req, 'gas')
    bounded_v(o, n0, n, E0, 'gas')


class Beamtim(object):
    pass


def photo(rng, kind):
    import PyECLOUD.gen_photoemission_class as ph
    ch = ellip(rng) if kind == 'segments' or rng.rand() < .5 else polygon(rng, ['rect', 'hexagon', 'triangle'][rng.randint(3)])
    if kind == 'segments':
        from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_photoemission
        from conc.util import POLY
        vx, vy = POLY['hexagon']
        s = 10**rng.uniform(-2.3, -1.3)
        cdf = np.sort(rng.rand(6))
        cdf[-1] = 1.
        lengths = None
        d = {'Vx': np.array(vx, float) * s, 'Vy': np.array(vy, float) * s, 'x_sem_ellip_insc': .2 * s, 'y_sem_ellip_insc': .2 * s,
             'phem_cdf': cdf}
        phch = polyg_cham_photoemission(d)
        from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_geom_object
        ch = polyg_cham_geom_object(d, flag_non_unif_sey=False)
    o = mp_object(rng, ch)
    p, ref = snap(o), o.nel_mp_ref
    bt, cont = Beamtim(), rng.rand() < .3
    req = request(rng, ref)
    kpe, Dt = 10**rng.uniform(-6, -3), 10**rng.uniform(-12, -9)
    lam = req / (kpe * CL * Dt)
    bt.lam_t_array = np.array([.5, 1.5]) * lam
    R = 1.6 * max(ch.x_aper, ch.y_aper)
    dist = ['mono', 'lognormal', 'gaussian', 'lorentz', 'rect'][rng.randint(5)]
    sg, mu = (rng.uniform(.1, 1), rng.uniform(.5, 2)) if dist != 'rect' else (rng.uniform(.1, 1), rng.uniform(.6, 5))
    ang = ['cosine_3D', 'normal_emission'][rng.randint(2)]
    if kind == 'photoemission':
        fn = 'unif_no_file'
        if rng.rand() < .5:
            fn = rng_file(rng, 'inv_CDF')
        x0 = rng.choice(['left', 'right', 'num'])
        x0 = rng.uniform(-.2, .2) * ch.x_aper if x0 == 'num' else x0
        g = ph.photoemission(fn, kpe, rng.choice([0., rng.rand(), 1.]), sg, mu, rng.uniform(0, .3), x0, 0., R, ch, .99, dist, ang, bt, cont)
    elif kind == 'from_file':
        d = 'unif_no_file' if rng.rand() < .5 else {'u_sam': np.linspace(0, 1, 50), 'angles': np.sort(rng.uniform(-np.pi, np.pi, 50))}
        g = ph.photoemission_from_file(d, ch, .99, dist, sg, mu, kpe, R, ang, bt, cont)
    else:
        g = ph.photoemission_per_segment(phch, dist, sg, mu, kpe, ang, bt, cont)
    g.generate(o, 0. if cont and rng.rand() < .5 else lam, Dt)
    n0, n = common(o, p, ref, ch, req, kind)
    v2 = o.vx_mp[n0:n]**2 + o.vy_mp[n0:n]**2 + o.vz_mp[n0:n]**2
    En = .5 * o.mass / QE * v2
    if dist == 'mono':
        need(close(En, np.full(n - n0, mu), 1e-9), 'photoelectron speed does not correspond to the configured energy', kind)
    if dist == 'rect':
        need(np.all(np.abs(En - mu) <= sg / 2 * (1 + 1e-6)), 'photoelectron energy outside the configured range', kind)
    # photoelectrons move inwards: tracks from the origin hit the wall at (x, y) / resc_fac
    if n > n0 and kind == 'from_file':
        X, Y = o.x_mp[n0:n] / .99, o.y_mp[n0:n] / .99
        nx, ny, ok = wall_normal(ch, X, Y)
        vn = o.vx_mp[n0:n] * nx + o.vy_mp[n0:n] * ny
        need(np.all(~ok | (vn >= -1e-6 * np.sqrt(v2))), 'photoelectron emitted outwards', kind)
        if ang == 'normal_emission':
            need(np.all(~ok | (vn >= (1 - 1e-6) * np.sqrt(v2))), 'photoelectron not emitted along the normal', kind)


def rng_file(rng, what):
    import scipy.io as sio
    import tempfile
    import os
    f = os.path.join(TMP, 'cdf%d.mat' % rng.randint(5))
    sio.savemat(f, {'inv_CDF': np.sort(rng.uniform(-1.5, 1.5, 40)), 'u_sam': np.linspace(0, 1, 40)})
    return f


def case_photo(rng):
    photo(rng, 'photoemission')


def case_photo_file(rng):
    photo(rng, 'from_file')


def case_photo_seg(rng):
    photo(rng, 'segments')


def setup():
    global TMP
    import tempfile
    import atexit
    import shutil
    TMP = tempfile.mkdtemp(prefix='pvc09_')
    atexit.register(shutil.rmtree, TMP, ignore_errors=True)


CASES = {'uniform': case_uniform, 'density': case_density, 'density_full': case_density_expect, 'gas': case_gas,
         'photoemission': case_photo, 'photoemission_from_file': case_photo_file, 'photoemission_per_segment': case_photo_seg}
