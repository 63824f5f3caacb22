"""Replay of the Furman-Pivi contracts on the real model."""
from conc.emis import *


def surface(rng, **kw):
    M = int(rng.choice([1, 2, 5, 10]))
    d = dict(use_modified_sigmaE=bool(rng.randint(2)), use_ECLOUD_theta0_dependence=bool(rng.randint(2)), use_ECLOUD_energy=bool(rng.randint(2)),
             conserve_energy=False, exclude_rediffused=bool(rng.randint(2)), choice='poisson', M_cut=M,
             p_n=rng.uniform(1.2, 3.5, M), eps_n=rng.uniform(1., 11., M),
             p1EInf=rng.uniform(0, .05), p1Ehat=rng.uniform(.1, .45), eEHat=rng.choice([0., 2.]), w=rng.uniform(1, 70), p=rng.uniform(.8, 1.1),
             e1=rng.uniform(0, .3), e2=rng.uniform(1, 2), sigmaE=rng.uniform(1.9, 3), p1RInf=rng.uniform(0, .25), eR=10**rng.uniform(-1.5, 1.5),
             r=rng.uniform(.1, 1.1), q=rng.uniform(.3, 1), r1=rng.uniform(0, .3), r2=rng.uniform(1, 2), deltaTSHat=rng.uniform(.1, 2.5),
             eHat0=rng.uniform(180, 320), s=rng.uniform(1.3, 1.9), t1=rng.uniform(0, .8), t2=rng.uniform(.6, 1.2), t3=rng.uniform(0, .8), t4=rng.uniform(.8, 1.2))
    if rng.rand() < .5:
        d['theta_e_max'], d['theta_r_max'] = rng.uniform(.3, 1.5, 2)
    d.update(kw)
    return d


def fp_model(rng, switch=None, angle=None, scale=None, shift=None, **kw):
    from PyECLOUD.sec_emission_model_furman_pivi import SEY_model_furman_pivi as M
    d = surface(rng, **kw)
    k = dict(E_th=rng.uniform(5, 50), sigmafit=rng.uniform(.9, 1.3), mufit=rng.uniform(.5, 1.8),
             switch_no_increase_energy=rng.choice([0, 2]) if switch is None else switch, thresh_low_energy=rng.choice([1., 5., 20.]),
             secondary_angle_distribution=angle or ['cosine_3D', 'normal_emission'][rng.randint(2)])
    m = types.SimpleNamespace(d=d, k=k, name='FP', ch=None, emin=.02)
    m.sc, m.sh = bool(rng.randint(2)) if scale is None else scale, bool(rng.randint(2)) if shift is None else shift
    m.obj = M(d, flag_costheta_delta_scale=m.sc, flag_costheta_Emax_shift=m.sh, **k)
    return m


def laws(m, E, c):
    P = types.SimpleNamespace(**m.d)
    clip = lambda a: np.maximum(c, np.cos(m.d[a])) if m.d.get(a) is not None else c
    ect = P.use_ECLOUD_theta0_dependence
    de = P.p1EInf + (P.p1Ehat - P.p1EInf) * np.exp(-(np.abs(E - P.eEHat) / P.w)**P.p / P.p)
    if m.sc and not ect:
        de = de * (1 + P.e1 * (1 - clip('theta_e_max')**P.e2))
    dr = P.p1RInf * (1 - np.exp(-(E / P.eR)**P.r))
    if m.sc:
        dr = dr * (1 + P.r1 * (1 - clip('theta_r_max')**P.r2))
    t3, t4 = (.7, 1.) if ect else (P.t3, P.t4)
    x = E / (P.eHat0 * (1 + t3 * (1 - c**t4)) if m.sh else P.eHat0)
    dt = P.deltaTSHat * P.s * x / (P.s - 1 + x**P.s)
    if m.sc:
        dt = dt * (np.exp(.5 * (1 - c)) if ect else 1 + P.t1 * (1 - c**P.t2))
    return de, dr, dt


def energies(r, nm, mass):
    return .5 * mass / QE * (getattr(r, 'vx_' + nm)**2 + getattr(r, 'vy_' + nm)**2 + getattr(r, 'vz_' + nm)**2)


def run(rng, n=None, **kw):
    m = fp_model(rng, **kw)
    v = impacts(rng, m, rng.randint(1, 80) if n is None else n)
    seg = v.g is not None and rng.rand() < .6
    return m, v, seg, step(m, v, seg)


def events(m, v, seg, r):
    n = v.n
    ev = np.asarray(r.ev)
    need(len(ev) == n and np.all(np.isin(ev, [0, 1, 2, 3])), 'one event type per impact')
    if m.d['exclude_rediffused']:
        need(not np.any(ev == 2), 'rediffused event although they are excluded')
    for a in ('nel', 'x', 'y', 'z', 'vx', 'vy', 'vz'):
        need(len(getattr(r, a + '_r')) == n, 'one replaced macroparticle per impact (%s)' % a)
        need(len(getattr(r, a + '_n')) == len(r.nel_n), 'new macroparticles: %s and charge differ in number' % a)
        need(np.all(np.isfinite(getattr(r, a + '_r'))) and np.all(np.isfinite(getattr(r, a + '_n'))), 'not a number in %s' % a)
    k = owners(v, r)
    cnt = np.bincount(k, minlength=n)
    need(np.all(cnt[ev != 1] == 0), 'extra electrons from an event that is not a true secondary')
    need(np.all(cnt[ev == 1] + 1 <= m.d['M_cut']), 'more electrons than M_cut')
    need(np.all(r.nel_r[ev == 3] == 0) and np.all(r.tot[ev == 3] == 0), 'an absorbed event emits charge')
    need(close(r.nel_r[ev != 3], v.nel[ev != 3], 1e-12), 'the replaced macroparticle has not the charge of the impact')
    need(close(r.nel_n, v.nel[k], 1e-12), 'an emitted macroparticle has not the charge of the impact')
    out = r.nel_r.copy()
    np.add.at(out, k, r.nel_n)
    need(close(out, r.tot, 1e-9, 1e-300), 'charge leaving an impact point is not the reported emitted charge')
    for a in 'xyz':
        need(eq(getattr(r, a + '_r')[ev != 3], getattr(v, a)[ev != 3]), 'replaced macroparticle moved away from its impact point')
    if seg:
        need(eq(r.seg_r, v.g), 'replaced macroparticle changed wall segment')
        need(len(r.seg_n) == len(k) and (not len(k) or eq(r.seg_n, v.g[k])), 'new macroparticle does not carry the segment of its impact')
    x = np.asarray(r.info['extended_event_type'])
    need(eq(x, np.concatenate([ev, ev[k]])), 'event type of the new macroparticles')
    # energies and directions
    Er, En = energies(r, 'r', v.mass), energies(r, 'n', v.mass)
    top, tol = v.E * (1 + 1e-6) + 1e-9, 1e-9
    el = ev == 0
    if m.d['use_ECLOUD_energy']:
        need(np.all(elastic_flags(v, r)[el]), 'elastic event not reflected')
        cut = np.full(n, m.k['E_th']) if m.k['switch_no_increase_energy'] == 0 else np.minimum(v.E, m.k['E_th'])
        cut = np.where((m.k['switch_no_increase_energy'] == 2) & (v.E < m.k['thresh_low_energy']), v.E, cut) * (1 + 1e-6)
        need(np.all(Er[ev == 1] <= cut[ev == 1]) and np.all(En <= cut[k]), 'true secondary above the energy cut')
        need(np.all(Er[ev == 2] <= top[ev == 2]), 'rediffused electron above the impact energy')
    else:
        need(np.all(Er <= top), 'replaced electron above the impact energy')
        need(np.all(En <= top[k]), 'new electron above the impact energy')
    on = ev != 3
    need(np.all((r.vx_r * v.nx + r.vy_r * v.ny)[on] >= -1e-9 * np.sqrt(2 * QE / v.mass * v.E)[on]), 'electron emitted into the wall')
    need(np.all(r.vx_n * v.nx[k] + r.vy_n * v.ny[k] >= -1e-6), 'new electron emitted into the wall')
    return ev, k, cnt


def case_yields(rng):
    m = fp_model(rng)
    n = rng.randint(1, 40)
    E, c = 10**rng.uniform(-1, 3.5, n), np.sqrt(rng.rand(n))
    c[rng.rand(n) < .1] = 1.
    c[rng.rand(n) < .1] = 0.
    got = m.obj.yield_fun_furman_pivi(E.copy(), c.copy(), check=False)
    for nm, a, b in zip(('elastic', 'rediffused', 'true secondary'), got, laws(m, E, c)):
        need(close(a, b, 1e-8, 1e-12), '%s yield differs from its formula' % nm)
        need(np.all(np.asarray(a) >= 0), '%s yield is negative' % nm)


def case_events(rng):
    m, v, seg, r = run(rng)
    events(m, v, seg, r)


def case_conserve(rng):
    m = fp_model(rng, conserve_energy=True, use_ECLOUD_energy=False, deltaTSHat=rng.uniform(.5, 1.5))
    v = impacts(rng, m, rng.randint(1, 30))
    v.E *= 1
    k = v.E > 25
    if k.sum() == 0:
        raise Skip
    for a in ('x', 'y', 'z', 'nx', 'ny', 'E', 'cos', 'vx', 'vy', 'vz', 'vn', 'nel'):
        setattr(v, a, getattr(v, a)[k])
    v.g = None if v.g is None else v.g[k]
    v.n = int(k.sum())
    seg = v.g is not None
    r = step(m, v, seg)
    events(m, v, seg, r)


def case_only(rng):
    """a single class of events"""
    w = rng.randint(3)
    if w == 0:
        m, v, seg, r = run(rng, p1EInf=0., p1Ehat=0., p1RInf=0., deltaTSHat=0.)
        ev, k, cnt = events(m, v, seg, r)
        need(np.all(ev == 3), 'nothing can be emitted, but something is')
    elif w == 1:
        m, v, seg, r = run(rng, p1EInf=1 - 1e-9, p1Ehat=1 - 1e-9, p1RInf=0., e1=0.)
        ev, k, cnt = events(m, v, seg, r)
        need(np.all(ev == 0), 'elastic probability one, but an event is not elastic')
    else:
        m, v, seg, r = run(rng, p1EInf=0., p1Ehat=0., p1RInf=0., deltaTSHat=2.)
        ev, k, cnt = events(m, v, seg, r)
        need(np.all((ev == 1) | (ev == 3)), 'only true secondaries possible')


def case_statistics(rng):
    """mean event counts follow the component yields (6 sigma)"""
    m = fp_model(rng, M_cut=40, p_n=np.full(40, 2.), eps_n=np.full(40, 3.), use_ECLOUD_energy=True, switch=0)
    n = 4000
    v = impacts(rng, m, 1)
    v.E[:] = 10**rng.uniform(.5, 3)
    for a in ('x', 'y', 'nx', 'ny', 'E', 'cos', 'vx', 'vy', 'vz', 'vn', 'nel'):
        setattr(v, a, np.repeat(getattr(v, a), n))
    v.z = rng.randn(n)
    v.g, v.n = None, n
    r = step(m, v, False)
    de, dr, dt = [float(np.asarray(a).ravel()[0]) for a in laws(m, v.E[:1], v.cos[:1])]
    if m.d['exclude_rediffused']:
        dr = 0.
    ev = np.asarray(r.ev)
    cnt = (ev != 3) + np.bincount(owners_z(v, r), minlength=n)
    ts = ~np.isin(ev, [0, 2])
    p = 1 - de - dr
    for nm, k, q in (('elastic', ev == 0, de), ('rediffused', ev == 2, dr)):
        need(abs(k.mean() - q) <= 6 * np.sqrt(q * (1 - q) / n) + 6. / n, 'fraction of %s events %g, documented %g' % (nm, k.mean(), q))
    need(abs(cnt[ts].sum() / n - dt) <= 6 * np.sqrt((dt + dt**2 / p) / n) + 6. / n, 'true secondary yield %g, documented %g' % (cnt[ts].sum() / n, dt))


def owners_z(v, r):
    o = np.argsort(v.z)
    return o[np.searchsorted(v.z[o], r.z_n)] if len(r.z_n) else np.zeros(0, int)


def case_energy_functions(rng):
    m = fp_model(rng, use_ECLOUD_energy=False)
    n = rng.randint(0, 60)
    E = 10**rng.uniform(-1.5, 3.5, n)
    nn = rng.randint(1, m.d['M_cut'] + 1, n)
    for nm, e in (('elastic', m.obj.get_energy_backscattered(E.copy())), ('rediffused', m.obj.get_energy_rediffused(E.copy())),
                  ('true', m.obj.get_energy_true_sec(nn=nn, E_0=E.copy()))):
        need(len(e) == n, 'one energy per electron')
        need(np.all(e >= -1e-9 * E) and np.all(e <= E * (1 + 1e-9)), '%s energy outside [0, impact energy]' % nm)


CASES = {k[5:]: f for k, f in list(globals().items()) if k.startswith('case_')}
