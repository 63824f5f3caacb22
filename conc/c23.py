"""Replay of the segment-dependent yield contract."""
from conc.emis import *
from conc import c02


def case_yield(rng):
    m = model(rng, SEG[rng.randint(2)])
    v = impacts(rng, m, rng.randint(1, 100))
    fl = np.asarray(m.ch.flag_charging) > 0 if m.name.endswith('charging') else np.zeros(len(m.seg['R0']), bool)
    if m.name.endswith('charging'):
        qm = np.asarray(m.ch.Q_max_segments)
        m.obj.Q_segments = np.where(fl, qm * rng.uniform(-.5, 1.5, len(fl)), 0.)
        q0 = m.obj.Q_segments.copy()
    nel, el, ts = m.obj.SEY_process(v.nel.copy(), v.E.copy(), v.cos.copy(), v.g.copy())
    t, f = m.law(v.E, v.cos, v.g)
    y = t + f
    if m.name.endswith('charging'):
        fr = np.clip(q0 / qm, 0, 1)[v.g]
        eq_ = np.asarray(m.ch.EQ_segments)[v.g]
        y = np.where(fl[v.g], y * (1 - fr) + (1 - np.exp(-v.E / eq_)) * fr, y)
        vx, vy = edges(m.ch)
        L = np.hypot(np.roll(vx, -1) - vx, np.roll(vy, -1) - vy)
        for s in range(len(fl)):
            h = v.g == s
            want = q0[s] + (np.sum(v.nel[h]) - np.sum((v.nel * y)[h])) * (-QE) / L[s] if fl[s] else q0[s]
            need(close(m.obj.Q_segments[s], want, 1e-7, 1e-7 * QE * v.nel.sum() / L[s] + 1e-12 * qm[s]), 'charge accumulated on a segment')
    need(close(nel / v.nel, y, 1e-7, 1e-9), 'yield is not the one of the segment that was hit')
    need(np.all(el ^ ts), 'neither elastic nor true secondary')


def case_inherit(rng):
    m, v, seg, r = c02.run(rng, SEG[rng.randint(2)])
    c02.check(m, v, seg, r)


def case_uniform(rng):
    """one parameter set everywhere: same yield as the uniform model"""
    ch = chamber_seg(rng, True, uniform=True)
    p = dict(Emax=rng.uniform(150, 500), del_max=rng.uniform(.8, 2.6), R0=rng.uniform(0, .95))
    s = rng.randint(1 << 30)
    a = model(np.random.RandomState(s), 'ECLOUD', pars=p)
    b = model(np.random.RandomState(s), SEG[rng.randint(2)], ch=ch, pars=p)
    b.obj.E0 = a.obj.E0
    v = impacts(rng, b, 60)
    s = rng.randint(1 << 30)
    np.random.seed(s)
    x = a.obj.SEY_process(v.nel, v.E, v.cos, v.g)
    np.random.seed(s)
    y = b.obj.SEY_process(v.nel, v.E, v.cos, v.g)
    need(close(x[0], y[0], 1e-12), 'a uniform parameter set differs from the uniform model')
    need(eq(x[1], y[1]) and eq(x[2], y[2]), 'a uniform parameter set classifies differently from the uniform model')


def case_through_wall(rng):
    """segment found by the chamber, used by the yield: whole impact step"""
    from PyECLOUD.impact_management_class import impact_management
    ch = chamber_seg(rng)
    m = model(rng, 'ECLOUD_nunif', ch=ch)
    mp = mp_object(rng, ch, n_live=rng.randint(1, 40), lifetime=False)
    n = mp.N_mp
    old = types.SimpleNamespace(x_mp=mp.x_mp[:n].copy(), y_mp=mp.y_mp[:n].copy(), z_mp=np.zeros(n))
    xo, yo = outside(rng, ch, n)
    mp.x_mp[:n], mp.y_mp[:n] = xo, yo
    rec = []
    f = m.obj.SEY_process

    def spy(nel, E, cos, g):
        r = f(nel, E, cos, g)
        rec.append((nel.copy(), E.copy(), cos.copy(), r[0].copy()))
        return r
    m.obj.SEY_process = spy
    im = impact_management(ch, m.obj, ch.x_aper / 10, 100., 20, 1e3, flag_seg=True, cos_angle_width=.05)
    im.backtrack_and_second_emiss(old, mp, 1.)
    nel, E, c, tot = rec[0]
    vx, vy = edges(ch)
    # first wall crossed by the path
    x1, y1 = np.roll(vx, -1), np.roll(vy, -1)
    ux, uy = xo - old.x_mp, yo - old.y_mp
    wx, wy = x1 - vx, y1 - vy
    D = ux[:, None] * wy - uy[:, None] * wx
    t = ((vx - old.x_mp[:, None]) * wy - (vy - old.y_mp[:, None]) * wx) / D
    s = ((vx - old.x_mp[:, None]) * uy[:, None] - (vy - old.y_mp[:, None]) * ux[:, None]) / D
    tt = np.where((t >= 0) & (t <= 1) & (s >= 0) & (s <= 1), t, 2.)
    g = np.argmin(tt, axis=1)
    srt = np.sort(tt, axis=1)
    ok = (srt[:, 0] < .999) & (srt[:, 1] > srt[:, 0] + 1e-3) & np.all(np.abs(np.abs(s - .5) - .5) > 1e-4, axis=1)
    t, r = m.law(E, c, g)
    need(close((tot / nel)[ok], (t + r)[ok], 1e-6, 1e-9), 'yield of the segment at the impact point not used')


def case_evol(rng):
    m = model(rng, SEG[1])
    fl = np.asarray(m.ch.flag_charging) > 0
    tau = np.asarray(m.ch.tau_segments)
    q = rng.randn(len(fl)) * 1e-9
    m.obj.Q_segments = q.copy()
    dt = 10**rng.uniform(-10, -6)
    m.obj.SEY_model_evol(dt)
    need(close(m.obj.Q_segments, np.where(fl & (tau > 0), q * np.exp(-dt / tau), q), 1e-12), 'decay of the segment charge')


def case_reject(rng):
    for k in range(2):
        try:
            model(rng, SEG[k], ch=ellip_seg(rng))
        except ValueError:
            continue
        need(False, 'a segment model accepts a chamber without segments')


def ellip_seg(rng):
    e = ellip(rng)
    for a in ('del_max_segments', 'R0_segments', 'Emax_segments', 'flag_charging', 'Q_max_segments', 'EQ_segments', 'tau_segments'):
        setattr(e, a, np.ones(4))
    return e


CASES = {k[5:]: f for k, f in list(globals().items()) if k.startswith('case_')}
