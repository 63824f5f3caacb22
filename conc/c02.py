"""Replay of the charge-splitting contract on the real emission models."""
from conc.emis import *


def run(rng, name, n=None, switch=0):
    m = model(rng, name, switch)
    v = impacts(rng, m, rng.randint(1, 60) if n is None else n)
    seg = v.g is not None and (name in SEG or rng.rand() < .5)
    r = step(m, v, seg)
    return m, v, seg, r


def check(m, v, seg, r, limit=True):
    n = v.n
    for a in ('nel', 'x', 'y', 'z', 'vx', 'vy', 'vz'):
        need(len(getattr(r, a + '_r')) == n, 'one replaced macroparticle per impact (%s)' % a)
        need(len(getattr(r, a + '_n')) == len(r.nel_n), 'new macroparticles: %s and charge differ in number' % a)
    for a in 'xyz':
        need(eq(getattr(r, a + '_r'), getattr(v, a)), 'replaced macroparticle moved away from its impact point')
    k = owners(v, r)
    out = r.nel_r.copy()
    np.add.at(out, k, r.nel_n)
    need(close(out, r.tot, 1e-9, 1e-12 * v.nel.max() if n else 0), 'charge leaving an impact point is not the reported emitted charge')
    el = elastic_flags(v, r)
    cnt = np.bincount(k, minlength=n)
    need(len(r.ev) == n, 'one event per impact')
    if limit:
        ts = np.asarray(r.ev).astype(bool)
        need(np.all(cnt[~ts] == 0), 'an elastic event creates extra macroparticles')
        need(np.all(el[~ts]), 'an event reported elastic is not reflected')
        need(np.all(r.nel_r <= v.th * (1 + 1e-9) + 0 * v.th) if ts.all() else np.all(r.nel_r[ts] <= v.th * (1 + 1e-9)), 'a replaced macroparticle exceeds the split size')
        need(np.all(r.nel_n <= v.th * (1 + 1e-9)), 'a new macroparticle exceeds the split size')
        need(close(r.nel_n, r.nel_r[k], 1e-12), 'the macroparticles of one emission are not equal')
        want = np.maximum(np.ceil(r.tot / v.th), 1)
        edge = np.abs(r.tot / v.th - np.round(r.tot / v.th)) < 1e-9
        need(np.all((cnt + 1 == want)[ts & ~edge]), 'number of macroparticles of a true secondary emission')
        need(len(r.info['extended_event_type']) == n + len(k), 'event types: one per macroparticle')
        need(eq(np.asarray(r.info['extended_event_type']).astype(bool), np.concatenate([ts, ts[k]])), 'event type of the new macroparticles')
    if seg:
        need(eq(r.seg_r, v.g), 'replaced macroparticle changed wall segment')
        if len(k):
            need(eq(r.seg_n, v.g[k]), 'new macroparticle does not carry the segment of its impact')
    return k


def case_uniform(rng):
    m, v, seg, r = run(rng, UNI[rng.randint(len(UNI))], switch=rng.choice([0, 2]))
    k = check(m, v, seg, r)
    if m.name != 'ACC_LOW':
        t, f = m.law(v.E, v.cos, v.g)
        need(close(r.tot, v.nel * (t + f), 1e-6, 1e-9 * v.nel.max()), 'emitted charge is not charge x yield')


def case_segments(rng):
    m, v, seg, r = run(rng, SEG[rng.randint(2)], switch=rng.choice([0, 2]))
    check(m, v, seg, r)


def case_all_elastic(rng):
    """nothing but elastic events (or no impact): no new macroparticle"""
    m = model(rng, 'ECLOUD', pars=dict(Emax=1e9, del_max=1e-9, R0=.99))
    v = impacts(rng, m, rng.randint(0, 10), ch=chamber(rng))
    v.E[:] = 1e-5
    s = np.sqrt(2 * QE / v.mass * v.E) / np.maximum(np.sqrt(v.vx**2 + v.vy**2 + v.vz**2), 1e-300)
    v.vx, v.vy, v.vz, v.vn = v.vx * s, v.vy * s, v.vz * s, v.vn * s
    r = step(m, v, False)
    check(m, v, False, r)


def case_absorber(rng):
    from PyECLOUD.sec_emission_model_perfect_absorber import SEY_model_perfect_absorber
    m = types.SimpleNamespace(obj=SEY_model_perfect_absorber(), ch=None, emin=0.)
    v = impacts(rng, m, rng.randint(0, 30))
    r = step(m, v, v.g is not None)
    need(np.all(r.tot == 0) and len(r.tot) == v.n, 'the absorber emits charge')
    need(np.all(r.nel_r == 0) and len(r.nel_n) == 0, 'the absorber returns charged macroparticles')


def case_container(rng):
    """through the impact handler: the container holds what left the wall"""
    from conc.c01 import scene
    name = (UNI + ('ECLOUD_nunif',))[rng.randint(6)]
    ch = chamber_seg(rng) if name in SEG else None
    m = model(rng, name, ch=ch)
    if m.emin > 0:
        return
    s = scene(rng, poly=bool(rng.randint(2))) if ch is None else None
    if s is None:
        raise Skip()
    rec = []
    f = m.obj.impacts_on_surface

    def spy(*a):
        r = f(*a)
        rec.append((a, r))
        return r
    m.obj.impacts_on_surface = spy
    s.im.sey_mod = m.obj
    if s.mp.N_mp == 0:
        raise Skip()
    q0 = s.mp.nel_mp[:s.n].copy()
    s.im.backtrack_and_second_emiss(s.old, s.mp, s.t)
    if not rec:
        raise Skip()
    a, r = rec[0]
    need(close(s.mp.nel_mp[:s.mp.N_mp].sum(), q0[~s.out].sum() + np.sum(r[0]), 1e-9, 1e-9 * q0.sum()), 'charge in the container after emission')


CASES = {k[5:]: f for k, f in list(globals().items()) if k.startswith('case_')}
