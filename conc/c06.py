"""Replay of the container contracts on the real code."""
import numpy as np
from conc.util import *


def obj_any(rng, **k):
    return mp_object(rng, chamber(rng), **k)


def thresholds(o):
    need(close(o.nel_mp_split, o.fact_split * o.nel_mp_ref), 'split size does not follow the reference size')
    need(close(o.nel_mp_cl_th, o.fact_clean * o.nel_mp_ref), 'cleaning threshold does not follow the reference size')


def case_clean(rng):
    o = obj_any(rng)
    if rng.rand() < .2:
        o.nel_mp[:o.N_mp] = o.nel_mp_cl_th * .3
    if rng.rand() < .1:
        # full container
        o = obj_any(rng, n_live=40, n_max=40)
    p = snap(o)
    ref0, ref, th = o.nel_mp_ref_0, o.nel_mp_ref, o.nel_mp_cl_th
    n = p['N_mp']
    keep = p['nel_mp'][:n] >= th
    o.clean_small_MPs()
    q = snap(o)
    k = int(keep.sum())
    need(q['N_mp'] == k, 'cleaning keeps %d of %d (expected %d)' % (q['N_mp'], n, k))
    for a in live(o):
        need(len(q[a]) == len(p[a]), 'length of %s changes' % a)
        need(eq(q[a][:k], p[a][:n][keep]), '%s of the kept macroparticles not preserved in order by cleaning' % a)
    wf(o)
    need(o.nel_mp_ref == (ref0 if k == 0 else ref), 'reference size after cleaning')
    thresholds(o)


def case_add(rng):
    o = obj_any(rng)
    n = rng.randint(0, 30)
    new = {a: rng.randn(n) for a in ATTRS}
    new['nel_mp'] = np.abs(new['nel_mp']) + .1
    p = snap(o)
    t = rng.uniform(0, 1)
    if rng.rand() < .5:
        o.add_new_MPs(n, new['nel_mp'], new['x_mp'], new['y_mp'], new['z_mp'], new['vx_mp'], new['vy_mp'], new['vz_mp'], t)
        tnew = t
    else:
        o.add_from_file(dict(new, N_mp=np.array([[n]])) if rng.rand() < .5 else dict(new, N_mp=n))
        tnew = -1
    q = snap(o)
    N0 = p['N_mp']
    need(q['N_mp'] == N0 + n, 'N_mp after adding')
    for a in live(o):
        need(eq(q[a][:N0], p[a][:N0]), '%s of existing macroparticles changed by adding' % a)
        if a in new:
            need(eq(q[a][N0:N0 + n], new[a]), '%s of added macroparticles' % a)
        else:
            need(np.all(q[a][N0:N0 + n] == tnew), 'last impact time of added macroparticles')
        need(eq(q[a][N0 + n:], p[a][N0 + n:]), '%s beyond N_mp changed by adding' % a)
    wf(o)


def case_roundtrip(rng):
    ch = chamber(rng)
    o = mp_object(rng, ch)
    d = o.extract_dict()
    p = snap(o)
    n = p['N_mp']
    o.x_mp += 1.
    o.nel_mp *= .5
    for a in ATTRS:
        need(eq(np.asarray(d[a]).ravel()[:n], p[a][:n]) and len(np.atleast_1d(d[a])) == n, 'saved %s differ from the live macroparticles' % a)
    need(int(d['N_mp']) == n, 'saved N_mp')
    r = mp_object(rng, ch, lifetime=o.flag_lifetime_hist)
    r.init_from_dict(d)
    q = snap(r)
    need(q['N_mp'] == n, 'restored N_mp')
    for a in live(o):
        if a in d:
            need(eq(q[a][:n], p[a][:n]), 'restored %s differ' % a)
    wf(r)
    # the dictionary and the container stay independent
    r.x_mp[:n] += 3.
    if n:
        need(eq(d['x_mp'], p['x_mp'][:n]), 'restoring aliases the saved state')


def case_positions(rng):
    o = obj_any(rng)
    s = o.get_positions()
    p = snap(o)
    n = p['N_mp']
    for a in ('x_mp', 'y_mp', 'z_mp'):
        getattr(o, a)[:] += 1.
    for a in ('x_mp', 'y_mp', 'z_mp'):
        need(eq(getattr(s, a)[:n], p[a][:n]) and len(getattr(s, a)) == n, 'position snapshot changed by later motion')


def case_regen_tail(rng):
    """full and soft regeneration leave a well formed container"""
    o = obj_any(rng, n_live=rng.randint(30, 120), n_max=2000)
    o.nel_mp[:o.N_mp] = o.nel_mp_ref * rng.uniform(.5, 2, o.N_mp)
    if rng.rand() < .6:
        o.perform_soft_regeneration(target_N_mp=rng.randint(10, 30))
    else:
        o.N_mp_regen = 20
        o.N_mp_after_regen = rng.randint(10, 60)
        o.check_for_regeneration()
    wf(o)
    thresholds(o)


CASES = {'clean': case_clean, 'add': case_add, 'roundtrip': case_roundtrip, 'positions': case_positions, 'regen_tail': case_regen_tail}
