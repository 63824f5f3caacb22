import numpy as np
from conc.util import *
from conc.c06 import obj_any, thresholds


def subsequence(p, q, n, m, attrs):
    """q[:m] is a sub-sequence of p[:n] in all attributes -> index list"""
    idx, j = [], 0
    for k in range(m):
        while j < n and any(p[a][j] != q[a][k] for a in attrs):
            j += 1
        need(j < n, 'survivors are not a sub-sequence of the live macroparticles')
        idx.append(j)
        j += 1
    return np.array(idx, int)


def verify(o, p, tgt, ref0):
    q = snap(o)
    n, m = p['N_mp'], q['N_mp']
    if m == 0:
        raise Skip
    attrs = [a for a in live(o) if a != 'nel_mp']
    idx = subsequence(p, q, n, m, attrs)
    tot = p['nel_mp'][:n].sum()
    need(close(q['nel_mp'][:m].sum(), tot, 1e-9), 'total charge changes in soft regeneration')
    f = q['nel_mp'][:m] / p['nel_mp'][idx]
    need(close(f, np.full(m, f[0]), 1e-9), 'survivors are not rescaled by one common factor')
    need(close(o.nel_mp_ref, max(tot / tgt, ref0), 1e-9), 'new reference size is not total/target (or the initial one)')
    thresholds(o)
    wf(o)


def case_soft(rng):
    o = obj_any(rng, n_live=rng.randint(1, 150), n_max=rng.choice([200, 400]))
    o.nel_mp[:o.N_mp] = o.nel_mp_ref * 10**rng.uniform(-1.5, .5, o.N_mp)
    if rng.rand() < .4:
        o.nel_mp[:o.N_mp] *= 20.
    tgt = rng.randint(1, 150)
    via = rng.rand() < .5
    thr = rng.randint(1, 150)
    p = snap(o)
    ref, ref0 = o.nel_mp_ref, o.nel_mp_ref_0
    n = p['N_mp']
    if via:
        o.flag_soft_regen, o.N_mp_soft_regen, o.N_mp_after_soft_regen = True, thr, tgt
        trig = n > thr and n > tgt
        if n > thr and not n > tgt:
            pass
        o.check_for_soft_regeneration()
    else:
        trig = n > tgt
        o.perform_soft_regeneration(target_N_mp=tgt)
    q = snap(o)
    if not trig:
        for a in p:
            need(eq(p[a], q[a]), 'regeneration acts below its trigger (N_mp=%d)' % n)
        need(o.nel_mp_ref == ref, 'reference size changes below the trigger')
        return
    verify(o, p, tgt, ref0)
    need(o.nel_mp_ref != ref or q['N_mp'] != n or close(max(p['nel_mp'][:n].sum() / tgt, ref0), ref), 'regeneration does not act above its trigger (N_mp=%d)' % n)


def case_exact_trigger(rng):
    thr = rng.randint(5, 60)
    for n in (thr - 1, thr, thr + 1, thr + 2):
        o = obj_any(rng, n_live=n, n_max=200)
        o.nel_mp[:n] = o.nel_mp_ref * 30
        o.flag_soft_regen, o.N_mp_soft_regen, o.N_mp_after_soft_regen = True, thr, max(1, thr // 3)
        ref = o.nel_mp_ref
        o.check_for_soft_regeneration()
        need((o.nel_mp_ref != ref) == (n > thr), 'soft regeneration at N_mp=%d with trigger %d' % (n, thr))


def case_async(rng):
    thr = rng.randint(5, 60)
    n = thr + rng.randint(-2, 40)
    o = obj_any(rng, n_live=n, n_max=200)
    small = rng.rand(n) < rng.uniform(0, .8)
    o.nel_mp[:n] = np.where(small, .2 * o.nel_mp_cl_th, 20 * o.nel_mp_ref)
    o.flag_async_regen, o.N_mp_async_regen, o.N_mp_after_async_regen = True, thr, max(1, thr // 2)
    p = snap(o)
    ref, ref0 = o.nel_mp_ref, o.nel_mp_ref_0
    o.check_for_async_regeneration()
    if n <= thr:
        for a in p:
            need(eq(p[a], getattr(o, a) if a != 'N_mp' else o.N_mp), 'asynchronous regeneration acts below its trigger')
        return
    keep = ~small
    p2 = {a: (v[:n][keep] if a != 'N_mp' else int(keep.sum())) for a, v in p.items()}
    if keep.sum() <= thr:
        need(o.N_mp == keep.sum(), 'asynchronous regeneration: only cleaning expected')
        for a in live(o):
            need(eq(getattr(o, a)[:o.N_mp], p2[a]), 'asynchronous regeneration: %s of cleaned cloud' % a)
        return
    need(o.nel_mp_ref != ref, 'asynchronous regeneration does not act above its trigger')
    verify(o, p2, max(1, thr // 2), ref0)


def case_check_via_manager(rng):
    """two consecutive soft regenerations keep the charge"""
    o = obj_any(rng, n_live=150, n_max=300)
    o.nel_mp[:150] = o.nel_mp_ref * 5
    tot = o.nel_mp[:150].sum()
    o.perform_soft_regeneration(target_N_mp=80)
    o.perform_soft_regeneration(target_N_mp=30)
    if o.N_mp:
        need(close(o.nel_mp[:o.N_mp].sum(), tot, 1e-9), 'charge over two regenerations')
        need(close(o.nel_mp.sum(), tot, 1e-9), 'charge in dead slots')


CASES = {'soft': case_soft, 'exact_trigger': case_exact_trigger, 'async': case_async, 'twice': case_check_via_manager}
