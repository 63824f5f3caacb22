import os
import numpy as np
from conc.util import *
from conc import simcfg

NATIVES = None
VAX = ('x', 'y', 'z')


def track(rng, sub=True):
    k = rng.randint(2)
    n = int(rng.randint(1, 6))
    if k:
        return dict(track_method='BorisMultipole', B_multip=[0., 0.], N_sub_steps=n, B=0., B0x=None)
    return dict(track_method='Boris', N_sub_steps=n, B0x=0., B0y=0., B0z=0.)


def still(rng, cloud, T, steps, n=None):
    """macroparticles which stay well inside the chamber over the steps"""
    mp = cloud.MP_e
    n = rng.randint(1, 25) if n is None else n
    v = 4e-3 / (T * steps)
    mp.x_mp[:n], mp.y_mp[:n], mp.z_mp[:n] = rng.uniform(-3e-3, 3e-3, n), rng.uniform(-3e-3, 3e-3, n), rng.randn(n)
    for a in VAX:
        getattr(mp, 'v%s_mp' % a)[:n] = rng.uniform(-v, v, n)
    mp.nel_mp[:n] = 1.
    mp.nel_mp[n:] = 0.
    mp.N_mp = n


def state(cloud):
    mp = cloud.MP_e
    n = int(mp.N_mp)
    return {a: getattr(mp, a)[:n].copy() for a in ATTRS}


def advanced(cloud, old, T, what, acc=(0., 0., 0.)):
    mp = cloud.MP_e
    n = len(old['x_mp'])
    need(mp.N_mp == n, '%s: number of macroparticles changes without impacts or sources' % what, 'number')
    for j, a in enumerate(VAX):
        v0, v = old['v%s_mp' % a], getattr(mp, 'v%s_mp' % a)[:n]
        need(close(v, v0 + acc[j] * T, 1e-9, 1e-9 * np.abs(v0).max()), '%s: v%s not advanced over the time of the step' % (what, a), 'velocity')
        if acc[j] == 0:
            x0, x = old[a + '_mp'], getattr(mp, a + '_mp')[:n]
            need(np.all(np.abs(x - x0 - v0 * T) <= 1e-9 * np.abs(v0 * T).max() + 1e-13 * (1 + np.abs(x0).max())),
                 '%s: %s covers %r of the time of the step' % (what, a, np.median((x - x0) / (v0 * T)) if n else 0), 'time')


@simcfg.scratch
def case_motion(rng, d):
    """no fields: every macroparticle of every cloud moves by its velocity times the time of the step"""
    tr = track(rng)
    kind = ['uniform', 'file', 'nonuniform', 'custom'][rng.randint(4)]
    Dt = 10**rng.uniform(-11, -9.5)
    sim = dict(Dt=Dt, t_sc_ON=1e9, lam_th=1e30, flag_reinterp_fields_at_substeps=bool(rng.rand() < .4), Dt_sc=Dt * rng.uniform(.5, 5),
               N_mp_soft_regen=None, N_mp_after_soft_regen=None)
    beam = {}
    if kind in ('file', 'nonuniform'):
        n = rng.randint(4, 12)
        dt = Dt * (np.ones(n) * rng.uniform(.2, 3) if kind == 'file' else 10**rng.uniform(-1.8, .6, n))
        simcfg.profile(os.path.join(d, 'prof.mat'), np.concatenate([[0.], np.cumsum(dt)]), rng.rand(n + 1))
        beam = dict(flag_bunched_beam=0, beam_long_prof_file=os.path.join(d, 'prof.mat'), b_spac=Dt * 4, sigmaz=-1)
    else:
        beam = dict(b_spac=5 * Dt, sigmaz=Dt * 3e8, t_offs=2 * Dt)
    clouds = [dict(simcfg.ION, N_sub_steps=int(rng.randint(1, 9)))] if rng.rand() < .5 else []
    s = simcfg.build(d, machine=tr, sim=sim, beam=beam, clouds=clouds)
    b = s.beamtim
    steps = len(b.t) - 1
    for c in s.cloud_list:
        still(rng, c, np.max(np.diff(b.t)), steps + 1)
    seen = []
    for i in range(steps):
        old = [state(c) for c in s.cloud_list]
        kw = {}
        with simcfg.quiet():
            b.next_time_step()
            T = b.t[i + 1] - b.t[i]
            if kind == 'custom':
                nn = int(rng.randint(1, 7))
                kw = dict(N_sub_steps_custom=nn, Dt_substep_custom=T / nn, kick_mode_for_beam_field=bool(rng.randint(2)),
                          force_reinterp_fields_at_substeps=bool(rng.randint(2)))
            s.sim_time_step(skip_MP_cleaning=True, skip_MP_regen=True, **kw)
        for k, c in enumerate(s.cloud_list):
            advanced(c, old[k], T, '%s time axis, %s, step of cloud %d%s' % (kind, tr['track_method'], k, ', fields interpolated at substeps' if sim['flag_reinterp_fields_at_substeps'] else ''))


@simcfg.scratch
def case_kick(rng, d):
    """uniform fields of all the beams act over the whole step, once, in every sub-stepping mode"""
    tr = track(rng)
    Dt = 10**rng.uniform(-11, -10)
    u = rng.uniform(-1, 1, 2)
    lam = [rng.uniform(.5, 2) * 1e9 for _ in range(rng.randint(1, 4))]
    re = bool(rng.rand() < .5)
    clouds = [dict(simcfg.ION, N_sub_steps=int(rng.randint(1, 9)))] if rng.rand() < .5 else []
    s = simcfg.build(d, machine=tr, sim=dict(Dt=Dt, t_sc_ON=1e9, lam_th=0., flag_reinterp_fields_at_substeps=re, N_mp_soft_regen=None, N_mp_after_soft_regen=None),
                     beam=dict(b_spac=5 * Dt, sigmaz=Dt * 3e8, t_offs=2 * Dt, fact_beam=0., coast_dens=lam[0]), uniform=u, clouds=clouds,
                     sec_beams=[dict(b_spac=5 * Dt, sigmaz=Dt * 3e8, t_offs=2 * Dt, fact_beam=0., coast_dens=l) for l in lam[1:]])
    b = s.beamtim
    for c in s.cloud_list:
        still(rng, c, Dt, 20)
    custom = rng.rand() < .5
    for i in range(3):
        old = [state(c) for c in s.cloud_list]
        with simcfg.quiet():
            b.next_time_step()
            for x in s.sec_beams_list:
                x.next_time_step()
            T = b.t[i + 1] - b.t[i]
            kw = {}
            if custom:
                nn = int(rng.randint(1, 7))
                kw = dict(N_sub_steps_custom=nn, Dt_substep_custom=T / nn, kick_mode_for_beam_field=bool(rng.randint(2)), force_reinterp_fields_at_substeps=bool(rng.randint(2)))
            s.sim_time_step(skip_MP_cleaning=True, skip_MP_regen=True, **kw)
        for k, c in enumerate(s.cloud_list):
            a = c.MP_e.charge / c.MP_e.mass * QE * sum(lam)
            advanced(c, old[k], T, '%s, cloud %d, %d beams%s' % (tr['track_method'], k, len(lam), ', kick' if kw.get('kick_mode_for_beam_field') else ''), (a * u[0], a * u[1], 0.))


def wrap(o, name, log, tag, before=None):
    f = getattr(o, name)

    def g(*a, **k):
        log.append((tag, before(*a, **k) if before else None))
        return f(*a, **k)
    setattr(o, name, g)


@simcfg.scratch
def case_order(rng, d):
    """sequence of the physics in a step: same for each cloud; space charge after all of them; output before cleaning; scheduled cleaning"""
    gas = dict(gas_ion_flag=1, P_nTorr=30., sigma_ion_MBarn=2., Temp_K=300., unif_frac=0., E_init_ion=.01)
    ncl, nsec = rng.randint(1, 3), rng.randint(0, 3)
    Dt = 2e-10
    t_ion = rng.choice([-1., 100., 3e-9])
    tsc = rng.choice([0., 2e-9])
    s = simcfg.build(d, machine=dict(track(rng), **gas), sim=dict(Dt=Dt, t_ion=float(t_ion), t_sc_ON=float(tsc), Dt_sc=float(rng.choice([2e-10, 7e-10]))),
                     clouds=[dict(simcfg.ION, gas_ion_flag=1, N_sub_steps=2)] * (ncl - 1), beam=dict(filling_pattern_file=[1., 1.]), sec_beams=[dict(filling_pattern_file=[1., 1.], t_offs=2e-9)] * nsec)
    log = []
    b = s.beamtim
    for i, c in enumerate(s.cloud_list):
        for m in ('step', 'stepcustomDt'):
            if hasattr(c.dynamics, m):
                wrap(c.dynamics, m, log, ('motion', i), lambda MP, *a, c=c, **k: (MP is c.MP_e, c.MP_e.x_mp[:c.MP_e.N_mp].copy()))
        wrap(c.impact_man, 'backtrack_and_second_emiss', log, ('impact', i), lambda op, MP, t, c=c: (MP is c.MP_e, t, op.x_mp[:op.N_mp].copy() if hasattr(op, 'N_mp') else op.x_mp.copy()))
        wrap(c.impact_man.sey_mod, 'SEY_model_evol', log, ('evol', i), lambda Dt: Dt)
        wrap(c.resgasion, 'generate', log, ('gas', i), lambda MP, lam, Dt, sx, sy, c=c, **k: (MP is c.MP_e, lam, Dt))
        wrap(c.pyeclsaver, 'witness', log, ('save', i), lambda MP, *a, c=c, **k: MP is c.MP_e)
        for m in ('clean_small_MPs', 'check_for_regeneration', 'check_for_soft_regeneration', 'check_for_async_regeneration'):
            wrap(c.MP_e, m, log, (m, i))
    chk = []
    f0 = s.spacech_ele.check_for_recomputation

    def check(*a, **k):
        chk.append(f0(*a, **k))
        return chk[-1]
    s.spacech_ele.check_for_recomputation = check
    wrap(s.spacech_ele, 'recompute_spchg_efield', log, 'sc', lambda MP, *a, **k: [MP is c.MP_e for c in s.cloud_list].index(True))
    wrap(s.spacech_ele.PyPICobj, 'solve', log, 'solve')
    skip = rng.rand() < .3
    skipc = skip and rng.rand() < .5
    for i in range(len(b.t) - 1):
        del log[:]
        old = [c.MP_e.x_mp[:c.MP_e.N_mp].copy() for c in s.cloud_list]
        with simcfg.quiet():
            b.next_time_step()
            for x in s.sec_beams_list:
                x.next_time_step()
            s.sim_time_step(**(dict(skip_MP_cleaning=bool(skipc), skip_MP_regen=True) if skip else {}))
        need(len(chk) == i + 1, 'recomputation checked %d times in %d steps' % (len(chk), i + 1), 'check')
        ref = []
        for k in range(ncl):
            ref += [('motion', k), ('impact', k), ('evol', k)]
            if b.tt_curr < s.cloud_list[k].t_ion:
                ref += [('gas', k)] * (1 + nsec)
        if chk[-1] and b.tt_curr > s.t_sc_ON:
            ref += ['sc'] * ncl + ['solve']
        ref += [('save', k) for k in range(ncl)]
        for k in range(ncl):
            if b.flag_new_bunch_pass:
                ref += [('clean_small_MPs', k)] * (not skipc) + [('check_for_regeneration', k), ('check_for_soft_regeneration', k)] * (not skip)
            ref += [('check_for_async_regeneration', k)]
        got = [t for t, v in log]
        # a tracker may be called once per substep
        red = [t for j, t in enumerate(got) if not (j and t == got[j - 1] and t[0] == 'motion')]
        need(red == ref, 'sequence of the step: %r, expected %r' % (red, ref), 'order')
        need([v for t, v in log if t == 'sc'] == (list(range(ncl)) if 'sc' in ref else []), 'space charge of other macroparticles', 'sc')
        seen = set()
        for t, v in log:
            if t[0] == 'motion' and t[1] not in seen:
                seen.add(t[1])
                need(v[0] and eq(v[1], old[t[1]]), 'the motion does not start from the state of the previous step', 'start')
            if t[0] == 'impact':
                need(v[0] and v[1] == b.tt_curr, 'impacts of another cloud or time', 'impact')
                need(eq(v[2][:len(old[t[1]])], old[t[1]]), 'impacts are backtracked to other positions than those before the motion', 'impact')
            if t[0] == 'evol':
                need(abs(v - Dt) < 1e-6 * Dt, 'evolution of the surface over %g' % v, 'evol')
            if t[0] == 'save':
                need(v, 'other macroparticles saved', 'save')
        for k in range(ncl):
            g = [v for t, v in log if t == ('gas', k)]
            if g:
                need(all(v[0] and abs(v[2] - Dt) < 1e-6 * Dt for v in g), 'gas ionization of another cloud or over another time', 'gas')
                need([v[1] for v in g] == [b.lam_t_curr] + [x.lam_t_curr for x in s.sec_beams_list], 'gas ionization by each beam with its own density', 'gas')


@simcfg.scratch
def case_interval(rng, d):
    """the field is solved exactly when the interval has elapsed since the last recomputation, and held otherwise"""
    Dt = 10**rng.uniform(-10.3, -9.7)
    f = rng.choice([0., .3, 1., 2., 2.5, 7.3])
    ton = float(rng.choice([-1., 0., 1.]) * rng.uniform(0, 10) * Dt)
    s = simcfg.build(d, machine=track(rng), sim=dict(Dt=Dt, Dt_sc=None if f == 0 else Dt * f, t_sc_ON=ton), beam=dict(b_spac=10 * Dt, filling_pattern_file=[1., 0., 1.], t_offs=3 * Dt, sigmaz=Dt * 3e8),
                     clouds=[simcfg.ION] * rng.randint(2))
    n = [0]
    g = s.spacech_ele.PyPICobj.solve

    def solve(*a, **k):
        n[0] += 1
        return g(*a, **k)
    s.spacech_ele.PyPICobj.solve = solve
    b = s.beamtim
    last = 0.
    x, y = rng.uniform(-5e-3, 5e-3, 10), rng.uniform(-5e-3, 5e-3, 10)
    fld = np.array(s.spacech_ele.PyPICobj.gather(x, y))
    for i in range(len(b.t) - 1):
        t = b.t[i]
        force = bool(rng.rand() < .1)
        n[0] = 0
        with simcfg.quiet():
            b.next_time_step()
            s.sim_time_step(force_recompute_space_charge=force)
        due = f == 0 or t - last >= Dt * f
        if f and abs(t - last - Dt * f) < 1e-6 * Dt:
            due = None
        if due is None:
            due = s.spacech_ele.last_recomputation_check
        if due:
            last = t
        exp = bool((due and t > ton) or force)
        need(n[0] == exp, 'field solved %d times at t = %g Dt, last recomputation at %g Dt, interval %g Dt, on after %g Dt' % (n[0], t / Dt, last / Dt, f, ton / Dt), 'interval')
        new = np.array(s.spacech_ele.PyPICobj.gather(x, y))
        if not exp:
            need(eq(new, fld), 'field changes between recomputations', 'held')
        fld = new


@simcfg.scratch
def case_run(rng, d):
    """the run does one step per sample of the time axis, the secondary beams in step with the main one"""
    Dt = 2e-10
    nsec = rng.randint(0, 3)
    s = simcfg.build(d, machine=track(rng), sim=dict(Dt=Dt), beam=dict(filling_pattern_file=[1.] * rng.randint(1, 4)), sec_beams=[dict(filling_pattern_file=[1.] * rng.randint(1, 4), t_offs=2e-9)] * nsec)
    log = []
    f = s.sim_time_step

    def step(*a, **k):
        b = s.beamtim
        log.append((b.tt_curr, b.Dt_curr, [(x.tt_curr, x.lam_t_curr) for x in s.sec_beams_list]))
        return f(*a, **k)
    s.sim_time_step = step
    te = None if rng.rand() < .5 else float(rng.uniform(0, 1.2) * s.beamtim.t[-1])
    t = np.array(s.beamtim.t)
    with simcfg.quiet():
        s.run(t_end_sim=te)
    ref = t[:-1]
    if te is not None:
        k = np.flatnonzero(ref >= te)
        ref = ref[:k[0] + 1] if len(k) else ref
    need(eq([v[0] for v in log], ref), 'the run does not do one step per sample of the time axis', 'steps')
    for i, v in enumerate(log):
        need(abs(v[1] - Dt) < 1e-6 * Dt, 'length of a step', 'steps')
        for j, (tt, lam) in enumerate(v[2]):
            need(tt == v[0] and lam == s.sec_beams_list[j].lam_t_array[i], 'secondary beam not in step with the main beam', 'beams')


CASES = {k[5:]: f for k, f in list(globals().items()) if k.startswith('case_')}
