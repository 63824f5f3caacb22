import os
import numpy as np
from conc.util import *
from conc import simcfg

NATIVES = None
T_KEYS = {'t': ['t', 'lam_t_array', 'Nel_timep', 'Nel_imp_time', 'Nel_emit_time', 'En_imp_eV_time', 'En_emit_eV_time', 'En_kin_eV_time', 'cen_density',
                'N_mp_time', 'nel_mp_ref_time', 'En_electric_eV_time', 'el_dens_at_probes'],
          't_hist': ['t_hist', 'nel_hist', 'nel_impact_hist_tot', 'nel_impact_hist_scrub', 'energ_eV_impact_hist', 'N_mp_impact_pass', 'N_mp_corrected_pass',
                     'N_mp_pass', 'N_mp_ref_pass', 'nel_hist_impact_seg', 'nel_hist_emit_seg', 'energ_eV_impact_seg', 'nel_hist_det', 'my_pass'],
          't_En_hist': ['t_En_hist', 'En_hist', 'all_Ekin_hist', 'cos_angle_hist'],
          't_lifetime_hist': ['t_lifetime_hist', 'lifetime_hist'],
          't_sc_video': ['t_sc_video', 'U_sc_eV']}
FIXED = ['xg_hist', 'En_g_hist', 'b_spac', 'x_el_dens_probes', 'y_el_dens_probes', 'r_el_dens_probes', 'xg_hist_det', 'dec_fact_out', 'chamber_area', 'xg_hist_cos_angle',
         't_sec_beams', 'sec_beam_profiles', 'lifetime_g_hist', 'sey_test_cos_theta', 'sey_test_E_impact_eV']


def config(rng, d):
    Dt = 2e-10
    sim = dict(Dt=Dt, checkpoint_DT=float(rng.uniform(.8, 3) * 5e-9), checkpoint_folder=os.path.join(d, 'checkp') + '/', dec_fact_out=int(rng.choice([1, 1, 2, 3, 7])),
               Dt_En_hist=float(rng.choice([.5, 1., 1.7, 3.]) * 5e-9), Dt_sc=float(rng.choice([1, 2.5, 5]) * Dt), flag_detailed_MP_info=int(rng.randint(2)),
               N_mp_soft_regen=None, N_mp_after_soft_regen=None, Dh_sc=2e-3)
    if rng.rand() < .5:
        sim['el_density_probes'] = [{'x': 0., 'y': 0., 'r_obs': 5e-3}, {'x': 5e-3, 'y': 0., 'r_obs': 8e-3}][:rng.randint(1, 3)]
    if rng.rand() < .4:
        sim.update(x_min_hist_det=-1e-2, x_max_hist_det=1e-2, y_min_hist_det=-5e-3, y_max_hist_det=5e-3, Dx_hist_det=1e-3)
    if rng.rand() < .4:
        sim.update(flag_lifetime_hist=True, Nbin_lifetime_hist=20, lifetime_hist_max=1e-8, Dt_lifetime_hist=float(rng.choice([.7, 2.]) * 5e-9))
    if rng.rand() < .4:
        sim['Dh_electric_energy'] = 4e-3
    if rng.rand() < .3:
        sim['copy_main_outp_folder'] = os.path.join(d, 'copies')
        sim['copy_main_outp_DT'] = 1e-9
    m = dict(track_method='Boris', B0x=0., B0y=0., B0z=0., N_sub_steps=1)
    if rng.rand() < .4:
        m.update(chamb_type='rect')
        sim['flag_hist_impact_seg'] = True
        sim['flag_En_hist_seg'] = bool(rng.rand() < .6)
    if rng.rand() < .4:
        sim['save_mat_every'] = int(rng.choice([2, 3, 6]))
    # absorbing walls: no random numbers after the start of the run
    kw = dict(machine=m, sim=sim, sec=dict(switch_model='perfect_absorber'), beam=dict(filling_pattern_file=[1.] + [float(rng.randint(2)) for _ in range(4 if 'save_mat_every' in sim else 5)], t_offs=1.3e-9, sigmaz=.1),
              clouds=[dict(simcfg.ION)] if rng.rand() < .3 else [], sec_beams=[dict(filling_pattern_file=[1.] * 6, t_offs=2.1e-9, fact_beam=3e10)] if rng.rand() < .3 else [])
    return kw


def record(s):
    return [{k: np.array(v) for k, v in c.pyeclsaver.build_outp_dict(s).items()} for c in s.cloud_list]


def same(a, b, n):
    """first n samples"""
    a, b = np.asarray(a), np.asarray(b)
    if a.ndim != b.ndim:
        return False
    return a[..., :n].shape == b[..., :n].shape and np.allclose(a[..., :n], b[..., :n], rtol=1e-9, atol=0, equal_nan=True)


def compare(ref, got, tc, what):
    for ax, keys in T_KEYS.items():
        if ax not in ref:
            continue
        n = int(np.sum(ref[ax] <= tc * (1 + 1e-12)))
        for k in keys:
            if k not in ref or ref[k].ndim == 0:
                continue
            need(k in got, '%s: %s is gone' % (what, k), k)
            r, g = ref[k], got[k]
            if k == 'el_dens_at_probes':
                r, g = r.T, g.T
            need(np.ndim(g) == np.ndim(r) and len(g) >= n, '%s: %s holds %s instead of %d samples' % (what, k, np.shape(g), n), k)
            need(np.allclose(r[:n], g[:n], rtol=1e-9, atol=0), '%s: recorded %s differs' % (what, k), k)
            yield k, n, len(g)
    if 'En_hist_seg' in ref and ref['En_hist_seg'].ndim == 3:
        n = int(np.sum(ref['t_En_hist'] <= tc * (1 + 1e-12)))
        g = got['En_hist_seg']
        need(g.ndim == 3 and g.shape[1] >= n and np.allclose(ref['En_hist_seg'][:, :n], g[:, :n]), '%s: En_hist_seg differs' % what, 'En_hist_seg')
    for k in FIXED:
        if k in ref:
            need(k in got and np.array_equal(np.squeeze(ref[k]), np.squeeze(got[k])), '%s: %s differs' % (what, k), k)


@simcfg.scratch
def case_checkpoint(rng, d):
    kw = config(rng, d)
    custom = {}
    if rng.rand() < .3:
        custom = dict(pass_by_pass_custom_observables={'my_pass': lambda s: float(s.beamtim.tt_curr)})
    a = simcfg.build(d, kw=custom, **kw)
    b = a.beamtim
    nst = len(b.t) - 1
    stop = rng.randint(nst // 4, nst)
    simcfg.quiet_run(a, stop=stop)
    cp = os.listdir(kw['sim']['checkpoint_folder'])
    if len(cp) != 1:
        need(len(cp) == 0, 'several checkpoints kept', 'files')
        return
    s = simcfg.build(d, kw=custom, **kw)
    tc = s.beamtim.tt_curr
    need(tc <= b.tt_curr and np.any(tc == b.t), 'time of the checkpoint', 'time')
    for x, y in zip(a.cloud_list, s.cloud_list):
        # set anew at each passage before the output is written
        for k in ('area', 'xg_hist', 'En_g_hist', 'b_spac', 'lifetime_g_hist'):
            if hasattr(x.pyeclsaver, k) and not hasattr(y.pyeclsaver, k):
                setattr(y.pyeclsaver, k, getattr(x.pyeclsaver, k))
    ra, rs = record(a), record(s)
    for i in range(len(ra)):
        for k, n, m in compare(ra[i], rs[i], tc, 'cloud %d reloaded at %g' % (i, tc)):
            need(m == n, 'cloud %d: %s holds %d samples, %d recorded up to the checkpoint' % (i, k, m, n), k)
    # both runs continue to the end: same record
    for x in a.cloud_list:
        x.pyeclsaver.flag_save_checkpoint = False
    simcfg.quiet_run(s)
    simcfg.quiet_run(a)
    ra, rs = record(a), record(s)
    for i in range(len(ra)):
        for k, n, m in compare(ra[i], rs[i], 1e9, 'cloud %d, restarted run' % i):
            need(m == n, 'cloud %d: %s of the restarted run has %d samples instead of %d' % (i, k, m, n), k)


CASES = {k[5:]: f for k, f in list(globals().items()) if k.startswith('case_')}
