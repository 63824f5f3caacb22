import os
import numpy as np
import scipy.io as sio
import scipy.constants
from conc.util import *
from conc import simcfg

NATIVES = None
EQ = scipy.constants.e


def hist(x, w, bias, D, n):
    """linear deposit of the charges on the histogram points"""
    h = np.zeros(n)
    for a, b in zip(x, w):
        f = (a - bias) / D
        i = int(np.floor(f))
        if i < n - 1:
            h[i] += b * (1 - (f - i))
            h[i + 1] += b * (f - i)
        else:
            # beyond the last point
            h[n - 1] += b
    return h


class Log(object):
    """own record of one cloud, taken when its saver is called"""

    def __init__(self, cloud, sim):
        self.rows, self.cloud, self.sim = [], cloud, sim
        sv = cloud.pyeclsaver
        orig = sv.witness

        def witness(*a, **k):
            self.take()
            return orig(*a, **k)
        sv.witness = witness

    def take(self):
        c, b, m, i, sc = self.cloud, self.sim.beamtim, self.cloud.MP_e, self.cloud.impact_man, self.sim.spacech_ele
        n = int(m.N_mp)
        mp = {a: np.array(getattr(m, a)[:n]) for a in ('x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp', 'nel_mp')}
        r = dict(mp=mp, n=n, tt=float(b.tt_curr), lam=float(b.lam_t_curr), ref=float(m.nel_mp_ref), new=bool(b.flag_new_bunch_pass), passn=int(b.pass_numb),
                 Enet=float(i.En_imp_last_step_eV) - float(i.En_emit_last_step_eV), imp=float(i.Nel_impact_last_step), emit=float(i.Nel_emit_last_step), Eimp=float(i.En_imp_last_step_eV), Eemit=float(i.En_emit_last_step_eV),
                 En=i.En_hist_line.copy(), tot=i.nel_impact_hist_tot.copy(), scrub=i.nel_impact_hist_scrub.copy(), Ehist=i.energ_eV_impact_hist.copy(),
                 rec=bool(sc.last_recomputation_check), rho=np.array(sc.rho), efx=np.array(sc.efx), crho=None if c.rho is None else np.array(c.rho), nimp=c.impact_man.chamb.N_mp_impact,
                 obs=float(np.sum(mp['x_mp'])) + 3 * float(b.tt_curr))
        for k in ('nel_hist_impact_seg', 'nel_hist_emit_seg', 'energ_eV_impact_seg', 'cos_angle_hist', 'lifetime_hist_line'):
            v = getattr(i, k, None)
            r[k] = np.array(v) if isinstance(v, np.ndarray) else None
        r['segE'] = [np.array(v) for v in i.seg_En_hist_lines] if getattr(i, 'flag_En_hist_seg', False) else None
        self.rows.append(r)


def observable(sim):
    # custom observables are evaluated on the simulation when its cloud is saved
    return float(np.sum(sim.cloud_list[0].MP_e.x_mp[:sim.cloud_list[0].MP_e.N_mp])) + 3 * float(sim.beamtim.tt_curr)


def config(rng, d, long=False):
    Dt = 2e-10
    npass = int(rng.choice([3, 4, 5])) if not long else 4
    every = int(rng.choice([k for k in range(1, npass + 2) if (npass + 1) % k == 0]))
    bsp = 5e-9
    if long:
        # more steps than the initial size of the record (twice resized)
        Dt = bsp * npass / rng.randint(1900, 3300)
    sim = dict(Dt=Dt, dec_fact_out=int(rng.choice([1, 1, 2, 3, 7]) if not long else rng.choice([1, 1, 2])), Dt_En_hist=float(rng.choice([.3, 1., 1.7, 3.]) * bsp),
               Dt_sc=float(rng.choice([1, 2.5, 5]) * 2e-10), flag_detailed_MP_info=int(rng.randint(2)), save_mat_every=every, Dh_sc=3e-3 if long else 2e-3, r_center=float(rng.uniform(1e-3, 1.5e-2)),
               N_mp_regen=100000, N_mp_soft_regen=None, N_mp_after_soft_regen=None)
    if rng.rand() < .5:
        sim['el_density_probes'] = [{'x': 0., 'y': 0., 'r_obs': 5e-3}, {'x': 5e-3, 'y': 2e-3, 'r_obs': 8e-3}][:rng.randint(1, 3)]
    if rng.rand() < .4:
        sim.update(x_min_hist_det=-1e-2, x_max_hist_det=1.1e-2, y_min_hist_det=-5e-3, y_max_hist_det=6e-3, Dx_hist_det=1e-3)
    if rng.rand() < .3:
        sim.update(flag_cos_angle_hist=True, cos_angle_width=.05)
    if rng.rand() < .3:
        sim.update(flag_lifetime_hist=True, Nbin_lifetime_hist=20, lifetime_hist_max=1e-8, Dt_lifetime_hist=float(rng.choice([.7, 2.]) * bsp))
    if rng.rand() < .3 and not long:
        sim.update(flag_movie=1)
    if rng.rand() < .3 and not long:
        sim.update(flag_sc_movie=1)
    if rng.rand() < .4:
        sim['save_mp_state_time_file'] = sorted(float(x) for x in rng.uniform(0, npass * bsp, rng.randint(1, 4)))
    if rng.rand() < .3:
        sim['Dh_electric_energy'] = 4e-3
    m = dict(track_method='Boris', B0x=0., B0y=0., B0z=0., N_sub_steps=1)
    seg = rng.rand() < .4
    if seg:
        m.update(chamb_type='rect')
        sim['flag_hist_impact_seg'] = True
        sim['flag_En_hist_seg'] = bool(rng.rand() < .6)
    n = 20 if long else 300
    kw = dict(machine=m, sim=sim, sec=dict(switch_model=rng.choice(['perfect_absorber', 'ECLOUD'])) if not long else dict(switch_model='perfect_absorber'),
              beam=dict(filling_pattern_file=[1.] + [float(rng.randint(2)) for _ in range(npass - 1)], b_spac=bsp, t_offs=1.3e-9, sigmaz=.1),
              clouds=[dict(simcfg.ION)] if rng.rand() < .3 else [])
    return kw, n


def sums(log, idx, key):
    """contributions since the previous record"""
    out, last = [], 0
    v = np.array([r[key] for r in log.rows])
    for i in idx:
        out.append(np.sum(v[last:i + 1]))
        last = i + 1
    return np.array(out)


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (np.max(np.abs(b)) if b.size else 0)))


def check_steps(out, log, sim, dec, Dt, r_center, probes, mass, energy):
    R = log.rows
    tt = np.array([r['tt'] for r in R])
    t = np.atleast_1d(out['t'])
    idx = list(range(0, len(R), dec))
    need(len(t) == len(idx) and np.allclose(t, tt[idx], rtol=0, atol=1e-3 * Dt), 'times of the recorded steps: %d records instead of %d' % (len(t), len(idx)), 't')
    A = lambda f: np.array([f(R[i]) for i in idx])
    ek = lambda r: np.sum(.5 * mass / EQ * r['mp']['nel_mp'] * (r['mp']['vx_mp']**2 + r['mp']['vy_mp']**2 + r['mp']['vz_mp']**2))

    def dens(x, y, ra):
        return lambda r: np.sum(r['mp']['nel_mp'][(r['mp']['x_mp'] - x)**2 + (r['mp']['y_mp'] - y)**2 < ra**2]) / (np.pi * ra**2)
    ref = {'lam_t_array': A(lambda r: r['lam']), 'Nel_timep': A(lambda r: np.sum(r['mp']['nel_mp'])), 'En_kin_eV_time': A(ek), 'cen_density': A(dens(0, 0, r_center)),
           'Nel_imp_time': sums(log, idx, 'imp'), 'Nel_emit_time': sums(log, idx, 'emit'), 'En_imp_eV_time': sums(log, idx, 'Eimp'), 'En_emit_eV_time': sums(log, idx, 'Eemit')}
    if 'N_mp_time' in out and np.ndim(out['t']):
        ref['N_mp_time'] = A(lambda r: r['n'])
        ref['nel_mp_ref_time'] = A(lambda r: r['ref'])
    if 'my_step' in out:
        ref['my_step'] = A(lambda r: r['obs0'])
    for k, v in ref.items():
        need(near(np.atleast_1d(out[k]), v), 'step record: %s' % k, k)
    if probes:
        p = np.asarray(out['el_dens_at_probes'])
        need(p.shape == (len(probes), len(idx)), 'density at the probes: %s' % (p.shape,), 'probes')
        for k, q in enumerate(probes):
            need(near(p[k], A(dens(q['x'], q['y'], q['r_obs']))), 'density at probe %d' % k, 'probes')


def check_passes(out, log, s, sim, segs):
    P = [r for r in log.rows if r['new']]
    need(near(out['t_hist'], [r['tt'] for r in P]) and len(out['t_hist']) == len(P), 'times of the passages', 't_hist')
    for k, a in (('nel_impact_hist_tot', 'tot'), ('nel_impact_hist_scrub', 'scrub'), ('energ_eV_impact_hist', 'Ehist')) + (tuple((k, k) for k in ('nel_hist_impact_seg', 'nel_hist_emit_seg', 'energ_eV_impact_seg')) if segs else ()):
        need(near(np.asarray(out[k]), [r[a] for r in P]), 'impacts of the passages: %s' % k, k)
    # the histograms hold the impacts of the steps of that passage
    last = 0
    at = [i for i, r in enumerate(log.rows) if r['new']]
    for j, i in enumerate(at):
        for k, a in (('nel_impact_hist_tot', 'imp'), ('energ_eV_impact_hist', 'Enet')) + ((('nel_hist_impact_seg', 'imp'), ('energ_eV_impact_seg', 'Enet'), ('nel_hist_emit_seg', 'emit')) if segs else ()):
            w = sum(r[a] for r in log.rows[last:i + 1])
            if k in out:
                need(abs(np.sum(out[k][j]) - w) <= 1e-6 * max(sum(r['Eimp' if a == 'Enet' else a] for r in log.rows[last:i + 1]), 1e-30), 'passage %d: %s holds %g instead of %g' % (j, k, np.sum(out[k][j]), w), k)
        last = i + 1
    im = log.cloud.impact_man
    for j, r in enumerate(P):
        need(near(out['nel_hist'][j], hist(r['mp']['x_mp'], r['mp']['nel_mp'], im.bias_x_hist, im.Dx_hist, len(out['nel_hist'][j])), 1e-6), 'charge distribution of passage %d' % j, 'nel_hist')
    if np.ndim(out.get('nel_hist_det', -1)) > 0:
        g = out['xg_hist_det']
        for j, r in enumerate(P):
            m = r['mp']
            k = (m['x_mp'] > sim['x_min_hist_det']) & (m['x_mp'] < sim['x_max_hist_det']) & (m['y_mp'] > sim['y_min_hist_det']) & (m['y_mp'] < sim['y_max_hist_det'])
            need(near(out['nel_hist_det'][j], hist(m['x_mp'][k], m['nel_mp'][k], g[0], sim['Dx_hist_det'], len(g)), 1e-6), 'detailed distribution of passage %d' % j, 'nel_hist_det')
    need(near(out['N_mp_pass'], [r['n'] for r in P]) and near(out['N_mp_ref_pass'], [r['ref'] for r in P]) and near(out['N_mp_impact_pass'], [r['nimp'] for r in P]), 'macroparticles of the passages', 'N_mp')


def check_energy(out, log, s, D):
    """histograms recorded at intervals"""
    idx, last = [], -1.
    for i, r in enumerate(log.rows):
        if r['tt'] >= (last + D) * (1 - 1e-9):
            idx.append(i)
            last = r['tt']
    need(len(out['t_En_hist']) == len(idx) and near(out['t_En_hist'], [log.rows[i]['tt'] for i in idx]), 'times of the energy histograms', 't_En_hist')
    need(near(out['En_hist'], [log.rows[i]['En'] for i in idx]), 'energy histograms', 'En_hist')
    im = log.cloud.impact_man
    prev = 0
    for j, i in enumerate(idx):
        w = sum(r['imp'] for r in log.rows[prev:i + 1])
        prev = i + 1
        g = np.sum(out['En_hist'][j])
        need(abs(g - w) <= 1e-6 * w, 'energy histogram %d holds %g of %g' % (j, g, w), 'En_hist')
        m = log.rows[i]['mp']
        e = .5 * log.cloud.MP_e.mass / EQ * (m['vx_mp']**2 + m['vy_mp']**2 + m['vz_mp']**2)
        need(near(out['all_Ekin_hist'][j], hist(e, m['nel_mp'], 0, im.DEn_hist, im.Nbin_En_hist), 1e-6), 'kinetic energies at record %d' % j, 'all_Ekin_hist')
        if log.rows[i]['cos_angle_hist'] is not None and np.ndim(out['cos_angle_hist']) > 0:
            need(near(out['cos_angle_hist'][j], log.rows[i]['cos_angle_hist']), 'angles at record %d' % j, 'cos_angle_hist')
        if log.rows[i]['segE'] is not None:
            for k, h in enumerate(log.rows[i]['segE']):
                need(near(out['En_hist_seg'][k][j], h), 'energies on a segment at record %d' % j, 'En_hist_seg')


def check_life(out, log, D):
    last, j = -1., 0
    for i, r in enumerate(log.rows):
        if r['tt'] >= (last + D) * (1 - 1e-9):
            last = r['tt']
            need(j < len(out['t_lifetime_hist']) and out['t_lifetime_hist'][j] == r['tt'] and near(out['lifetime_hist'][j], r['lifetime_hist_line']), 'lifetimes at record %d' % j, 'lifetime')
            j += 1
    need(len(out['t_lifetime_hist']) == j, 'number of lifetime histograms', 'lifetime')


def run(rng, d, long):
    kw, n = config(rng, d, long)
    S = kw['sim']
    custom = {}
    if rng.rand() < .4:
        custom = dict(step_by_step_custom_observables={'my_step': observable}, pass_by_pass_custom_observables={'my_pass': observable})
    s = simcfg.build(d, kw=custom, **kw)
    logs = [Log(c, s) for c in s.cloud_list]
    for c in s.cloud_list[1:] if len(s.cloud_list) > 1 else []:
        pass
    if long:
        for c in s.cloud_list:
            c.MP_e.N_mp = min(n, int(c.MP_e.N_mp))
            c.MP_e.nel_mp[c.MP_e.N_mp:] = 0
    def each(sim, k):
        for l in logs:
            l.rows[-1]['obs0'] = logs[0].rows[-1]['obs']
    simcfg.quiet_run(s, each)
    Dt = S['Dt']
    for ic, (c, l) in enumerate(zip(s.cloud_list, logs)):
        out = dict(c.pyeclsaver.build_outp_dict(s))
        sv = c.pyeclsaver
        check_steps(out, l, s, S['dec_fact_out'], Dt, S['r_center'], S.get('el_density_probes', []), c.MP_e.mass, None)
        segs = bool(S.get('flag_hist_impact_seg'))
        check_passes(out, l, s, S, segs)
        check_energy(out, l, s, S['Dt_En_hist'])
        if S.get('flag_lifetime_hist'):
            check_life(out, l, S['Dt_lifetime_hist'])
        if custom:
            need(near(out['my_pass'], [r['obs0'] for r in l.rows if r['new']]), 'custom observable of the passages', 'my_pass')
        rec = [r for r in l.rows if r['rec']]
        need(near(out['t_sc_video'], [r['tt'] for r in rec]) and len(out['U_sc_eV']) == len(rec), 'times of the space charge energy', 't_sc_video')
        # the file holds the record up to the last passage
        fo = [f for f in os.listdir(d) if f.startswith('Pyecltest') and f.endswith('.mat') and (f == 'Pyecltest.mat' if ic == 0 else c.name in f)]
        need(len(fo) == 1, 'output file of cloud %d: %s' % (ic, fo), 'file')
        m = sio.loadmat(os.path.join(d, fo[0]), squeeze_me=True)
        P = [i for i, r in enumerate(l.rows) if r['new']]
        nrec = len([i for i in range(0, len(l.rows), S['dec_fact_out']) if i <= P[-1]])
        for k in ('t', 'Nel_timep', 'Nel_imp_time', 'En_emit_eV_time', 'cen_density'):
            need(np.atleast_1d(m[k]).shape == (nrec,) and np.array_equal(np.atleast_1d(m[k]), np.asarray(out[k])[:nrec]), 'file: %s' % k, k)
        for k in ('nel_impact_hist_tot', 't_hist', 'energ_eV_impact_hist'):
            need(np.array_equal(m[k], np.squeeze(np.asarray(out[k]))), 'file: %s' % k, k)
        # states saved at given times
        todo = list(S.get('save_mp_state_time_file', []))
        nm = 'MP_state_%d' if len(s.cloud_list) == 1 else 'MP_state_' + sv.cloud_name + '_%d'
        j = 0
        for r in l.rows:
            if j < len(todo) and r['n'] > 0 and r['tt'] >= todo[j]:
                g = sio.loadmat(os.path.join(sv.folder_outp, nm % j), squeeze_me=True)
                need(float(g['tt']) == r['tt'] and int(g['N_mp']) == r['n'] and all(np.array_equal(np.atleast_1d(g[a]), v) for a, v in r['mp'].items()), 'macroparticles saved at time %g' % todo[j], 'MP_state')
                j += 1
        # densities and fields of a passage, one frame per recomputation
        for flag, fold, key, what in (('flag_movie', 'rho_video', 'rho_video', 'rho'), ('flag_sc_movie', 'efield_video', 'efx_video', 'efx')):
            if not S.get(flag) or c is not s.cloud_list[-1]:
                continue
            prev = 0
            for i in P:
                fr = [r for r in l.rows[prev:i + 1] if r['rec']]
                prev = i + 1
                g = sio.loadmat(os.path.join(sv.folder_outp, fold, '%s_pass%d.mat' % (fold.split('_')[0], l.rows[i]['passn'] - 1)))
                v = g[key]
                if len(fr):
                    need(len(v) == len(fr) and all(np.array_equal(v[q], fr[q][what]) for q in range(len(fr))), 'frames of %s' % fold, fold)


@simcfg.scratch
def case_run(rng, d):
    run(rng, d, False)


@simcfg.scratch
def case_long(rng, d):
    run(rng, d, True)


CASES = {k[5:]: f for k, f in list(globals().items()) if k.startswith('case_')}
