"""Replay of the surface-interaction contract on the real code."""
import types
import numpy as np
from conc.util import *

KEYS = ('nel', 'x', 'y', 'z', 'vx', 'vy', 'vz', 'seg')
AT = (('x_mp', 'x'), ('y_mp', 'y'), ('z_mp', 'z'), ('vx_mp', 'vx'), ('vy_mp', 'vy'), ('vz_mp', 'vz'), ('nel_mp', 'nel'))


class Sey(object):
    """arbitrary emission model: random outputs, records the impacts it is given"""
    event_types = {0: 'elast', 1: 'true'}

    def __init__(self, rng, chamb, emit_new=True):
        self.rng, self.chamb, self.emit_new, self.calls = rng, chamb, emit_new, []

    def SEY_model_evol(self, Dt):
        pass

    def impacts_on_surface(self, mass, nel_impact, x_impact, y_impact, z_impact, vx_impact, vy_impact, vz_impact,
                           Norm_x, Norm_y, i_found, v_impact_n, E_impact_eV, costheta_impact, nel_mp_th, flag_seg):
        rng = self.rng
        a = dict(mass=mass, nel=nel_impact, x=x_impact, y=y_impact, z=z_impact, vx=vx_impact, vy=vy_impact, vz=vz_impact,
                 Nx=Norm_x, Ny=Norm_y, seg=i_found, v_n=v_impact_n, E=E_impact_eV, cos=costheta_impact, th=nel_mp_th, flag_seg=flag_seg)
        self.args = {k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in a.items()}
        self.calls.append(self.args)
        n = len(nel_impact)
        own = np.repeat(np.arange(n), rng.randint(0, 3, n)) if self.emit_new else np.array([], int)
        m = len(own)
        nel = nel_impact * rng.uniform(.2, 1.5, n)
        self.rep = dict(nel=nel, x=x_impact.copy(), y=y_impact.copy(), z=z_impact.copy(), vx=rng.randn(n) * 1e6, vy=rng.randn(n) * 1e6,
                        vz=rng.randn(n) * 1e6, seg=None if i_found is None else np.array(i_found))
        self.new = dict(nel=nel[own], x=x_impact[own], y=y_impact[own], z=z_impact[own], vx=rng.randn(m) * 1e6, vy=rng.randn(m) * 1e6,
                        vz=rng.randn(m) * 1e6, seg=None if i_found is None else np.array(i_found)[own])
        self.tot = nel.copy()
        np.add.at(self.tot, own, nel[own])
        c = lambda d: [None if d[k] is None else d[k].copy() for k in KEYS]
        et = np.ones(n, int)
        return tuple([self.tot.copy(), et, {'extended_event_type': np.concatenate([et, np.ones(m, int)])}] + c(self.rep) + c(self.new))


def scene(rng, hits=True, lifetime=None, seg=None, sey=None, poly=None, frac=None, ncap=400):
    from PyECLOUD.impact_management_class import impact_management
    ch = ellip(rng) if not (rng.rand() < .5 if poly is None else poly) else polygon(rng)
    seg = (hasattr(ch, 'N_vert') and rng.rand() < .6) if seg is None else seg
    mp = mp_object(rng, ch, n_live=rng.randint(1, 50), lifetime=lifetime, n_max=ncap)
    n = mp.N_mp
    old = types.SimpleNamespace(x_mp=mp.x_mp[:n].copy(), y_mp=mp.y_mp[:n].copy(), z_mp=rng.randn(n))
    if mp.flag_lifetime_hist:
        mp.t_last_impact[:n] = np.where(rng.rand(n) < .5, -1, rng.rand(n))
    out = rng.rand(n) < (rng.choice([.2, .6, 1.]) if frac is None else frac) if hits else np.zeros(n, bool)
    if hits and not out.any():
        out[rng.randint(n)] = True
    xo, yo = outside(rng, ch, int(out.sum()))
    mp.x_mp[:n][out], mp.y_mp[:n][out] = xo, yo
    # the rest moves inside
    xi, yi = inside(rng, ch, int((~out).sum()))
    mp.x_mp[:n][~out], mp.y_mp[:n][~out] = xi, yi
    # fast particles point along their displacement
    dx, dy = mp.x_mp[:n] - old.x_mp, mp.y_mp[:n] - old.y_mp
    v = 10**rng.uniform(5.2, 7.3, n) / np.sqrt(dx**2 + dy**2 + 1e-30)
    mp.vx_mp[:n], mp.vy_mp[:n] = dx * v, dy * v
    mp.vz_mp[:n] = rng.randn(n) * 1e6
    # stale dead slots outside the chamber must not count as impacts
    mp.x_mp[n:] = 10.
    sey = sey or Sey(rng, ch, emit_new=rng.rand() < .8)
    flag_En_seg = bool(seg and rng.rand() < .5)
    cosang = rng.rand() < .8
    im = impact_management(ch, sey, ch.x_aper / rng.randint(3, 30), 10**rng.uniform(1, 3), rng.randint(5, 60), 10**rng.uniform(1.5, 3.5),
                           Nbin_lifetime_hist=rng.randint(3, 20), lifetime_hist_max=rng.uniform(.5, 2), flag_lifetime_hist=mp.flag_lifetime_hist,
                           flag_seg=seg, flag_En_hist_seg=flag_En_seg, cos_angle_width=rng.choice([.05, .1, .25]), flag_cos_angle_hist=cosang)
    return types.SimpleNamespace(ch=ch, mp=mp, old=old, im=im, sey=sey, out=out, seg=seg, En_seg=flag_En_seg, cosang=cosang, n=n, t=rng.uniform(1, 2))


def case_step(rng):
    s = scene(rng)
    mp, out, n = s.mp, s.out, s.n
    p = snap(mp)
    r = s.im.backtrack_and_second_emiss(s.old, mp, s.t)
    need(r is mp or r is None, 'a different object is returned')
    q = snap(mp)
    need(len(s.sey.calls) == 1, 'emission model called %d times' % len(s.sey.calls))
    A = s.sey.args
    need(len(A['nel']) == out.sum(), 'number of impacts differs from the number of particles outside')
    for a, k in (('nel_mp', 'nel'), ('vx_mp', 'vx'), ('vy_mp', 'vy'), ('vz_mp', 'vz')):
        need(eq(A[k], p[a][:n][out]), 'the impact %s given to the emission model is not that of the particles that hit' % k)
    need(A['th'] == mp.nel_mp_split, 'split size')
    need(A['mass'] == mp.mass, 'mass')
    need(bool(A['flag_seg']) == bool(s.seg), 'segment flag')
    E = .5 * mp.mass / QE * (A['vx']**2 + A['vy']**2 + A['vz']**2)
    need(close(A['E'], E, 1e-6), 'impact energy is not the kinetic energy')
    need(close(A['v_n'], A['vx'] * A['Nx'] + A['vy'] * A['Ny'], 1e-9, 1e-3), 'normal velocity')
    need(close(A['cos'], np.abs(A['v_n']) / np.sqrt(A['vx']**2 + A['vy']**2 + A['vz']**2), 1e-9), 'impact angle')
    # impact on the segment of that very particle
    for a, k in (('x_mp', 'x'), ('y_mp', 'y'), ('z_mp', 'z')):
        lo, hi = np.minimum(getattr(s.old, a)[out], p[a][:n][out]), np.maximum(getattr(s.old, a)[out], p[a][:n][out])
        sz = np.abs(hi - lo) + 1e-6
        need(s.ch.chamb_type != 'ellip' and k == 'z' or np.all((A[k] >= lo - 1e-6 * sz) & (A[k] <= hi + 1e-6 * sz)),
             'impact %s is not on the path of the particle that hit' % k)
    R_, N_ = s.sey.rep, s.sey.new
    m = len(N_['nel'])
    need(q['N_mp'] == n + m, 'N_mp after the step is not old + new')
    for a, k in AT:
        need(eq(q[a][:n][~out], p[a][:n][~out]), '%s of particles inside changed' % a)
        need(eq(q[a][:n][out], R_[k]), '%s of particles outside is not what the emission model returned for that impact' % a)
        need(eq(q[a][n:n + m], N_[k]), '%s of new macroparticles not appended in order' % a)
        need(eq(q[a][n + m:], p[a][n + m:]), '%s beyond N_mp changed' % a)
    tot = p['nel_mp'][:n].sum() - A['nel'].sum() + s.sey.tot.sum()
    need(close(q['nel_mp'][:q['N_mp']].sum(), tot, 1e-9, 1e-9 * p['nel_mp'].sum()), 'charge balance')
    if mp.flag_lifetime_hist:
        need(eq(q['t_last_impact'][:n], np.where(out, s.t, p['t_last_impact'][:n])), 'last impact times')
        need(np.all(q['t_last_impact'][n:n + m] == s.t), 'last impact time of new macroparticles')
    for k in KEYS:
        pass


def case_nothing(rng):
    s = scene(rng, hits=False)
    if rng.rand() < .3:
        s.mp.N_mp = 0
        s.mp.nel_mp[:] = 0
    p = snap(s.mp)
    H = {k: v.copy() for k, v in s.im.__dict__.items() if isinstance(v, np.ndarray)}
    # leave values of an earlier step behind
    s.im.Nel_impact_last_step = s.im.Nel_emit_last_step = s.im.En_imp_last_step_eV = s.im.En_emit_last_step_eV = 3.
    s.im.backtrack_and_second_emiss(s.old, s.mp, s.t)
    q = snap(s.mp)
    need(q['N_mp'] == p['N_mp'], 'N_mp changes although nothing hits')
    for a in p:
        need(eq(q[a], p[a]), '%s changes although nothing hits' % a)
    for k in H:
        need(eq(getattr(s.im, k), H[k]) or k == 'flag_impact', '%s changes although nothing hits' % k)
    need(not s.sey.calls, 'emission model called although nothing hits')
    need(s.im.Nel_impact_last_step == 0 and s.im.Nel_emit_last_step == 0 and s.im.En_imp_last_step_eV == 0 and s.im.En_emit_last_step_eV == 0,
         'diagnostics of a step without impacts are not zero')


def case_repeated(rng):
    """several steps with the real emission model: charge balance and untouched particles"""
    from PyECLOUD.sec_emission_model_ECLOUD import SEY_model_ECLOUD
    sey = SEY_model_ECLOUD(rng.uniform(200, 400), rng.uniform(1., 2.5), rng.uniform(0, .9), E_th=35., sigmafit=1.0828, mufit=1.6636,
                           switch_no_increase_energy=0, thresh_low_energy=-1, secondary_angle_distribution='cosine_3D')
    s = scene(rng, sey=sey, ncap=3000)
    mp, n, out = s.mp, s.n, s.out
    p = snap(mp)
    s.im.backtrack_and_second_emiss(s.old, mp, s.t)
    q = snap(mp)
    tot = p['nel_mp'][:n].sum() - s.im.Nel_impact_last_step + s.im.Nel_emit_last_step
    need(close(s.im.Nel_impact_last_step, p['nel_mp'][:n][out].sum(), 1e-9), 'impinging charge')
    need(close(q['nel_mp'][:q['N_mp']].sum(), tot, 1e-9, 1e-9 * p['nel_mp'].sum()), 'charge balance with the ECLOUD model')
    for a, k in AT:
        need(eq(q[a][:n][~out], p[a][:n][~out]), '%s of particles inside changed' % a)
    wf(mp)


CASES = {'step': case_step, 'nothing': case_nothing, 'repeated': case_repeated}
