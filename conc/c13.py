"""Replay of the diagnostics contract on the real code, with an independent reference for every histogram."""
import numpy as np
from conc.util import *
from conc import c01


def ref_hist(h, x, w, bias, D):
    n = len(h)
    for xi, wi in zip(x, w):
        f = (xi - bias) / D
        i = int(np.floor(f))
        need(i >= 0, 'bin index below the histogram')
        if i + 1 < n:
            h[i] += wi * (1 - (f - i))
            h[i + 1] += wi * (f - i)
        else:
            h[n - 1] += wi
    return h


def ref_seg(h, seg, w):
    np.add.at(h, seg, w)
    return h


HN = ['nel_impact_hist_tot', 'nel_impact_hist_scrub', 'energ_eV_impact_hist', 'En_hist_line', 'cos_angle_hist', 'lifetime_hist_line',
      'nel_hist_impact_seg', 'energ_eV_impact_seg', 'nel_hist_emit_seg']


def check(s, steps=1):
    im, mp, sey = s.im, s.mp, s.sey
    H = {k: getattr(im, k).copy() for k in HN if isinstance(getattr(im, k, None), np.ndarray)}
    L = [h.copy() for h in im.seg_En_hist_lines] if s.En_seg else None
    p = snap(mp)
    im.backtrack_and_second_emiss(s.old, mp, s.t)
    A, R_, N_ = sey.args, sey.rep, sey.new
    en = lambda d: .5 * mp.mass / QE * (d['vx']**2 + d['vy']**2 + d['vz']**2)
    out, n = s.out, s.n
    nel = p['nel_mp'][:n][out]
    Ei = .5 * mp.mass / QE * sum(p[v][:n][out]**2 for v in ('vx_mp', 'vy_mp', 'vz_mp'))
    Er, En = en(R_), en(N_)
    q = snap(mp)
    need(eq(q['x_mp'][:n][out], R_['x']), 'exit positions')
    cosi = np.abs(A['v_n']) / np.sqrt(A['vx']**2 + A['vy']**2 + A['vz']**2)
    tot = nel.sum()
    tol = dict(rtol=1e-8, atol=1e-8 * (tot * (1 + Ei.max())))
    need(close(im.Nel_impact_last_step, tot, 1e-9), 'impinging charge of the step')
    need(close(im.En_imp_last_step_eV, (nel * Ei).sum(), 1e-6), 'impinging energy of the step')
    need(close(im.Nel_emit_last_step, sey.tot.sum(), 1e-9), 'emitted charge of the step')
    need(close(im.En_emit_last_step_eV, (R_['nel'] * Er).sum() + (N_['nel'] * En).sum(), 1e-6), 'emitted energy of the step')
    b, D = np.min(im.xg_hist), s.Dx
    need(b <= -s.ch.x_aper and np.max(im.xg_hist) >= s.ch.x_aper, 'position grid does not cover the chamber')
    need(len(im.xg_hist) == len(im.nel_impact_hist_tot), 'grid and histogram differ in length')
    need(close(im.nel_impact_hist_tot, ref_hist(H['nel_impact_hist_tot'], A['x'], nel, b, D), **tol), 'impact position histogram')
    need(close(im.nel_impact_hist_scrub, ref_hist(H['nel_impact_hist_scrub'], A['x'], nel * (Ei > im.scrub_en_th), b, D), **tol), 'scrubbing histogram')
    h = ref_hist(H['energ_eV_impact_hist'], A['x'], nel * Ei, b, D)
    ref_hist(h, R_['x'], -R_['nel'] * Er, b, D)
    ref_hist(h, N_['x'], -N_['nel'] * En, b, D)
    tole = dict(rtol=1e-6, atol=1e-6 * (nel * Ei).sum() + 1e-6 * (R_['nel'] * Er).sum() + 1e-6 * (N_['nel'] * En).sum())
    need(close(im.energ_eV_impact_hist, h, **tole), 'deposited energy histogram')
    DE = s.Emax / (s.NbE - 1)
    need(close(im.En_hist_line, ref_hist(H['En_hist_line'], np.minimum(Ei, s.Emax), nel, 0., DE), rtol=1e-6, atol=1e-6 * tot), 'impact energy histogram')
    if s.cosang:
        need(close(im.cos_angle_hist, ref_hist(H['cos_angle_hist'], cosi, nel, 0., im.cos_angle_width), rtol=1e-6, atol=1e-6 * tot), 'angle histogram')
    if mp.flag_lifetime_hist:
        tl = p['t_last_impact'][:n][out]
        m = tl > 0
        Dt = s.ltmax / (s.Nlt - 1)
        need(close(im.lifetime_hist_line, ref_hist(H['lifetime_hist_line'], (s.t - tl)[m], nel[m], 0., Dt), rtol=1e-8, atol=1e-8 * tot), 'lifetime histogram')
        need(eq(q['t_last_impact'][:n], np.where(out, s.t, p['t_last_impact'][:n])), 'last impact times')
    if s.seg:
        sg = A['seg']
        need(np.all((sg >= 0) & (sg < s.ch.N_vert)), 'segment index out of range')
        need(close(im.nel_hist_impact_seg, ref_seg(H['nel_hist_impact_seg'], sg, nel), **tol), 'impact charge per segment')
        h = ref_seg(H['energ_eV_impact_seg'], sg, nel * Ei)
        ref_seg(h, R_['seg'], -R_['nel'] * Er)
        ref_seg(h, N_['seg'], -N_['nel'] * En)
        need(close(im.energ_eV_impact_seg, h, **tole), 'energy per segment')
        h = ref_seg(H['nel_hist_emit_seg'], R_['seg'], R_['nel'])
        ref_seg(h, N_['seg'], N_['nel'])
        need(close(im.nel_hist_emit_seg, h, **tol), 'emitted charge per segment')
        if s.En_seg:
            for i in range(s.ch.N_vert):
                m = sg == i
                need(close(im.seg_En_hist_lines[i], ref_hist(L[i], np.minimum(Ei, s.Emax)[m], nel[m], 0., DE), rtol=1e-6, atol=1e-6 * tot),
                     'energy histogram of a wall segment')
    return A


def mk(rng, **k):
    s = c01.scene(rng, **k)
    im = s.im
    s.Dx, s.Emax, s.NbE = im.Dx_hist, im.En_hist_max, len(im.En_hist_line)
    if s.mp.flag_lifetime_hist:
        s.ltmax, s.Nlt = im.lifetime_hist_max, len(im.lifetime_hist_line)
    return s


def case_diag(rng):
    check(mk(rng))


def case_accumulate(rng):
    """histograms accumulate over steps and resets clear exactly one of them"""
    s = mk(rng)
    check(s)
    mp = s.mp
    n = int(mp.N_mp)
    # next step: everybody back inside, then some leave again
    x, y = inside(rng, s.ch, n)
    s.old.x_mp, s.old.y_mp, s.old.z_mp = x.copy(), y.copy(), rng.randn(n)
    s.n = n
    s.out = rng.rand(n) < .5
    s.out[rng.randint(n)] = True
    mp.x_mp[:n], mp.y_mp[:n] = x, y
    mp.x_mp[:n][s.out], mp.y_mp[:n][s.out] = outside(rng, s.ch, int(s.out.sum()))
    s.t += .3
    names = {'nel_impact_hist_tot': 'reset_impact_hist_tot', 'nel_impact_hist_scrub': 'reset_impact_hist_scrub',
             'energ_eV_impact_hist': 'reset_energ_eV_impact_hist', 'En_hist_line': 'reset_En_hist_line'}
    if s.cosang:
        names['cos_angle_hist'] = 'reset_cos_angle_hist'
    if s.seg:
        names.update(nel_hist_impact_seg='reset_hist_impact_seg', nel_hist_emit_seg='reset_hist_emit_seg', energ_eV_impact_seg='reset_energ_impact_seg')
    if mp.flag_lifetime_hist:
        names['lifetime_hist_line'] = 'reset_lifetime_hist_line'
    k = list(names)[rng.randint(len(names))]
    before = {a: getattr(s.im, a).copy() for a in names}
    getattr(s.im, names[k])()
    for a in names:
        need(eq(getattr(s.im, a), before[a] * (0. if a == k else 1.)), '%s changes %s' % (names[k], a))
    check(s)


CASES = {'diag': case_diag, 'accumulate': case_accumulate, 'nothing': c01.case_nothing}
