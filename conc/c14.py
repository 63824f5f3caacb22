import math
import os
import shutil
import tempfile
import types
import numpy as np
from conc.util import *

NATIVES = ['int_field_for', 'hist_for']
CL = 299792458.


def field_map(rng, d):
    import scipy.io as sio
    nx, ny = rng.randint(4, 9), rng.randint(4, 9)
    xx, yy = np.linspace(-.06, .05, nx), np.linspace(-.05, .07, ny)
    Ex, Ey = rng.randn(nx, ny), rng.randn(nx, ny)
    f = os.path.join(d, 'field.mat')
    sio.savemat(f, {'Ex': Ex, 'Ey': Ey, 'xx': xx, 'yy': yy}, oned_as='row')
    return f, xx, yy, Ex, Ey


def pattern(rng):
    nb = rng.randint(1, 8)
    p = rng.uniform(.5, 2, nb) * 1e11 * (rng.rand(nb) < .7)
    if rng.rand() < .3:
        p[:] = 0
        p[rng.randint(nb)] = 1e11
    return p


def params(rng):
    b = 10**rng.uniform(-9, -7.3)
    sz = 10**rng.uniform(-2.5, -.7) * b * CL
    return b, sz, rng.uniform(0, 1.5) * b


def profile(t, p, sz, b, off):
    lam = 0. * t
    for j in range(len(p)):
        s = sz[j]
        if s > 0:
            d = CL * (t - off - j * b)
            lam += np.where(np.abs(d) < 10 * s, p[j] / (s * math.sqrt(2 * math.pi)) * np.exp(-d * d / (2 * s * s)), 0.)
    return lam


def build(rng, d, mode, **kw):
    import scipy.io as sio
    from PyECLOUD import beam_and_timing as bt
    fm = field_map(rng, d)
    b, sz, off = params(rng)
    p = pattern(rng)
    Dt = b / rng.uniform(20, 60)
    tend = rng.uniform(0, 2) * b
    fact, coast = (1., 0.) if rng.rand() < .4 else (rng.uniform(.3, 2), rng.uniform(0, 1e9))
    q = rng.choice([1., -1.]) * QE
    szv = sz * (p > 0)
    a = dict(b_spac=b, sigmaz=sz, t_offs=off, filling_pattern_file=list(p), Dt=Dt, t_end=tend, chamb=ellip(rng), sigmax=1e-3, sigmay=1e-3)
    if mode == 'mat':
        f = os.path.join(d, 'fill.mat')
        szv = sz * rng.uniform(.5, 2, len(p)) * (p > 0)
        m = {'ppb_vect': p}
        if len(p) > 1:
            m['sigmaz_vect'] = szv
        else:
            szv = sz * (p > 0)
        if len(p) > 1 and rng.rand() < .4:
            del m['sigmaz_vect']
            szv = sz * (p > 0)
        sio.savemat(f, m, oned_as='row')
        if len(p) == 1:
            f = [p[0]]
        a['filling_pattern_file'] = f
    a.update(kw)
    o = bt.beam_and_timing(True, fact, coast, q, fm[0], rng.uniform(0, 1e9), **a)
    return o, fm, dict(b=b, sz=szv, off=off, p=p, Dt=Dt, tend=tend, fact=fact, coast=coast, q=q)


def scratch(f):
    def g(rng):
        d = tempfile.mkdtemp(prefix='pvbeam')
        try:
            f(rng, d)
        finally:
            shutil.rmtree(d)
    return g


def check_profile(o, P, t, what):
    need(len(o.t) == len(o.lam_t_array) == o.Nt, '%s: number of samples' % what, 'samples')
    ref = P['fact'] * profile(t, P['p'], P['sz'], P['b'], P['off']) + P['coast']
    pk = np.abs(P['fact'] * profile(t, P['p'], P['sz'], P['b'], P['off'])).max() + 1e-300
    need(np.all(np.abs(o.lam_t_array - ref) <= 1e-9 * pk + 1e-12 * abs(P['coast'])), '%s: beam density is not the sum of the configured bunches' % what, 'profile')


@scratch
def case_pattern(rng, d):
    o, fm, P = build(rng, d, rng.choice(['list', 'mat']))
    t = np.asarray(o.t)
    need(abs(t[0]) < 1e-20 and np.all(np.abs(np.diff(t) - P['Dt']) < 1e-6 * P['Dt']), 'time axis does not advance by the configured step', 'time')
    tot = len(P['p']) * P['b'] + P['tend']
    need(tot <= t[-1] + P['Dt'] * (1 + 1e-6) and t[-1] < tot + 3 * P['Dt'], 'time axis does not cover the bunch train and the tail', 'time')
    check_profile(o, P, t, 'bunch train')
    # bunch populations: bunches apart from each other and well sampled within the time axis
    sz = P['sz'].max()
    for j in np.flatnonzero(P['p'] > 0):
        s = P['sz'][j]
        tj = P['off'] + j * P['b']
        if sz * 12 < CL * P['b'] and CL * P['Dt'] < s and tj > 10 * s / CL and tj + 10 * s / CL < t[-1]:
            m = np.abs(t - tj) < P['b'] / 2
            n = ((o.lam_t_array[m] - P['coast']).sum() * P['Dt'] * CL)
            need(abs(n - P['fact'] * P['p'][j]) < 1e-2 * P['fact'] * P['p'][j], 'bunch does not integrate to its population', 'population')
    need(o.N_pass_tot == int(np.ceil(t[-1] / P['b'])), 'total number of passages', 'passages')
    walk(o, rng)


def walk(o, rng):
    t, lam = np.asarray(o.t).copy(), np.asarray(o.lam_t_array).copy()
    seen, n = [], 0
    last = -1
    while not o.end_simulation():
        need(n + 1 < len(t), 'simulation runs past the end of the profile', 'end')
        try:
            o.next_time_step()
        except IndexError:
            need(False, 'simulation runs past the end of the profile', 'end')
        need(o.tt_curr == t[n] and o.lam_t_curr == lam[n], 'step does not read the profile sample of its own time', 'sample')
        need(abs(o.Dt_curr - (t[n + 1] - t[n])) <= 1e-12 * abs(t[n + 1]), 'length of the step', 'step')
        p = int(np.floor(t[n] / o.b_spac))
        need(o.pass_numb == p, 'passage number', 'passage')
        need(bool(o.flag_new_bunch_pass) == (p > last), 'bunch passage not signalled exactly once', 'signal')
        last = max(last, p)
        n += 1
    need(n == len(t) - 1, 'simulation ends %d steps before the end of the profile' % (len(t) - 1 - n), 'end')
    need(np.array_equal(t, o.t) and np.array_equal(lam, o.lam_t_array), 'stepping changes the profile', 'profile')


@scratch
def case_file(rng, d):
    import scipy.io as sio
    from PyECLOUD import beam_and_timing as bt
    fm = field_map(rng, d)
    n = rng.randint(4, 60)
    b = 10**rng.uniform(-9, -7.3)
    uni = rng.rand() < .5
    dt = np.ones(n) if uni else rng.uniform(.2, 2., n)
    t = np.concatenate([[0.], np.cumsum(dt)]) * b * rng.uniform(.02, .6)
    if rng.rand() < .3:
        t += rng.uniform(0, 2) * b
    lam = rng.rand(n + 1) * 1e11
    f = os.path.join(d, 'prof.mat')
    sio.savemat(f, {'t': t, 'lam_t_array': lam}, oned_as='row')
    fact, coast, Dt = rng.uniform(.3, 2), rng.choice([0., 1e9]), b / 17.
    o = bt.beam_and_timing(False, fact, coast, QE, fm[0], 0., b_spac=b, Dt=Dt, beam_long_prof_file=f, chamb=ellip(rng), sigmax=1e-3, sigmay=1e-3)
    need(len(o.t) == n + 1 and np.allclose(o.t, t, rtol=1e-12, atol=0), 'time axis of the file not used', 'time')
    need(np.allclose(o.lam_t_array, fact * lam + coast, rtol=1e-12), 'profile of the file not used', 'profile')
    if uni:
        need(abs(o.Dt - (t[1] - t[0])) < 1e-9 * o.Dt, 'time step of the file not used', 'step')
    else:
        need(o.Dt == Dt, 'reference time step lost', 'step')
    walk(o, rng)


@scratch
def case_secondary(rng, d):
    import scipy.io as sio
    from PyECLOUD import beam_and_timing as bt
    o, fm, P = build(rng, d, 'list')
    o2, fm2, P2 = build(rng, d, 'list', flag_secodary_beam=True, t_primary_beam=o.t)
    need(np.array_equal(o2.t, o.t), 'secondary beam does not use the time axis of the main beam', 'time')
    check_profile(o2, P2, np.asarray(o.t), 'secondary beam')
    k = rng.randint(2)
    t = np.asarray(o.t)[:len(o.t) - k] + (0 if k else P['Dt'] * .1)
    f = os.path.join(d, 'prof.mat')
    sio.savemat(f, {'t': t, 'lam_t_array': np.ones(len(t))}, oned_as='row')
    bad = False
    try:
        bt.beam_and_timing(False, 1., 0., QE, fm[0], 0., b_spac=P['b'], Dt=P['Dt'], beam_long_prof_file=f, chamb=ellip(rng), sigmax=1e-3, sigmay=1e-3,
                           flag_secodary_beam=True, t_primary_beam=np.asarray(o.t))
    except ValueError:
        bad = True
    need(bad, 'secondary beam with another time axis accepted', 'axis')


@scratch
def case_field(rng, d):
    o, (f, xx, yy, Ex, Ey), P = build(rng, d, 'list')
    ch = ellip(rng)
    n = rng.randint(0, 12)
    mp = mp_object(rng, ch, n_live=n, n_max=n + rng.randint(1, 9))
    for _ in range(rng.randint(1, len(o.t) - 1)):
        o.next_time_step()
    if rng.rand() < .5:
        o.lam_th_beam_field = o.lam_t_curr * rng.choice([.5, 1., 2.])
    ex, ey = o.get_beam_eletric_field(mp)
    s = o.lam_t_curr * P['q'] if o.lam_t_curr > o.lam_th_beam_field else 0.
    dx, dy = xx[1] - xx[0], yy[1] - yy[0]
    for k in range(n):
        x, y = mp.x_mp[k], mp.y_mp[k]
        u, v = (x - xx[0]) / dx, (y - yy[0]) / dy
        i, j = int(math.floor(u)), int(math.floor(v))
        for e, m in ((ex, Ex), (ey, Ey)):
            g = np.broadcast_to(np.asarray(e, float), (n,))[k]
            r = 0.
            if 0 <= i < len(xx) - 1 and 0 <= j < len(yy) - 1:
                hx, hy = u - i, v - j
                r = m[i, j] * (1 - hx) * (1 - hy) + m[i + 1, j] * hx * (1 - hy) + m[i, j + 1] * (1 - hx) * hy + m[i + 1, j + 1] * hx * hy
            need(abs(g - s * r) <= 1e-8 * abs(s) * np.abs(m).max(), 'beam field at a macroparticle is not the interpolated map times the line density', 'field')


@scratch
def case_outside(rng, d):
    bad = False
    try:
        build(rng, d, 'list', x_beam_pos=rng.choice([-1., 1.]))
    except ValueError:
        bad = True
    need(bad, 'beam outside the chamber accepted', 'outside')


CASES = {k[5:]: f for k, f in list(globals().items()) if k.startswith('case_')}
