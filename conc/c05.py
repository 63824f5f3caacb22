"""Replay of the yield contract."""
from conc.emis import *


def outcome(m, v, seg=False):
    nel, el, ts = m.obj.SEY_process(v.nel, v.E, v.cos, v.g if seg else None)
    el, ts = np.asarray(el).astype(bool), np.asarray(ts).astype(bool)
    need(len(nel) == len(el) == len(ts) == v.n, 'one outcome per impact')
    need(np.all(el ^ ts), 'an impact is not classified either elastic or true secondary')
    need(np.all(nel >= 0), 'negative emitted charge')
    return nel, el, ts


def case_yield(rng):
    name = (UNI + SEG[:1])[rng.randint(len(UNI) + 1)]
    m = model(rng, name)
    v = impacts(rng, m, rng.randint(1, 120))
    if name in ('ECLOUD', 'ECLOUD_nunif'):
        v.E[rng.rand(v.n) < .1] = 0.
    if name == 'flat_low_ene' and rng.rand() < .3:
        v.E[:3] = m.p['Emax']
    keep = [a.copy() for a in (v.nel, v.E, v.cos)]
    nel, el, ts = outcome(m, v, name in SEG)
    need(all(eq(a, b) for a, b in zip(keep, (v.nel, v.E, v.cos))), 'the impacts are modified')
    t, f = m.law(v.E, v.cos, v.g)
    y = nel / v.nel
    if name == 'ACC_LOW':
        need(close(y[el], np.ones(el.sum()), 1e-12), 'elastic impact does not keep its charge')
        need(close(y[ts], (t / (1 - f))[ts], 1e-7, 1e-12), 'true secondary yield')
    else:
        need(close(y, t + f, 1e-7, 1e-9), 'yield is not the documented formula (%s)' % name)


def case_fraction(rng):
    """elastic with the documented probability (6 standard deviations)"""
    name = (UNI + SEG[:1])[rng.randint(len(UNI) + 1)]
    m = model(rng, name)
    v = impacts(rng, m, 1)
    N = 4000
    E, c = v.E[0] if rng.rand() < .5 else 10**rng.uniform(-1, 1.5), v.cos[0]
    E = max(E, m.emin * 1.000001 + 1e-9)
    g = None if v.g is None else np.full(N, v.g[0])
    w = types.SimpleNamespace(n=N, nel=np.ones(N), E=np.full(N, E), cos=np.full(N, c), g=g)
    nel, el, ts = outcome(m, w, name in SEG)
    t, f = [np.atleast_1d(a)[0] for a in m.law(w.E, w.cos, g)]
    p = f if name == 'ACC_LOW' else (f / (t + f) if t + f > 0 else 0.)
    need(abs(el.sum() - N * p) <= 6 * np.sqrt(N * p * (1 - p)) + 8, 'elastic fraction %g instead of %g (%s)' % (el.mean(), p, name))
    # independent events: no long runs
    if .2 < p < .8:
        r = np.mean(el[1:] == el[:-1])
        q = p * p + (1 - p)**2
        need(abs(r - q) < .08, 'events are not drawn independently')


def case_file_mat(rng):
    """the shipped table, against numpy interpolation"""
    import os
    import scipy.io as sio
    import PyECLOUD.sec_emission_model_from_file as S
    d = os.path.join(os.path.dirname(S.__file__), 'sey_files')
    fs = []
    for root, _, names in os.walk(d):
        fs += [os.path.relpath(os.path.join(root, q), d) for q in names if q.endswith('.mat')]
    if not fs:
        raise Skip()
    fn = sorted(fs)[rng.randint(len(fs))]
    sc, sh = bool(rng.randint(2)), bool(rng.randint(2))
    o = S.SEY_model_from_file(fn, sc, sh, 35., 1., 1.6, 0, 1., 'cosine_3D')
    T = {k: np.squeeze(a) for k, a in sio.loadmat(os.path.join(d, fn)).items() if k[0] != '_'}
    n = 50
    en = T['energy_eV']
    c = rng.rand(n)
    E = np.maximum(10**rng.uniform(-1, 3.7, n), en.min() * 2 + 1e-6)
    nel, el, ts = o.SEY_process(np.ones(n), E, c, None)
    Es = E / (1 + .7 * (1 - c)) if sh else E
    f = lambda e, k: np.where(e > en.max(), float(T['extrapolate_const_' + k]) + float(T['extrapolate_grad_' + k]) * e, np.interp(e, en, T['sey_' + k]))
    want = np.maximum(f(Es, 'true') * (np.exp(.5 * (1 - c)) if sc else 1), 0) + np.maximum(f(E, 'elast'), 0)
    need(close(nel, want, 1e-6, 1e-8), 'yield of the shipped table')


def case_uneven_table(rng):
    from PyECLOUD.sec_emission_model_from_file import SEY_model_from_file as M
    e = np.arange(10.)
    e[rng.randint(1, 9)] += .3
    A = np.array
    tb = dict(energy_eV=e, sey_true=np.ones(10), sey_elast=np.ones(10), extrapolate_grad_true=A([0.]), extrapolate_const_true=A([0.]),
              extrapolate_grad_elast=A([0.]), extrapolate_const_elast=A([0.]))
    try:
        M(tb, True, True, 35., 1., 1.6, 0, 1., 'cosine_3D')
    except ValueError:
        return
    need(False, 'a table that is not equally spaced is accepted')


CASES = {k[5:]: f for k, f in list(globals().items()) if k.startswith('case_')}
