"""Replay of the emission energy / direction contract."""
from conc.emis import *
from conc import c02


def speeds(m, r, k):
    return .5 * m / QE * (getattr(r, 'vx_' + k)**2 + getattr(r, 'vy_' + k)**2 + getattr(r, 'vz_' + k)**2)


def case_models(rng):
    name = (UNI + SEG)[rng.randint(len(UNI + SEG))]
    m, v, seg, r = c02.run(rng, name, switch=rng.choice([0, 2]))
    k = owners(v, r)
    ts = np.asarray(r.ev).astype(bool)
    need(np.all(elastic_flags(v, r)[~ts]), 'an elastic electron is not reflected specularly')
    e = np.sqrt(v.vx**2 + v.vy**2 + v.vz**2)
    for o, kk, sel in (('r', np.arange(v.n), ts), ('n', k, np.ones(len(k), bool))):
        vn = getattr(r, 'vx_' + o) * v.nx[kk] + getattr(r, 'vy_' + o) * v.ny[kk]
        sp = np.sqrt(getattr(r, 'vx_' + o)**2 + getattr(r, 'vy_' + o)**2 + getattr(r, 'vz_' + o)**2)
        need(np.all(vn[sel] >= -1e-12 * sp[sel]), 'a secondary electron is emitted into the wall')
        En = speeds(v.mass, r, o)
        low = v.E[kk] < m.k['thresh_low_energy'] if m.k['switch_no_increase_energy'] == 2 else np.zeros(len(kk), bool)
        cut = np.minimum(v.E[kk], m.k['E_th']) if m.k['switch_no_increase_energy'] == 2 else np.full(len(kk), m.k['E_th'])
        cut = np.where(low, v.E[kk], cut)
        need(np.all(En[sel] <= cut[sel] * (1 + 1e-9)), 'a secondary electron has more energy than the configured cut')


def case_energy(rng):
    from PyECLOUD.electron_emission import sec_energy_hilleret_model2 as f
    n, sw = rng.randint(1, 200), rng.choice([0, 2])
    E, th, thr = 10**rng.uniform(-1, 3, n), rng.uniform(3, 50), rng.choice([1., 2., 10., 30.])
    e0 = E.copy()
    s, mu = rng.uniform(.9, 1.4), rng.uniform(.2, 1.8)
    r = f(sw, n, s, mu, th, E, thr)
    need(eq(E, e0), 'the impact energies are modified')
    need(r.shape == (n,) and np.all(r >= 0), 'one non-negative energy per emission')
    cut = np.full(n, th) if sw == 0 else np.where(E < thr, E, np.minimum(E, th))
    need(np.all(r <= cut * (1 + 1e-12)), 'energy above the configured cut')


def case_angles(rng):
    from PyECLOUD.electron_emission import get_angle_dist_func
    nm = ['cosine_3D', 'normal_emission'][rng.randint(2)]
    f = get_angle_dist_func(nm)
    n, th = rng.randint(0, 200), None
    th = rng.uniform(0, 2 * np.pi, n)
    nx, ny = np.cos(th), np.sin(th)
    E = 10**rng.uniform(-2, 3, n)
    E[rng.rand(n) < .05] = 0.
    mass = rng.choice([ME, 1.67e-27])
    vx, vy, vz = f(n, E.copy(), nx.copy(), ny.copy(), mass)
    need(close(.5 * mass / QE * (vx**2 + vy**2 + vz**2), E, 1e-9), 'speed does not correspond to the drawn energy')
    vn = vx * nx + vy * ny
    need(np.all(vn >= -1e-9 * np.sqrt(2 * QE / mass * E)), 'emitted into the wall')
    if nm == 'normal_emission':
        need(close(vn, np.sqrt(2 * QE / mass * E), 1e-9), 'normal emission is not along the normal')


def case_angles2d(rng):
    from PyECLOUD import electron_emission as ee
    n = rng.randint(1, 200)
    th = rng.uniform(0, 2 * np.pi, n)
    E = 10**rng.uniform(-2, 3, n)
    vx, vy, vz = ee.velocities_angle_cosine_2D(n, E, np.cos(th), np.sin(th), ME)
    need(close(.5 * ME / QE * (vx**2 + vy**2 + vz**2), E, 1e-9), 'speed does not correspond to the drawn energy')
    need(np.all(vx * np.cos(th) + vy * np.sin(th) >= -1e-9 * np.sqrt(2 * QE / ME * E)), 'emitted into the wall')


def case_specular(rng):
    from PyECLOUD.electron_emission import specular_velocity
    n = rng.randint(0, 100)
    th = rng.uniform(0, 2 * np.pi, n)
    nx, ny = np.cos(th), np.sin(th)
    vx, vy = rng.randn(n) * 1e6, rng.randn(n) * 1e6
    vn = vx * nx + vy * ny
    x, y = specular_velocity(vx, vy, nx, ny, vn)
    need(close(x * nx + y * ny, -vn, 1e-9, 1e-3), 'normal component not reversed')
    need(close(-x * ny + y * nx, -vx * ny + vy * nx, 1e-9, 1e-3), 'tangential velocity changed')


CASES = {k[5:]: f for k, f in list(globals().items()) if k.startswith('case_')}
