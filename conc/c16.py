import numpy as np
from scipy.constants import epsilon_0, mu_0, c as CLIGHT
from conc.util import *
from conc import simcfg
from conc.c15 import still, state, VAX

NATIVES = None


def deposit(pic, x, y, w):
    """bilinear deposit on the grid: charge density"""
    r = np.zeros((pic.Nxg, pic.Nyg))
    u, v = (x - pic.bias_x) / pic.Dh, (y - pic.bias_y) / pic.Dh
    i, j = np.floor(u).astype(int), np.floor(v).astype(int)
    hx, hy = u - i, v - j
    for a, b, f in ((0, 0, (1 - hx) * (1 - hy)), (1, 0, hx * (1 - hy)), (0, 1, (1 - hx) * hy), (1, 1, hx * hy)):
        np.add.at(r, (i + a, j + b), w * f)
    return r / pic.Dh**2


def interp(pic, f, x, y):
    u, v = (x - pic.bias_x) / pic.Dh, (y - pic.bias_y) / pic.Dh
    i, j = np.floor(u).astype(int), np.floor(v).astype(int)
    hx, hy = u - i, v - j
    return f[i, j] * (1 - hx) * (1 - hy) + f[i + 1, j] * hx * (1 - hy) + f[i, j + 1] * (1 - hx) * hy + f[i + 1, j + 1] * hx * hy


def near(a, b, scale, tol=1e-9):
    return np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a) - b) <= tol * (scale + 1e-300)))


def reference(s, rho):
    """potential and field of a charge density in the chamber (PyPIC on its own)"""
    import PyPIC.FiniteDifferences_ShortleyWeller_SquareGrid as P
    if not hasattr(s, 'ref_pic'):
        s.ref_pic = P.FiniteDifferences_ShortleyWeller_SquareGrid(chamb=s.chamb, Dh=s.spacech_ele.PyPICobj.Dh, sparse_solver='scipy_slu')
    with simcfg.quiet():
        s.ref_pic.solve(rho=rho)
    return s.ref_pic.phi.copy(), s.ref_pic.efx.copy(), s.ref_pic.efy.copy()


def setup_sim(rng, d, em):
    ncl = rng.randint(1, 4)
    Dt = 10**rng.uniform(-11, -10)
    k = int(rng.randint(1, 4))
    m = dict(track_method='BorisMultipole', B_multip=[0., 0.], N_sub_steps=k, B=0.) if em or rng.rand() < .5 else dict(track_method='Boris', N_sub_steps=k, B0x=0., B0y=0., B0z=0.)
    cl = [dict(simcfg.ION, N_sub_steps=int(rng.randint(1, 4)), cloud_charge=QE * rng.randint(1, 4), cloud_mass=10**rng.uniform(-29, -25)) for _ in range(ncl - 1)]
    s = simcfg.build(d, machine=m, sim=dict(Dt=Dt, Dt_sc=Dt * rng.uniform(.5, 3.2), t_sc_ON=0. if em else float(rng.uniform(-1, 2) * Dt), lam_th=1e30, Dh_sc=2e-3, flag_em_tracking=em,
                                            N_mp_soft_regen=None, N_mp_after_soft_regen=None),
                     beam=dict(b_spac=8 * Dt, sigmaz=Dt * 3e8, t_offs=2 * Dt, filling_pattern_file=[1., 0.], x_beam_pos=0.), clouds=cl)
    for c in s.cloud_list:
        still(rng, c, Dt, 30, n=rng.choice([0, 1, rng.randint(2, 40)]))
        n = c.MP_e.N_mp
        c.MP_e.nel_mp[:n] = 10**rng.uniform(0, 3, n)
        # stale coordinates of dead slots
        c.MP_e.x_mp[n:], c.MP_e.y_mp[n:] = 1e-3, 2e-3
    return s, Dt


def total(s, rng):
    """replace some of the macroparticles between steps: the container changes size"""
    for c in s.cloud_list:
        if rng.rand() < .2:
            still(rng, c, s.beamtim.t[1] - s.beamtim.t[0], 30, n=rng.choice([0, 3, 11]))


@simcfg.scratch
def case_density(rng, d):
    s, Dt = setup_sim(rng, d, False)
    b, sc = s.beamtim, s.spacech_ele
    pic = sc.PyPICobj
    fld = None
    for i in range(min(len(b.t) - 1, 9)):
        pre = [state(c) for c in s.cloud_list]
        rho0 = np.array(sc.rho)
        with simcfg.quiet():
            b.next_time_step()
            # fields of the solution held now, at the macroparticles
            for c in s.cloud_list:
                n = int(c.MP_e.N_mp)
                ex, ey = sc.get_sc_eletric_field(c.MP_e)
                for e, f in ((ex, pic.efx), (ey, pic.efy)):
                    need(near(np.broadcast_to(np.asarray(e, float), (n,)), interp(pic, f, c.MP_e.x_mp[:n], c.MP_e.y_mp[:n]), np.abs(f).max(), 1e-8), 'field at a macroparticle is not the interpolation of the solution', 'gather')
            s.sim_time_step(skip_MP_cleaning=True, skip_MP_regen=True)
        T = b.t[i + 1] - b.t[i]
        done = sc.last_recomputation_check and b.tt_curr > s.t_sc_ON
        for k, c in enumerate(s.cloud_list):
            mp, o = c.MP_e, pre[k]
            n = len(o['x_mp'])
            if n and fld is not None and not s.flag_reinterp_fields_at_substeps:
                for a, f in (('x', fld[1]), ('y', fld[2])):
                    e = interp(pic, f, o['x_mp'], o['y_mp'])
                    dv = mp.charge / mp.mass * e * T
                    got = getattr(mp, 'v%s_mp' % a)[:n] - o['v%s_mp' % a]
                    need(mp.N_mp == n and np.all(np.abs(got - dv) <= 1e-6 * np.abs(dv).max() + 1e-9 * np.abs(o['v%s_mp' % a]).max()),
                         'cloud %d of %d is not accelerated by the field of all clouds' % (k, len(s.cloud_list)), 'feel')
        if done:
            each = [deposit(pic, c.MP_e.x_mp[:c.MP_e.N_mp], c.MP_e.y_mp[:c.MP_e.N_mp], c.MP_e.charge * c.MP_e.nel_mp[:c.MP_e.N_mp]) for c in s.cloud_list]
            ref = sum(each)
            scale = max(np.abs(e).max() for e in each)
            need(near(sc.rho, ref, scale), 'density with %s macroparticles is not the sum over the clouds: total charge %g, expected %g' % (
                [int(c.MP_e.N_mp) for c in s.cloud_list], sc.rho.sum(), ref.sum()), 'sum')
            for k, c in enumerate(s.cloud_list):
                need(near(c.rho, each[k], scale), 'density of cloud %d' % k, 'own')
            fld = reference(s, ref)
            for g, f in ((sc.phi, fld[0]), (sc.efx, fld[1]), (sc.efy, fld[2])):
                need(near(g, f, np.abs(f).max(), 1e-8), 'solution is not the field of the total density', 'solve')
        else:
            need(eq(sc.rho, rho0), 'density changes without recomputation', 'held')
        total(s, rng)


@simcfg.scratch
def case_em(rng, d):
    s, Dt = setup_sim(rng, d, True)
    b, sc = s.beamtim, s.spacech_ele
    pic = sc.PyPICobj
    Aold, A = None, [np.zeros_like(pic.phi)] * 2
    phi, efx, efy = pic.phi.copy() if pic.phi is not None else None, None, None
    gx = None
    for i in range(min(len(b.t) - 1, 7)):
        with simcfg.quiet():
            b.next_time_step()
            s.sim_time_step(skip_MP_cleaning=True, skip_MP_regen=True)
        if not (sc.last_recomputation_check and b.tt_curr > s.t_sc_ON):
            continue
        MP = [c.MP_e for c in s.cloud_list]
        dep = lambda w: sum(deposit(pic, m.x_mp[:m.N_mp], m.y_mp[:m.N_mp], m.charge * w(m)[:m.N_mp]) for m in MP)
        rho = dep(lambda m: m.nel_mp)
        need(near(sc.rho, rho, np.abs(rho).max()), 'charge density is not the sum over the clouds', 'sum')
        phi, efx, efy = reference(s, rho)
        Aold = A
        A, G = [], []
        for a in ('vx_mp', 'vy_mp'):
            p, ex, ey = reference(s, dep(lambda m: epsilon_0 * mu_0 * m.nel_mp * getattr(m, a)))
            A.append(p)
            G.append((ex, ey))
        for m in MP:
            n = int(m.N_mp)
            if not n:
                continue
            x, y = m.x_mp[:n], m.y_mp[:n]
            with simcfg.quiet():
                got = sc.get_sc_em_field(m)
            dt = [interp(pic, (A[j] - Aold[j]) / sc.Dt_sc, x, y) for j in (0, 1)]
            bg = sc.beta * CLIGHT
            bz1, bz2 = interp(pic, -G[1][0], x, y), interp(pic, G[0][1], x, y)
            ref = [interp(pic, efx, x, y) - dt[0], interp(pic, efy, x, y) - dt[1], dt[1] / bg, -dt[0] / bg, bz1 + bz2]
            sE = max(np.abs(efx).max(), np.abs(efy).max(), np.abs(dt).max())
            sB = max(np.abs(dt).max() / bg, np.abs(G).max())
            for nm, g, r, scale in zip(('Ex', 'Ey', 'Bx', 'By', 'Bz'), got, ref, (sE, sE, sB, sB, sB)):
                need(near(np.broadcast_to(g, (n,)), r, scale, 1e-7), '%s at the macroparticles is not that of the charges and currents of all clouds' % nm, nm)
        total(s, rng)


CASES = {k[5:]: f for k, f in list(globals().items()) if k.startswith('case_')}
