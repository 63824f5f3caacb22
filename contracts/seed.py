"""Contracts of the particle sources."""
from .common import *
from .mp import live_attrs, wf_post

from scipy.constants import e as QE, c as CL


class Room(AbstractChamber):
    """chamber with the contract of impact_point_and_normal used by the sources"""
    def __init__(self):
        AbstractChamber.__init__(self)
        self.balls = []

    def outz(self, x, y):
        o = AbstractChamber.outz(self, x, y)
        c = E.CTX
        for k, (x0, r2) in enumerate(self.balls):
            c.fact_once(('ball', k, x, y), lambda: [z3.Implies((x - x0) * (x - x0) + y * y >= r2, o)])
        return o

    def impact_point_and_normal(self, x_in, y_in, z_in, x_out, y_out, z_out, resc_fac=None, **k):
        c = E.CTX
        xi, yi, xo, yo = x_in.snap(), y_in.snap(), x_out.snap(), y_out.snap()
        n = x_in.n
        c.prove_forall('photon tracks start inside', n, lambda i: z3.Not(self.outz(xi(i), yi(i))))
        c.prove_forall('photon tracks end outside', n, lambda i: self.outz(xo(i), yo(i)))
        X, Y, NX, NY = [E.fresh_arr(a, (n,), 'r') for a in ('px', 'py', 'pnx', 'pny')]
        sx, sy, nx, ny = X.snap(), Y.snap(), NX.snap(), NY.snap()
        nz = Z(n)
        c.instantiators.append(lambda i: z3.Implies(z3.And(i >= 0, i < nz), z3.And(z3.Not(self.outz(sx(i), sy(i))),
                                                                                  nx(i) * nx(i) + ny(i) * ny(i) == 1)))
        self.nrm = (nx, ny)
        self.pts = (sx, sy)
        return X, Y, E.fresh_arr('pz', (n,), 'r'), NX, NY, None

    def get_photoelectron_positions(self, n):
        c = E.CTX
        X, Y, NX, NY = [E.fresh_arr(a, (n,), 'r') for a in ('px', 'py', 'pnx', 'pny')]
        sx, sy, nx, ny = X.snap(), Y.snap(), NX.snap(), NY.snap()
        nz = Z(n)
        c.instantiators.append(lambda i: z3.Implies(z3.And(i >= 0, i < nz), z3.And(z3.Not(self.outz(sx(i), sy(i))),
                                                                                  nx(i) * nx(i) + ny(i) * ny(i) == 1)))
        self.nrm = (nx, ny)
        return X, Y, NX, NY


def common_post(c, mp, old, N0, ref0, ch, k, Nreq):
    c.prove('number of new MPs is requested charge over reference size, within one', z3.And(
        z3.ToReal(k) > Nreq - 1, z3.ToReal(k) < Nreq + 1))
    c.prove('nothing added when nothing is requested', z3.Implies(Nreq == 0, k == 0))
    for a in live_attrs(mp):
        n = cur(mp, a)
        c.prove_forall('%s of existing MPs untouched' % a, N0, lambda i: n(i) == old[a](i))
    x, y, nel = cur(mp, 'x_mp'), cur(mp, 'y_mp'), cur(mp, 'nel_mp')
    c.prove_forall('new MPs inside the chamber', N0 + k, lambda i: z3.Not(ch.outz(x(i), y(i))), lo=N0)
    c.prove_forall('new MPs carry the reference size', N0 + k, lambda i: nel(i) == ref0, lo=N0)
    c.prove_forall('slots beyond N_mp keep no charge', mp.nel_mp.nz, lambda i: z3.Implies(i >= N0 + k, nel(i) == old['nel_mp'](i)))
    c.prove('reference size untouched', Z(mp.nel_mp_ref) == ref0)
    if mp.flag_lifetime_hist:
        t = cur(mp, 't_last_impact')
        c.prove_forall('new MPs have no previous impact', N0 + k, lambda i: t(i) == -1, lo=N0)


def h_gas(ld, lifetime, beampos):
    def h(c):
        M, G = ld.get('MP_system'), ld.get('gas_ionization_class')
        ch = Room()
        mp = mp_container(M, c, lifetime, chamb=ch)
        old = snapshot(mp, live_attrs(mp))
        N0, ref0 = Z(mp.N_mp), Z(mp.nel_mp_ref)
        g = obj(G.residual_gas_ionization)
        g.chamb, g.flag_lifetime_hist = ch, lifetime
        for a in ('unif_frac', 'P_nTorr', 'sigma_ion_MBarn', 'E_init_ion'):
            setattr(g, a, inp_real(a, lambda v: v >= 0))
        g.Temp_K = inp_real('Temp_K', lambda v: v > 0)
        lam, Dt, sx, sy = [inp_real(a, lambda v: v >= 0) for a in ('lambda_t', 'Dt', 'sigmax', 'sigmay')]
        from scipy.constants import k as KB, c as CC
        kb, cc = E.num(KB), E.num(CC)
        Nreq = z3.simplify(E.num(133.32e-9) * Z(g.P_nTorr) / (kb * Z(g.Temp_K)) * (Z(g.sigma_ion_MBarn) * E.num(1e-22)) * cc * lam.z * Dt.z / ref0)
        q = z3.Real('requested')
        c.fact(q == Nreq)
        c.fact(q >= 0)
        c.fact(z3.ToReal(N0) + q + 1 <= z3.ToReal(mp.x_mp.nz))
        a = (inp_real('x_beam'), inp_real('y_beam')) if beampos else ()
        r = g.generate(mp, lam, Dt, sx, sy, *a)
        c.unit.cover('returns')
        k = Z(mp.N_mp) - N0
        common_post(c, mp, old, N0, ref0, ch, k, q)
        v0sq = 2 * (Z(g.E_init_ion) / 3) * E.num(QE) / Z(mp.mass)
        for nm in ('vx_mp', 'vy_mp', 'vz_mp'):
            v = cur(mp, nm)
            c.prove_forall('%s of new MPs bounded by the seed energy' % nm, N0 + k, lambda i: 4 * v(i) * v(i) <= v0sq, lo=N0)
        z = cur(mp, 'z_mp')
        c.prove_forall('new MPs start at z=0', N0 + k, lambda i: z(i) == 0, lo=N0)
        c.prove('N_mp stays within the container', z3.And(Z(mp.N_mp) >= 0, Z(mp.N_mp) <= mp.x_mp.nz))
    return h


def h_photo(ld, lifetime, kind, unif, angle, cont):
    def h(c):
        M, P, EE = ld.get('MP_system'), ld.get('gen_photoemission_class'), ld.get('electron_emission')
        ch = Room()
        mp = mp_container(M, c, lifetime, chamb=ch)
        old = snapshot(mp, live_attrs(mp))
        N0, ref0 = Z(mp.N_mp), Z(mp.nel_mp_ref)
        o = obj(getattr(P, kind))
        o.chamb, o.flag_unif, o.flag_continuous_emission = ch, unif, cont
        o.k_pe_st = inp_real('k_pe_st', lambda v: v >= 0)
        o.refl_frac = inp_real('refl_frac')
        o.alimit = inp_real('alimit', lambda v: v >= 0)
        o.resc_fac = inp_real('resc_fac', lambda v: v > 0, lambda v: v < 1)
        o.out_radius = inp_real('out_radius', lambda v: v > 0)
        o.x0_refl = inp_real('x0_refl')
        o.y0_refl = 0.
        o.angle_dist_func = getattr(EE, 'velocities_angle_' + angle)
        nt = inp_int('n_table', lambda v: v >= 2)
        o.inv_CDF_refl, o.u_sam_CDF_refl = inp_arr('inv_CDF', nt), inp_arr('u_sam', nt)
        o.u_sam, o.angles = o.u_sam_CDF_refl, o.inv_CDF_refl
        R2 = o.out_radius.z * o.out_radius.z
        ch.balls = [(z3.RealVal(0), R2), (o.x0_refl.z, 4 * R2)]
        # validated by the constructors: the centre and x0_refl are inside
        c.fact(z3.Not(ch.outz(z3.RealVal(0), z3.RealVal(0))))
        c.fact(z3.Not(ch.outz(o.x0_refl.z, z3.RealVal(0))))
        ens = []

        def get_energy(n):
            a = E.fresh_arr('En_gen', (n,), 'r', lambda e, i: [e >= 0])
            ens.append(a.snap())
            return a
        o.get_energy = get_energy
        lam, Dt = inp_real('lambda_t', lambda v: v >= 0), inp_real('Dt', lambda v: v >= 0)
        L = lam
        if cont:
            L = o.mean_lambda = inp_real('mean_lambda', lambda v: v >= 0)
        q = z3.Real('requested')
        c.fact(q == o.k_pe_st.z * E.num(CL) * L.z * Dt.z / ref0)
        c.fact(q >= 0)
        c.fact(z3.ToReal(N0) + q + 1 <= z3.ToReal(mp.x_mp.nz))
        o.generate(mp, lam, Dt)
        c.unit.cover('returns')
        k = Z(mp.N_mp) - N0
        common_post(c, mp, old, N0, ref0, ch, k, q)
        if ens:
            c.unit.cover('emits')
            En = ens[0]
            vx, vy, vz = cur(mp, 'vx_mp'), cur(mp, 'vy_mp'), cur(mp, 'vz_mp')
            nx, ny = ch.nrm
            c.prove_forall('speed corresponds to the drawn energy', k, lambda j: vx(N0 + j) * vx(N0 + j) + vy(N0 + j) * vy(N0 + j)
                           + vz(N0 + j) * vz(N0 + j) == 2 * E.num(QE) / Z(mp.mass) * En(j))
            c.prove_forall('emitted inwards', k, lambda j: vx(N0 + j) * nx(j) + vy(N0 + j) * ny(j) >= 0)
        c.prove('N_mp stays within the container', z3.And(Z(mp.N_mp) >= 0, Z(mp.N_mp) <= mp.x_mp.nz))
    return h
