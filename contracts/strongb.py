"""Contracts of the strong-field trackers (dipole, generalised uniform field): closed-form motion of electrons in frozen fields."""
import types
from .common import *
import types
from .boris import natives

num = E.num
XV = ('x', 'y', 'z', 'vx', 'vy', 'vz')
QM = num(1.602176565e-19 / 9.10938291e-31)


class F(object):
    """f(t) = c0 + c1 t + c2 t^2 + s sin(w t) + c cos(w t), with exact formal derivative"""
    def __init__(self, w, c0=0, c1=0, c2=0, s=0, c=0):
        self.w, self.c0, self.c1, self.c2, self.s, self.c = w, *[z3.RealVal(v) if isinstance(v, int) else v for v in (c0, c1, c2, s, c)]

    def diff(self):
        return F(self.w, self.c1, 2 * self.c2, 0, -self.w * self.c, self.w * self.s)

    def coeffs(self):
        return [self.c0, self.c1, self.c2, self.s, self.c]

    def at(self, t, sn, cs):
        return self.c0 + self.c1 * t + self.c2 * t * t + self.s * sn + self.c * cs

    def at0(self):
        return self.c0 + self.c

    def scale(self, k):
        return F(self.w, *[k * v for v in self.coeffs()])

    def __add__(self, o):
        return F(self.w, *[a + b for a, b in zip(self.coeffs(), o.coeffs())])

    def __sub__(self, o):
        return F(self.w, *[a - b for a, b in zip(self.coeffs(), o.coeffs())])


def motion(x, v, ex, ey, bx, by, bm, w, iw):
    """closed form for an electron: v' = -qm (E + v x B), B = (bx, by, 0), E = (ex, ey, 0); bm = |B|, w = qm bm, iw = 1 / w, ib = 1 / bm"""
    ib = iw * QM
    ux, uy = bx * ib, by * ib              # unit vector along B
    u0 = v[0] * uy - v[1] * ux             # velocity across B (in the plane)
    p0 = v[0] * ux + v[1] * uy             # velocity along B
    eu, ep = ex * uy - ey * ux, ex * ux + ey * uy
    e = eu * ib                            # drift along z
    vz = F(w, c0=e, c=v[2] - e, s=-u0)
    vu = F(w, c=u0, s=v[2] - e)
    vp = F(w, c0=p0, c1=-QM * ep)
    z = F(w, c0=x[2] - u0 * iw, c1=e, s=(v[2] - e) * iw, c=u0 * iw)
    U = F(w, c0=(v[2] - e) * iw, s=u0 * iw, c=-(v[2] - e) * iw)
    P_ = F(w, c1=p0, c2=-QM * ep / 2)
    vx, vy = vu.scale(uy) + vp.scale(ux), vp.scale(uy) - vu.scale(ux)
    X = U.scale(uy) + P_.scale(ux) + F(w, c0=x[0])
    Y = P_.scale(uy) - U.scale(ux) + F(w, c0=x[1])
    return [X, Y, z], [vx, vy, vz]


def h_spec(ld):
    """the closed form itself: initial values and equations of motion, identically in time"""
    def run(c):
        x, v = [inp_real('x%d' % k).z for k in range(3)], [inp_real('v%d' % k).z for k in range(3)]
        ex, ey, bx, by = [inp_real(k).z for k in ('Ex', 'Ey', 'Bx', 'By')]
        bm, w, iw = inp_real('Bmod').z, inp_real('omega').z, inp_real('iomega').z
        ux, uy = z3.Reals('ux uy')
        c.fact(z3.And(bm * bm == bx * bx + by * by, bm > 0, w == QM * bm, iw * w == 1))
        X, V = motion(x, v, ex, ey, bx, by, bm, w, iw)
        for k in range(3):
            c.prove('initial position %d' % k, X[k].at0() == x[k])
            c.prove('initial velocity %d' % k, V[k].at0() == v[k])
            for nm, a, b in zip(('1', 't', 't^2', 'sin', 'cos'), X[k].diff().coeffs(), V[k].coeffs()):
                c.prove('velocity is the derivative of the position, component %d, coefficient of %s' % (k, nm), a == b)
        acc = [F(w, c0=-QM * ex) + V[2].scale(QM * by), F(w, c0=-QM * ey) - V[2].scale(QM * bx), V[1].scale(QM * bx) - V[0].scale(QM * by)]
        for k in range(3):
            for nm, a, b in zip(('1', 't', 't^2', 'sin', 'cos'), V[k].diff().coeffs(), acc[k].coeffs()):
                c.prove('equation of motion, component %d, coefficient of %s' % (k, nm), a == b)
        c.unit.cover('returns')
    return run


def h_energy(ld):
    def run(c):
        u, p, vz, s, q = [inp_real(k).z for k in ('u', 'p', 'vz', 's', 'c')]
        ux, uy = inp_real('ux').z, inp_real('uy').z
        c.fact(z3.And(s * s + q * q == 1, ux * ux + uy * uy == 1))
        un, zn = u * q + vz * s, vz * q - u * s
        c.prove('rotation keeps the speed across the field', un * un + zn * zn == u * u + vz * vz)
        for nm, a in (('old', u), ('new', un)):
            vx, vy = a * uy + p * ux, p * uy - a * ux
            c.prove('speed in field coordinates, %s' % nm, vx * vx + vy * vy == a * a + p * p)
        c.unit.cover('returns')
    return run


def h_sincc(ld):
    M = ld.get('sincc_cosincc_cubsincc')

    def run(c):
        x = inp_real('theta')
        th = num(1e-4)
        s, q = E.z_sin(x.z), E.z_cos(x.z)
        ax = z3.If(x.z < 0, -x.z, x.z)
        # remainder theorem for sin and cos (mathematics, assumed)
        x2 = x.z * x.z
        for nm, f, spec, zero in (('sincc', M.sincc, lambda r: r * x.z == s, 1.), ('cosincc', M.cosincc, lambda r: r * x2 == 1 - q, .5), ('cubsincc', M.cubsincc, lambda r: r * x2 * x.z == x.z - s, 1. / 6)):
            r = E.as_real(Z(f(x)))
            c.prove('%s: exact beyond the threshold' % nm, z3.Implies(ax >= th, spec(r)))
            c.prove('%s: limit value below the threshold' % nm, z3.Implies(ax < th, r == num(zero)))
        c.unit.cover('returns')
    return run


def cloud(ld, c):
    mp = mp_container(ld.get('MP_system'), c)
    N, L = mp.N_mp.z, mp.x_mp.nz
    old = snapshot(mp, [k + '_mp' for k in XV] + ['nel_mp'])
    Ex, Ey = inp_arr('Ex', mp.N_mp), inp_arr('Ey', mp.N_mp)
    return mp, N, L, old, Ex, Ey


def frame(c, mp, N, L, old, r):
    K = inp_int('slot', lambda v: v >= 0, lambda v: v < L).z
    c.note_index((K,))
    c.prove('the same cloud is returned', z3.BoolVal(r is mp))
    c.prove('charges and number of macroparticles untouched', z3.And(mp.nel_mp.at(K) == old['nel_mp'](K), mp.N_mp.z == N))
    for k in XV:
        c.prove('%s: unused slots untouched' % k, z3.Implies(K >= N, getattr(mp, k + '_mp').at(K) == old[k + '_mp'](K)))
    return K


def h_dipole(ld, limit):
    natives(ld)
    M = ld.get('dynamics_dipole')

    def run(c):
        mp, N, L, old, Ex, Ey = cloud(ld, c)
        exs, eys = Ex.snap(), Ey.snap()
        Dt = inp_real('Dt', lambda v: v > 0)
        Bf = 0. if limit else inp_real('B')
        w = z3.RealVal(0) if limit else QM * Bf.z
        if not limit:
            c.fact(z3.Or(w * Dt.z >= num(1e-4), w * Dt.z <= num(-1e-4)))
        pu = M.pusher_dipole_magnet(Dt, Bf)
        r = pu.step(mp, Ex, Ey)
        K = frame(c, mp, N, L, old, r)
        c.fact(K < N)
        x, v = [[old[k + '_mp'](K) for k in XV[3 * j:3 * j + 3]] for j in (0, 1)]
        got = [getattr(mp, k + '_mp').at(K) for k in XV]
        t = Dt.z
        ex, ey = exs(K), eys(K)
        if limit:
            a = [-QM * ex, -QM * ey, z3.RealVal(0)]
            c.fact(z3.And(E.z_sin(z3.RealVal(0)) == 0, E.z_cos(z3.RealVal(0)) == 1))
            want = [x[k] + v[k] * t + a[k] * t * t / 2 for k in range(3)] + [v[k] + a[k] * t for k in range(3)]
        else:
            iw = inp_real('iomega').z
            c.fact(iw * w == 1)
            X, V = motion(x, v, ex, ey, z3.RealVal(0), Bf.z, Bf.z, w, iw)
            th = Z(pu.omegac * pu.Dt) if hasattr(pu, 'omegac') else Z(Bf * M.qm * Dt)
            c.prove('rotation angle', th == w * t)
            sn, cs = E.z_sin(th), E.z_cos(th)
            want = [f.at(t, sn, cs) for f in X + V]
        for k, nm in enumerate(XV):
            c.prove('%s: closed-form motion over one time step for every live macroparticle' % nm, got[k] == want[k])
        c.unit.cover('returns')
    return run


def h_general(ld, kind):
    natives(ld)
    M = ld.get('dynamics_strong_B_generalized')

    def run(c):
        mp, N, L, old, Ex, Ey = cloud(ld, c)
        exs, eys = Ex.snap(), Ey.snap()
        Dt, thr = inp_real('Dt', lambda v: v > 0), inp_real('B_zero_thrhld', lambda v: v > 0)
        B0 = [inp_real('B0x'), inp_real('B0y')]
        g = inp_real('fact_Bmap')
        if kind == 'map':
            nx, ny = inp_int('nx', lambda v: v >= 2), inp_int('ny', lambda v: v >= 2)
            xx, yy = inp_arr('xx', nx), inp_arr('yy', ny)
            maps = {k: E.fresh_arr('map' + k, (nx, ny), 'r') for k in ('Bx', 'By')}
            M.sio = types.SimpleNamespace(loadmat=lambda f: dict(Bx=maps['Bx'], By=maps['By'], xx=xx, yy=yy))
            M.squeeze = lambda a: a
            mn = {}

            def amin(a):
                v = inp_real('lowest')
                mn[v.z.get_id()] = (v, a)
                return v
            M.min = amin
            ga = [fn('gather_%s' % k, R, R, R) for k in 'xy']

            def int_field(xn, yn, bx, by, dx, dy, ex, ey):
                i, j = c.skolem_int('a'), c.skolem_int('b')
                c.prove('rescaled map is interpolated', z3.And(lift(ex).at(i, j) == g.z * maps['Bx'].at(i, j), lift(ey).at(i, j) == g.z * maps['By'].at(i, j)))
                c.prove('grid of the map', z3.And(Z(dx) == xx.at(z3.IntVal(1)) - xx.at(z3.IntVal(0)), Z(dy) == yy.at(z3.IntVal(1)) - yy.at(z3.IntVal(0))))
                c.prove('origin of the map', z3.BoolVal(bx.z.get_id() in mn and mn[bx.z.get_id()][1] is xx and by.z.get_id() in mn and mn[by.z.get_id()][1] is yy))
                return tuple(E.ew(lambda p, q, f=f: f(p, q), xn, yn) for f in ga)
            M.iff = types.SimpleNamespace(int_field=int_field)
        pu = M.pusher_strong_B_generalized(Dt, B0[0], B0[1], {'uniform': None, 'quadrupole': 'analytic_qaudrupole_unit_grad', 'map': 'file.mat'}[kind], g, thr)
        r = pu.step(mp, Ex, Ey)
        K = frame(c, mp, N, L, old, r)
        c.fact(K < N)
        x, v = [[old[k + '_mp'](K) for k in XV[3 * j:3 * j + 3]] for j in (0, 1)]
        got = [getattr(mp, k + '_mp').at(K) for k in XV]
        t = Dt.z
        ex, ey = exs(K), eys(K)
        bx, by = {'uniform': (0, 0), 'quadrupole': (g.z * x[1], g.z * x[0])}.get(kind) or [f(x[0], x[1]) for f in ga]
        bx, by = bx + B0[0].z, by + B0[1].z
        BX, BY = z3.Real('BX'), z3.Real('BY')
        if kind != 'uniform':
            # the field components at the particle are named: the motion is verified for every value of them
            gen = lambda f: z3.substitute(f, (bx, BX), (by, BY))
            got = [gen(f) for f in got]
            zero = c.branch(E.z_sqrt(bx * bx + by * by) < thr.z)
            bx, by = BX, BY
            bm = E.z_sqrt(bx * bx + by * by)
            c.fact(bm < thr.z if zero else bm >= thr.z)
        else:
            bm = E.z_sqrt(bx * bx + by * by)
            zero = c.branch(bm < thr.z)
        if zero:
            c.unit.cover('below the threshold')
            a = [-QM * ex, -QM * ey, z3.RealVal(0)]
            want = [x[k] + v[k] * t + a[k] * t * t / 2 for k in range(3)] + [v[k] + a[k] * t for k in range(3)]
            for k, nm in enumerate(XV):
                c.prove('%s: uniform acceleration where the field is below the threshold' % nm, got[k] == want[k])
        else:
            c.unit.cover('field')
            iw, w = inp_real('iomega').z, QM * bm
            c.fact(z3.And(bm > 0, iw * w == 1, bm * bm == bx * bx + by * by))
            X, V = motion(x, v, ex, ey, bx, by, bm, w, iw)
            sn, cs = E.z_sin(z3.simplify(w * t)), E.z_cos(z3.simplify(w * t))
            for k, nm in enumerate(XV):
                c.prove('%s: closed-form motion over one time step for every live macroparticle' % nm, got[k] == (X + V)[k].at(t, sn, cs))
        c.unit.cover('returns')
    return run
