"""Contracts of beam_and_timing: bunch profile, construction, time stepping, beam field."""
import math
from .common import *
from .kernels import prefix
from .boris import natives

CL = 299792458.


def contribution(c, t, bsp, toff, ppb, sig):
    """line density of bunch j at time t (specification)"""
    num = E.num

    def at(j):
        z0 = num(CL) * (toff + z3.ToReal(j) * bsp)
        z = num(CL) * t
        s, p = sig(j), ppb(j)
        d = z - z0
        g = E.z_mul(E.z_div(p, E.z_mul(s, num(math.sqrt(2 * math.pi)))), E.z_exp(E.z_div(E.z_mul(-d, d), 2 * s * s)))
        return z3.If(z3.And(s > 0, E.z_abs(d) < 10 * s), g, z3.RealVal(0))
    return at


def h_profile(ld):
    natives(ld)
    M = ld.get('beam_and_timing')

    def run(c):
        nb, nt = inp_int('N_bunches', lambda v: v >= 1), inp_int('N_samples', lambda v: v >= 1)
        bsp, toff = inp_real('b_spac'), inp_real('t_offs')
        ppb, sig, t = inp_arr('ppb', nb), inp_arr('sigmaz', nb), inp_arr('t', nt)
        ps, ss, ts = ppb.snap(), sig.snap(), t.snap()
        k = inp_int('sample', lambda v: v >= 0, lambda v: v < nt.z)
        c.note_index((k.z,))
        PS = prefix(c, 'bunches', contribution(c, ts(k.z), bsp.z, toff.z, ps, ss))
        c.prof = dict(k=k.z, PS=PS)
        v = M.bunch_train4(t, bsp, toff, ppb, sig)
        c.prove('one sample per time', Z(v.n) == nt.z)
        c.prove('profile is the sum of the bunches within ten sigma', v.at(k.z) == PS(nb.z))
        j = c.skolem_int('any bunch')
        c.prove('times and intensities not changed', z3.And(t.at(k.z) == ts(k.z), ppb.at(j) == ps(j), sig.at(j) == ss(j)))
        c.unit.cover('returns')
    return run


def inv_profile(c, loc, loop):
    g = getattr(c, 'prof', None)
    if not g:
        return []
    ix = loop.index
    out = []
    for nm, v in list(loc.items()):
        if isinstance(v, SArr) and v.kind == 'r' and v.ndim == 1 and v.buf.ghost.get('input') is None:
            out.append(('%s: bunches summed so far' % nm, 's', lambda v=v: v.at(g['k']) == g['PS'](ix)))
    g['PS'](ix)
    return out


class Sq(object):
    """what scipy.io.loadmat returns for an array: .real and .T are the array, squeezing it removes nothing more"""

    def __init__(self, a):
        self.a = a
        self.real = self.T = self


def setup(ld, c, M):
    f = {}

    def squeeze(a):
        return a.a if isinstance(a, Sq) else a
    real = M.np

    class P(object):
        def __getattr__(s, k):
            return squeeze if k == 'squeeze' else getattr(real, k)
    M.np = P()
    nx, ny = inp_int('nx', lambda v: v >= 2), inp_int('ny', lambda v: v >= 2)
    f.update(xx=inp_arr('xx', nx), yy=inp_arr('yy', ny), Ex=E.fresh_arr('Exm', (nx, ny), 'r'), Ey=E.fresh_arr('Eym', (nx, ny), 'r'))
    return f


def h_init(ld, kind, sec):
    """kind: 'pattern' (bunches), 'file' (profile from file)"""
    natives(ld)
    M = ld.get('beam_and_timing')
    cls = M.beam_and_timing

    def run(c):
        f = setup(ld, c, M)
        ch = AbstractChamber()
        nb = inp_int('N_bunches', lambda v: v >= 1)
        ppb = inp_arr('ppb', nb, 'r', lambda e, *i: [e >= 0])
        pps = ppb.snap()
        bsp, toff, Dt, tend, sz = (inp_real('b_spac', lambda v: v > 0), inp_real('t_offs'), inp_real('Dt', lambda v: v > 0),
                                   inp_real('t_end', lambda v: v >= 0), inp_real('sigmaz', lambda v: v > 0))
        fact, coast, q, lth = inp_real('fact_beam'), inp_real('coast_dens'), inp_real('beam_charge'), inp_real('lam_th')
        xb, yb = inp_real('x_beam'), inp_real('y_beam')
        np_ = inp_int('Nt_primary', lambda v: v >= 2)
        tp = inp_arr('t_primary', np_)
        tps = tp.snap()
        nf = inp_int('Nt_file', lambda v: v >= 2)
        tf, lf = inp_arr('t_file', nf), inp_arr('lam_file', nf)
        tfs, lfs = tf.snap(), lf.snap()
        P = fn('profile', R, R)
        rec = {}

        def train(t, b, o, p, s):
            rec['t'] = t
            i, j = c.skolem_int('a'), c.skolem_int('b')
            E.same_len(p.n, s.n, 'intensities and lengths')
            c.prove('bunch spacing and offset', z3.And(Z(b) == bsp.z, Z(o) == toff.z))
            c.prove('one intensity per bunch', z3.And(Z(p.n) == nb.z, p.at(i) == pps(i)))
            c.fact(z3.And(i >= 0, i < nb.z))
            c.prove('all bunches with particles have the configured length, the others none', s.at(i) == z3.If(pps(i) > 0, sz.z, 0))
            rec['n'] = t.n
            return E.ew1(lambda z: P(E.as_real(z)), t)
        M.bunch_train4 = train
        M.sio = types.SimpleNamespace(loadmat=lambda fn_: {'profile.mat': {'t': Sq(tf), 'lam_t_array': Sq(lf)},
                                                            'field.mat': {k: Sq(v) for k, v in f.items()}}[fn_])
        kw = dict(b_spac=bsp, sigmaz=sz, t_offs=toff, filling_pattern_file=ppb, Dt=Dt, t_end=tend, beam_long_prof_file='profile.mat', chamb=ch,
                  sigmax=inp_real('sigmax'), sigmay=inp_real('sigmay'), x_beam_pos=xb, y_beam_pos=yb)
        if sec:
            kw.update(flag_secodary_beam=True, t_primary_beam=tp)
        bad = ch.outz(xb.z, yb.z)
        try:
            o = cls(kind == 'pattern', fact, coast, q, 'field.mat', lth, **kw)
        except ValueError:
            # rejected: beam outside the chamber, or a secondary beam on a different time axis
            if sec and kind == 'file':
                c.unit.cover('rejected')
            else:
                c.prove('only a beam outside the chamber is rejected', bad)
            return
        c.prove('the beam is inside the chamber', z3.Not(bad))
        k = inp_int('sample', lambda v: v >= 0)
        c.note_index((k.z,))
        t, lam = o.t, o.lam_t_array
        c.fact(k.z < Z(t.n))
        c.prove('as many densities as times', z3.And(Z(lam.n) == Z(t.n), Z(o.Nt) == Z(t.n)))
        if kind == 'pattern':
            if sec:
                c.prove('time axis of the main beam', z3.And(t.at(k.z) == tps(k.z), Z(t.n) == np_.z))
            else:
                c.prove('uniform time axis from zero', t.at(k.z) == Dt.z * z3.ToReal(k.z))
                c.prove('time axis covers the train and the tail', Dt.z * z3.ToReal(Z(t.n)) >= z3.ToReal(nb.z) * bsp.z + tend.z)
                c.prove('time axis ends two steps after the tail', Dt.z * z3.ToReal(Z(t.n) - 1) < z3.ToReal(nb.z) * bsp.z + tend.z + 2 * Dt.z)
            c.prove('density: profile times beam factor plus coasting beam', lam.at(k.z) == fact.z * P(t.at(k.z)) + coast.z)
            c.prove('time step', Z(o.Dt) == Dt.z)
        else:
            c.prove('time axis of the file', z3.And(t.at(k.z) == tfs(k.z), Z(t.n) == nf.z))
            c.prove('density: file times beam factor plus coasting beam', lam.at(k.z) == fact.z * lfs(k.z) + coast.z)
            if o.flag_unif_Dt is True:
                c.prove('time step of the file', Z(o.Dt) == tfs(z3.IntVal(1)) - tfs(z3.IntVal(0)))
                c.unit.cover('uniform')
            else:
                c.prove('reference time step kept', Z(o.Dt) == Dt.z)
                c.unit.cover('not uniform')
        last = t.at(Z(t.n) - 1)
        c.prove('number of passages', Z(o.N_pass_tot) == -z3.ToInt(-(last / bsp.z)))
        c.prove('stepping starts before the first sample', z3.BoolVal(o.ii_curr == -1 and o._pass_numb_old == -1))
        c.prove('parameters kept', z3.And(Z(o.b_spac) == bsp.z, Z(o.beam_charge) == q.z, Z(o.lam_th_beam_field) == lth.z))
        c.prove('field grid', z3.And(Z(o.dx_beam) == f['xx'].at(z3.IntVal(1)) - f['xx'].at(z3.IntVal(0)), Z(o.dy_beam) == f['yy'].at(z3.IntVal(1)) - f['yy'].at(z3.IntVal(0))))
        i, j = c.skolem_int('gi'), c.skolem_int('gj')
        c.prove('field map', z3.And(o.Ex_beam.at(i, j) == f['Ex'].at(i, j), o.Ey_beam.at(i, j) == f['Ey'].at(i, j)))
        c.unit.cover('returns')
    return run


def beam(c, ld, cls):
    nt = inp_int('Nt', lambda v: v >= 2)
    t, lam = inp_arr('t', nt), inp_arr('lam', nt)
    o = obj(cls)
    o.t, o.lam_t_array, o.Nt = t, lam, nt
    o.b_spac = inp_real('b_spac', lambda v: v > 0)
    return o, nt, t.snap(), lam.snap()


def h_step(ld):
    natives(ld)
    cls = ld.get('beam_and_timing').beam_and_timing

    def run(c):
        o, nt, ts, ls = beam(c, ld, cls)
        ii = inp_int('ii', lambda v: v >= -1)
        i = ii.z
        # time axis: starts at a non-negative time, increases
        c.fact(ts(z3.IntVal(0)) >= 0)
        for k in (i, i + 1):
            c.fact(z3.Implies(z3.And(k >= 0, k + 1 < nt.z), ts(k) < ts(k + 1)))
            c.fact(z3.Implies(z3.And(k >= 0, k < nt.z), ts(k) >= 0))
        b = o.b_spac.z
        ps = lambda k: z3.ToInt(ts(k) / b)
        o.ii_curr = ii
        # invariant of the stepping: the last passage signalled is the passage of the current step (-1 before the first)
        inv = lambda k, old: old == z3.If(k < 0, -1, ps(k))
        old = inp_int('pass_old')
        c.fact(inv(i, old.z))
        o._pass_numb_old = old
        o.tt_curr = o.lam_t_curr = o.pass_numb = o.flag_new_bunch_pass = o.Dt_curr = None
        c.prove('end of the simulation iff no complete step is left', E.as_bool(Z(o.end_simulation())) == (i + 2 >= nt.z))
        c.fact(i + 2 < nt.z)
        c.fact(ps(i + 1) >= 0)
        c.prove('passage numbers do not decrease', z3.Implies(i >= 0, ps(i + 1) >= ps(i)))
        o.next_time_step()
        n = i + 1
        c.prove('next sample', Z(o.ii_curr) == n)
        c.prove('time of the sample', Z(o.tt_curr) == ts(n))
        c.prove('step lasts until the next sample', Z(o.Dt_curr) == ts(n + 1) - ts(n))
        c.prove('time advances', z3.And(Z(o.Dt_curr) > 0, z3.Implies(i >= 0, Z(o.tt_curr) > ts(i))))
        c.prove('density of the sample', Z(o.lam_t_curr) == ls(n))
        c.prove('passage of the time', Z(o.pass_numb) == ps(n))
        c.prove('passage signalled iff it is another one than at the previous step', E.as_bool(Z(o.flag_new_bunch_pass)) == z3.Or(i < 0, ps(n) > ps(i)))
        c.prove('invariant of the stepping', inv(n, Z(o._pass_numb_old)))
        c.prove('no passage is skipped by steps not longer than the spacing', z3.Implies(z3.And(i >= 0, ts(n) - ts(i) <= b), ps(n) <= ps(i) + 1))
        c.prove('profile not changed', z3.And(o.t.at(n) == ts(n), o.lam_t_array.at(n) == ls(n)))
        c.prove('steps use a time axis with a further sample', n + 1 < nt.z)
        c.unit.cover('returns')
    return run


def h_field(ld, state):
    natives(ld)
    M = ld.get('beam_and_timing')
    cls = M.beam_and_timing

    def run(c):
        o = obj(cls)
        mp = mp_container(ld.get('MP_system'), c)
        N = mp.N_mp.z
        old = snapshot(mp, ATTRS)
        o.lam_t_curr, o.lam_th_beam_field, o.beam_charge = inp_real('lam'), inp_real('lam_th'), inp_real('beam_charge')
        nx, ny = inp_int('nx', lambda v: v >= 2), inp_int('ny', lambda v: v >= 2)
        o.Ex_beam, o.Ey_beam = [E.fresh_arr(k, (nx, ny), 'r') for k in ('Exb', 'Eyb')]
        o.xmin_beam, o.ymin_beam, o.dx_beam, o.dy_beam = [inp_real(k) for k in ('xmin', 'ymin', 'dx', 'dy')]
        ga = [fn('beam_gather_%s' % k, R, R, R) for k in 'xy']
        called = []

        def gather(x, y):
            called.append(1)
            c.prove('live macroparticles only', z3.And(Z(x.n) == N, Z(y.n) == N))
            return tuple(E.ew(lambda p, q, f=f: f(p, q), x, y) for f in ga)

        def int_field(x, y, bx, by, dx, dy, ex, ey):
            c.prove('grid of the beam field', z3.And(Z(bx) == o.xmin_beam.z, Z(by) == o.ymin_beam.z, Z(dx) == o.dx_beam.z, Z(dy) == o.dy_beam.z))
            i, j = c.skolem_int('a'), c.skolem_int('b')
            c.prove('beam field map', z3.And(ex.at(i, j) == o.Ex_beam.at(i, j), ey.at(i, j) == o.Ey_beam.at(i, j)))
            return gather(x, y)
        M.iff = types.SimpleNamespace(int_field=int_field)
        o.PyPIC_state = types.SimpleNamespace(gather=gather)
        f = o._get_beam_eletric_field_PyPICstate if state else o.get_beam_eletric_field
        ex, ey = f(mp)
        k = inp_int('particle', lambda v: v >= 0)
        K = k.z
        c.note_index((K,))
        c.fact(K < N)
        sc = z3.If(o.lam_t_curr.z > o.lam_th_beam_field.z, o.beam_charge.z * o.lam_t_curr.z, z3.RealVal(0))
        for g, e, w in zip(ga, (ex, ey), 'xy'):
            v = e.at(K) if isinstance(e, SArr) else E.as_real(Z(e))
            ref = E.z_mul(sc, g(old['x_mp'](K), old['y_mp'](K)))
            c.prove('E%s: interpolated beam field times line charge density, zero below the threshold' % w, v == ref)
        c.unit.cover('returns')
        c.unit.cover('field' if called else 'no field')
    return run
