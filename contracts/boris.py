"""Contracts of the Boris trackers: Fortran kernel, C kernel, Cython wrapper and the Python drivers."""
import types
from .common import *
from pv import native

num = E.num
XV = ('x', 'y', 'z', 'vx', 'vy', 'vz')


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def boris_spec(x, v, ef, b, qm, dt):
    """half electric kick, magnetic rotation (t = q B dt / 2m, s = 2t/(1+t^2)), half electric kick, drift"""
    h = num(0.5)
    t = [h * qm * dt * bi for bi in b]
    t2 = t[0] * t[0] + t[1] * t[1] + t[2] * t[2]
    s = [2 * ti / (1 + t2) for ti in t]
    vm = [vi + h * qm * ei * dt for vi, ei in zip(v, ef)]
    vp = [a + b_ for a, b_ in zip(vm, cross(vm, t))]
    vq = [a + b_ for a, b_ in zip(vm, cross(vp, s))]
    vn = [a + h * qm * ei * dt for a, ei in zip(vq, ef)]
    xn = [a + b_ * dt for a, b_ in zip(x, vn)]
    return xn, vn, vm, vq, t


def h_spec(ld):
    """the specified map itself: rotation, energy, uniqueness, limits"""
    def run(c):
        R3 = lambda n: [inp_real('%s%d' % (n, k)).z for k in range(3)]
        x, v, b, ef, w = R3('x'), R3('v'), R3('B'), R3('E'), R3('w')
        qm, dt = inp_real('qm').z, inp_real('dt').z
        xn, vn, vm, vq, t = boris_spec(x, v, ef, b, qm, dt)
        T = R3('t')
        c.prove('the rotation denominator does not vanish', 1 + T[0] * T[0] + T[1] * T[1] + T[2] * T[2] >= 1)
        tt = t[0] * t[0] + t[1] * t[1] + t[2] * t[2]
        c.fact(1 + tt >= 1)
        rot = cross([p + m for p, m in zip(vq, vm)], t)
        for k in range(3):
            c.prove('v+ - v- = (v+ + v-) x t, component %d' % k, vq[k] - vm[k] == rot[k])
        c.prove('the rotation keeps the speed', vq[0] * vq[0] + vq[1] * vq[1] + vq[2] * vq[2] == vm[0] * vm[0] + vm[1] * vm[1] + vm[2] * vm[2])
        c.prove('the velocity component along the field is not rotated', b[0] * vq[0] + b[1] * vq[1] + b[2] * vq[2] == b[0] * vm[0] + b[1] * vm[1] + b[2] * vm[2])
        z = z3.RealVal(0)
        x0, v0, vm0, vq0, _ = boris_spec(x, v, [z, z, z], b, qm, dt)
        c.prove('no electric field: kinetic energy exactly conserved', v0[0] * v0[0] + v0[1] * v0[1] + v0[2] * v0[2] == v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
        x1, v1, _, _, _ = boris_spec(x, v, ef, [z, z, z], qm, dt)
        for k in range(3):
            c.prove('no magnetic field: uniform acceleration, component %d' % k, z3.And(v1[k] == v[k] + qm * ef[k] * dt, x1[k] == x[k] + v1[k] * dt))
        # uniqueness of the rotation: d = d x t has only the zero solution
        d = R3('d')
        r = cross(d, T)
        c.prove('a vector equal to its cross product with t is orthogonal to itself', z3.Implies(z3.And(*[d[k] == r[k] for k in range(3)]),
                d[0] * d[0] + d[1] * d[1] + d[2] * d[2] == d[0] * r[0] + d[1] * r[1] + d[2] * r[2]))
        c.prove('(d x t) . d = 0', d[0] * r[0] + d[1] * r[1] + d[2] * r[2] == 0)
        c.unit.cover('returns')
    return run


def h_fortran(ld):
    f = native.load(ld, 'boris_step', 'boris_step.f', native.fortran('boris_step')).boris_step

    def run(c):
        n = inp_int('N_mp', lambda v: v >= 0)
        dt, m, q = inp_real('Dtt'), inp_real('mass', lambda v: v > 0), inp_real('charge')
        a = {k: inp_arr(k, n) for k in XV + ('Ex', 'Ey', 'Ez', 'Bx', 'By', 'Bz')}
        o = {k: v.snap() for k, v in a.items()}
        i = inp_int('particle', lambda v: v >= 0, lambda v: v < n.z).z
        c.note_index((i,))
        xn, vn, vm, vq, t = boris_spec([o[k](i) for k in XV[:3]], [o[k](i) for k in XV[3:]], [o[k](i) for k in ('Ex', 'Ey', 'Ez')],
                                       [o[k](i) for k in ('Bx', 'By', 'Bz')], q.z / m.z, dt.z)
        c.kern = dict(a=a, o=o, K=i, new=dict(zip(XV, xn + vn)))
        f(n, dt, *[a[k] for k in XV], *[a[k] for k in ('Ex', 'Ey', 'Ez', 'Bx', 'By', 'Bz')], m, q)
        T = z3.Reals('T0 T1 T2')
        c.prove('the rotation denominator does not vanish', 1 + T[0] * T[0] + T[1] * T[1] + T[2] * T[2] >= 1)
        c.fact(1 + (t[0] * t[0] + t[1] * t[1] + t[2] * t[2]) >= 1)
        for k in range(3):
            c.prove('new velocity %s of every particle is the Boris update' % XV[3 + k], a[XV[3 + k]].at(i) == vn[k])
        for k in range(3):
            c.prove('new position %s of every particle is moved by the updated velocity' % XV[k], a[XV[k]].at(i) == xn[k])
        for k in ('Ex', 'Ey', 'Ez', 'Bx', 'By', 'Bz'):
            c.prove('fields are read only', a[k].at(i) == o[k](i))
        c.unit.cover('returns')
    return run


def inv_f(c, loc, loop):
    g = getattr(c, 'kern', None)
    if not g:
        return []
    out = []
    for k in XV:
        v = g['a'][k].at(g['K'])
        out.append(('particle %s before its turn' % k, 's', lambda v=v, k=k: z3.Implies(g['K'] + 1 >= loop.index, v == g['o'][k](g['K']))))
        out.append(('particle %s after its turn' % k, 's', lambda v=v, k=k: z3.Implies(g['K'] + 1 < loop.index, v == g['new'][k])))
    return out


# ------------------------------------------------------------------ C kernel
def h_c(ld, custom):
    f = native.load(ld, 'boris_c', 'boris_c_function.c', native.c_source).boris_c

    def run(c):
        n = inp_int('N_mp', lambda v: v >= 0)
        M = inp_int('N_multipoles', lambda v: v >= 1)
        ns = inp_int('N_sub_steps', lambda v: v >= 0)
        dt, m, q = inp_real('Dtt'), inp_real('mass', lambda v: v > 0), inp_real('charge')
        a = {k: inp_arr(k, n) for k in XV + ('Ex', 'Ey', 'Bx', 'By', 'Bz')}
        bf, bs = inp_arr('B_field', M), inp_arr('B_skew', M)
        fs, ss = bf.snap(), bs.snap()
        o = {k: v.snap() for k, v in a.items()}
        Kp = inp_int('particle', lambda v: v >= 0, lambda v: v < n.z).z
        c.note_index((Kp,))
        z0 = z3.IntVal(0)
        st = {k: fn(c.fresh_name('st_' + k), I, R) for k in XV}
        for k in XV:
            c.fact(st[k](z0) == o[k](Kp))
        # multipole field at the position of sub-step s: sum over the orders of (k + i k') (x + i y)^order
        re, im, by, bx = [fn(c.fresh_name('mp_' + k), I, I, R) for k in ('re', 'im', 'by', 'bx')]

        def order0(s):
            c.fact_once(('o0', s), lambda: [re(s, z3.IntVal(1)) == 1 * st['x'](s) - 0 * st['y'](s), im(s, z3.IntVal(1)) == 0 * st['x'](s) + 1 * st['y'](s),
                                            re(s, z0) == 1, im(s, z0) == 0, by(s, z3.IntVal(1)) == fs(z0), bx(s, z3.IntVal(1)) == ss(z0)])

        def order(s, k):
            order0(s)
            c.fact_once(('ok', s, k), lambda: [
                re(s, k) == re(s, k - 1) * st['x'](s) - im(s, k - 1) * st['y'](s), im(s, k) == im(s, k - 1) * st['x'](s) + re(s, k - 1) * st['y'](s),
                by(s, k + 1) == by(s, k) + (fs(k) * re(s, k) - ss(k) * im(s, k)), bx(s, k + 1) == bx(s, k) + (fs(k) * im(s, k) + ss(k) * re(s, k))])

        def field(s):
            b = [bx(s, M.z), by(s, M.z), z3.RealVal(0)]
            if custom:
                b = [b[0] + o['Bx'](Kp), b[1] + o['By'](Kp), b[2] + o['Bz'](Kp)]
            return b

        def step(s):
            def gen():
                xn, vn, vm, vq, t = boris_spec([st[k](s) for k in XV[:3]], [st[k](s) for k in XV[3:]], [o['Ex'](Kp), o['Ey'](Kp), z3.RealVal(0)],
                                               field(s), q.z / m.z, dt.z)
                return [st[k](s + 1) == w for k, w in zip(XV, xn + vn)]
            c.fact_once(('st', s), gen)
        c.kern = dict(a=a, o=o, K=Kp, st=st, ns=ns.z, re=re, im=im, by=by, bx=bx, order=order, order0=order0, step=step, field=field, M=M.z)
        f(ns, dt, bf, bs, *[a[k] for k in XV], a['Ex'], a['Ey'], a['Bx'], a['By'], a['Bz'], 1 if custom else 0, n, M, q, m)
        for k in XV:
            c.prove('%s of every particle after the configured number of Boris sub-steps' % k, a[k].at(Kp) == st[k](ns.z))
        for k in ('Ex', 'Ey', 'Bx', 'By', 'Bz'):
            c.prove('fields are read only', a[k].at(Kp) == o[k](Kp))
        c.unit.cover('returns')
    return run


LOC = dict(x='xn1p', y='yn1p', z='zn1p', vx='vxn1p', vy='vyn1p', vz='vzn1p')


def inv_c(c, loc, loop):
    g = getattr(c, 'kern', None)
    if not g:
        return []
    nm = loop.key.split('#')[1]
    ix = loop.index
    zz = lambda n: E.as_real(Z(loc[n])) if isinstance(loc.get(n), (S, int, float)) else None
    out = []
    if nm == '0':
        for k in XV:
            v = g['a'][k].at(g['K'])
            out.append(('particle %s' % k, 's', lambda v=v, k=k: v == z3.If(g['K'] < ix, g['st'][k](g['ns']), g['o'][k](g['K']))))
        return out
    p = loc.get('p')
    if not isinstance(p, (S, int)):
        return []
    same = Z(p) == g['K']
    if nm == '1':
        g['step'](ix)
        g['step'](ix - 1)
        for k in XV:
            if zz(LOC[k]) is not None:
                out.append(('sub-step %s' % k, 's', lambda k=k: z3.Implies(same, zz(LOC[k]) == g['st'][k](ix))))
        return out
    s = loc.get('isub')
    if nm == '2' and isinstance(s, (S, int)):
        s = Z(s)
        g['order'](s, ix - 1)
        g['order0'](s)
        for k, f in (('rexy', 're'), ('imxy', 'im')):
            if zz(k) is not None:
                out.append(('power %s' % k, 's', lambda k=k, f=f: z3.Implies(same, zz(k) == g[f](s, ix - 1))))
        for k, f in (('By_n', 'by'), ('Bx_n', 'bx')):
            if zz(k) is not None:
                out.append(('field %s' % k, 's', lambda k=k, f=f: z3.Implies(same, zz(k) == g[f](s, ix))))
    return out


# ------------------------------------------------------------------ drivers
def boris_map(c):
    """the kernel contract: every particle is mapped by one function of its own state and fields"""
    return {k: fn('boris_' + k, *([R] * 16)) for k in XV}


def kernel_stub(c, F):
    def boris_step(Dtt, x, y, z, vx, vy, vz, Ex, Ey, Ez, Bx, By, Bz, mass, charge):
        arrs = [x, y, z, vx, vy, vz]
        ins = arrs + [lift(v) for v in (Ex, Ey, Ez, Bx, By, Bz)]
        for v in ins[1:]:
            E.same_len(v.n, x.n, 'boris_step arguments')
        rd = [v.snap() for v in ins]
        par = [E.as_real(Z(v)) for v in (Dtt, mass, charge)]
        vals = [E.SArr(E.Buf(E.Fn(lambda i, k=k: F[k](*[r(i) for r in rd], par[0], par[1], par[2])), (x.n,), 'r')) for k in XV]
        for t, v in zip(arrs, vals):
            t[:] = v
    return boris_step


def natives(ld):
    ld.natives['int_field_for'] = types.SimpleNamespace(int_field=None)
    ld.natives['boris_step'] = types.SimpleNamespace(boris_step=None)
    ld.natives['hist_for'] = hist_native()


def h_driver(ld, custom_dt):
    natives(ld)
    M = ld.get('dynamics_Boris_f2py')

    def run(c):
        F = {k: fn('boris_' + k, *([R] * 15 + [R])) for k in XV}
        M.boris_step = kernel_stub(c, F)
        mpm = ld.get('MP_system')
        mp = mp_container(mpm, c)
        N, L = mp.N_mp.z, mp.x_mp.nz
        Ex, Ey = inp_arr('Ex', mp.N_mp), inp_arr('Ey', mp.N_mp)
        exs, eys = Ex.snap(), Ey.snap()
        old = snapshot(mp, [k + '_mp' for k in XV] + ['nel_mp'])
        nsub = inp_int('N_sub_steps', lambda v: v >= 1)
        Dt = inp_real('Dt', lambda v: v > 0)
        bf = [fn('Bmap_%s' % k, R, R, R) for k in 'xyz']

        class BOb(object):
            def get_B(self, xn, yn):
                return tuple(E.ew(lambda a, b, f=f: f(a, b), xn, yn) for f in bf)
        pu = M.pusher_Boris(Dt, 0., 0., 0., None, 1., N_sub_steps=nsub) if not custom_dt else M.pusher_Boris(
            inp_real('Dt0', lambda v: v > 0), 0., 0., 0., None, 1., N_sub_steps=inp_int('nsub0', lambda v: v >= 1))
        pu.B_ob = BOb()
        h = Dt.z / z3.ToReal(nsub.z)
        if custom_dt:
            h = inp_real('Dt_substep').z
        Kp = inp_int('slot', lambda v: v >= 0, lambda v: v < L).z
        c.note_index((Kp,))
        st = {k: fn('st_' + k, I, R) for k in XV}
        for k in XV:
            c.fact(st[k](z3.IntVal(0)) == old[k + '_mp'](Kp))

        def step(s):
            x = [st[k](s) for k in XV]
            a = x + [exs(Kp), eys(Kp), z3.RealVal(0)] + [f(x[0], x[1]) for f in bf] + [h, mp.mass.z, mp.charge.z]
            c.fact_once(('st', s), lambda: [st[k](s + 1) == F[k](*a) for k in XV])
        c.kern = dict(mp=mp, K=Kp, N=N, st=st, step=step, old=old)
        if custom_dt:
            r = pu.stepcustomDt(mp, Ex, Ey, Dt_substep=W(h), N_sub_steps=nsub)
        else:
            r = pu.step(mp, Ex, Ey)
        c.prove('the same cloud is returned', z3.BoolVal(r is mp))
        for k in XV:
            v = getattr(mp, k + '_mp').at(Kp)
            c.prove('%s: exactly the configured number of sub-steps of the same length for every live macroparticle' % k, z3.Implies(Kp < N, v == st[k](nsub.z)))
            c.prove('%s: unused slots untouched' % k, z3.Implies(Kp >= N, v == old[k + '_mp'](Kp)))
        c.prove('charges and number of macroparticles untouched', z3.And(mp.nel_mp.at(Kp) == old['nel_mp'](Kp), mp.N_mp.z == N))
        c.prove('total time of the sub-steps is the time step', h * z3.ToReal(nsub.z) == Dt.z) if not custom_dt else None
        c.unit.cover('returns')
    return run


def inv_driver(c, loc, loop):
    g = getattr(c, 'kern', None)
    if not g:
        return []
    g['step'](loop.index)
    g['step'](loop.index - 1)
    out = []
    for k in XV:
        v = getattr(g['mp'], k + '_mp').at(g['K'])
        out.append(('state %s' % k, 's', lambda v=v, k=k: v == z3.If(g['K'] < g['N'], g['st'][k](loop.index), g['old'][k + '_mp'](g['K']))))
    return out


def h_fields(ld):
    natives(ld)
    M = ld.get('dynamics_Boris_f2py')

    def run(c):
        n = inp_int('n', lambda v: v >= 0)
        x, y = inp_arr('x', n), inp_arr('y', n)
        xs, ys = x.snap(), y.snap()
        b = [inp_real('B0' + k) for k in 'xyz']
        g = inp_real('grad')

        def chk(nm, r, spec):
            for k in range(3):
                c.prove('%s: one value per particle' % nm, lift(r[k]).nz == n.z)
                v = lift(r[k]).snap()
                c.prove_forall('%s: B%s' % (nm, 'xyz'[k]), n, lambda i: v(i) == spec(i)[k])
            c.prove_forall('%s: positions untouched' % nm, n, lambda i: z3.And(x.at(i) == xs(i), y.at(i) == ys(i)))
        nsub = inp_int('nsub', lambda v: v >= 1)
        Dt = inp_real('Dt', lambda v: v > 0)
        pu = M.pusher_Boris(Dt, b[0], b[1], b[2], None, g, N_sub_steps=nsub)
        chk('uniform field', pu.B_ob.get_B(x, y), lambda i: [v.z for v in b])
        pq = M.pusher_Boris(Dt, b[0], b[1], b[2], 'analytic_qaudrupole_unit_grad', g, N_sub_steps=nsub)
        chk('quadrupole', pq.B_ob.get_B(x, y), lambda i: [g.z * ys(i) + b[0].z, g.z * xs(i) + b[1].z, b[2].z])
        # field map
        fx = [fn('gather_%s' % k, R, R, R) for k in 'xyz']
        nx, ny = inp_int('nx', lambda v: v >= 2), inp_int('ny', lambda v: v >= 2)
        xx = inp_arr('xx', nx)
        yy = inp_arr('yy', ny)
        maps = {k: E.fresh_arr('map' + k, (nx, ny), 'r') for k in ('Bx', 'By', 'Bz')}
        for has in (True, False):
            d = dict(Bx=maps['Bx'], By=maps['By'], xx=xx, yy=yy)
            if has:
                d['Bz'] = maps['Bz']
            M.sio = types.SimpleNamespace(loadmat=lambda f: d)
            M.squeeze = lambda a: a
            calls = []

            def int_field(xn, yn, bx, by, dx, dy, ex, ey):
                calls.append((bx, by, dx, dy, ex, ey, xn, yn))
                j = len(calls) - 1
                return tuple(E.ew(lambda p, q_, f=f: f(p, q_), xn, yn) for f in (fn('ga%d' % (2 * j), R, R, R), fn('ga%d' % (2 * j + 1), R, R, R)))
            M.iff = types.SimpleNamespace(int_field=int_field)
            M.min = lambda a: W(fn('min_' + a.buf.layer.name if hasattr(a.buf.layer, 'name') else 'minv', I, R)(z3.IntVal(0)))
            pf = M.pusher_Boris(Dt, b[0], b[1], b[2], 'file.mat', g, N_sub_steps=nsub)
            r = pf.B_ob.get_B(x, y)
            exp = [(0, 0, 'Bx'), (0, 1, 'By')] + ([(1, 0, 'Bz')] if has else [])
            for j, s, nm in exp:
                e = calls[j][4 + s]
                ee = lift(e)
                I_, J_ = c.skolem_int('a'), c.skolem_int('b')
                c.prove('field map %s: rescaled map is interpolated' % nm, ee.at(I_, J_) == g.z * maps[nm].at(I_, J_))
                c.prove('field map: grid steps', z3.And(Z(calls[j][2]) == xx.at(z3.IntVal(1)) - xx.at(z3.IntVal(0)), Z(calls[j][3]) == yy.at(z3.IntVal(1)) - yy.at(z3.IntVal(0))))
            ga = lambda k: fn('ga%d' % k, R, R, R)
            chk('field map', r, lambda i: [ga(0)(xs(i), ys(i)) + b[0].z, ga(1)(xs(i), ys(i)) + b[1].z, (ga(2)(xs(i), ys(i)) if has else 0) + b[2].z])
        c.unit.cover('returns')
    return run


def h_multi(ld, b0, bn, skew):
    """multipole driver: arguments handed to the C kernel through the Cython wrapper"""
    calls = []

    def boris_c(*a):
        calls.append(a)
        arrs = a[4:10]
        rd = [lift(v).snap() for v in a[4:15]]
        for v in a[10:15]:
            E.same_len(lift(v).n, arrs[0].n, 'boris_c arrays')
        for k, t in zip(XV, arrs):
            t[:] = E.SArr(E.Buf(E.Fn(lambda i, k=k: fn('boris_c_' + k, *([R] * 12))(*[r(i) for r in rd])), (t.n,), 'r'))
    w = native.load(ld, 'boris_cython', 'boris_cython.pyx', native.pyx(['boris_step_multipole']))
    w.boris_c = boris_c
    ld.natives['hist_for'] = hist_native()
    M = ld.get('dynamics_Boris_multipole')

    def run(c):
        del calls[:]
        mpm = ld.get('MP_system')
        mp = mp_container(mpm, c)
        N, L = mp.N_mp.z, mp.x_mp.nz
        Ex, Ey = inp_arr('Ex', mp.N_mp), inp_arr('Ey', mp.N_mp)
        nsub = inp_int('N_sub_steps', lambda v: v >= 1)
        Dt = inp_real('Dt', lambda v: v > 0)
        Bm = [inp_real('B_multip%d' % k) for k in range(4)]
        Sk = [inp_real('B_skew%d' % k) for k in range(4)]
        kb = [inp_real('B0' + k) if b0 else None for k in 'xyz']
        bext = [inp_arr('B%s_n' % k, mp.N_mp) if bn else None for k in 'xyz']
        bsn = [b.snap() if bn else None for b in bext]
        pu = M.pusher_Boris_multipole(Dt, N_sub_steps=nsub, B_multip=Bm, B_skew=Sk if skew else None, B0x=kb[0], B0y=kb[1], B0z=kb[2])
        old = snapshot(mp, [k + '_mp' for k in XV] + ['nel_mp'])
        exs, eys = Ex.snap(), Ey.snap()
        r = pu.step(mp, Ex, Ey, Bx_n=bext[0], By_n=bext[1], Bz_n=bext[2])
        c.prove('the same cloud is returned', z3.BoolVal(r is mp))
        if not calls:
            c.prove('nothing to move', N == 0)
            c.unit.cover('empty')
            return
        c.prove('one kernel call', z3.BoolVal(len(calls) == 1))
        a = calls[0]
        c.prove('number of sub-steps', Z(a[0]) == nsub.z)
        c.prove('sub-step length', Z(a[1]) * z3.ToReal(nsub.z) == Dt.z)
        import math
        for k in range(4):
            c.prove('field strengths are the multipoles over the factorial', z3.And(lift(a[2]).at(z3.IntVal(k)) * math.factorial(k) == Bm[k].z,
                    lift(a[3]).at(z3.IntVal(k)) * math.factorial(k) == (Sk[k].z if skew else 0)))
        c.prove('number of multipoles and particles', z3.And(Z(a[17]) == 4, Z(a[16]) == N))
        c.prove('charge and mass', z3.And(Z(a[18]) == mp.charge.z, Z(a[19]) == mp.mass.z))
        if b0 or bn:
            c.prove('custom field switched on', Z(a[15]) != 0)
        i = c.skolem_int()
        c.fact(z3.And(i >= 0, i < L))
        bx = [(kb[k].z if b0 else 0) + (bsn[k](i) if bn else 0) for k in range(3)]
        ins = [old[k + '_mp'](i) for k in XV] + [exs(i), eys(i)] + [E.as_real(Z(v)) for v in bx]
        for k in XV:
            v = getattr(mp, k + '_mp').at(i)
            c.prove('%s of the live macroparticles: kernel applied to their own state and fields' % k, z3.Implies(i < N, v == fn('boris_c_' + k, *([R] * 12))(*ins)))
            c.prove('%s: unused slots untouched' % k, z3.Implies(i >= N, v == old[k + '_mp'](i)))
        c.prove('charges and number of macroparticles untouched', z3.And(mp.nel_mp.at(i) == old['nel_mp'](i), mp.N_mp.z == N))
        c.unit.cover('returns')
    return run
