"""Contracts of the chamber classes: classification of points, impact points and normals."""
import types
from .common import *
from pv import native

num = E.num


# ------------------------------------------------------------------ elliptic chamber
def ell(ld, c):
    M = ld.get('geom_impact_ellip')
    a, b = inp_real('x_aper', lambda v: v > 0), inp_real('y_aper', lambda v: v > 0)
    ch = M.ellip_cham_geom_object(a, b, flag_verbose_file=False)
    return M, ch, a.z, b.z


def h_ellip_outside(ld):
    ld.get('geom_impact_ellip')

    def run(c):
        M, ch, a, b = ell(ld, c)
        n = inp_int('n', lambda v: v >= 0)
        x, y = inp_arr('x', n), inp_arr('y', n)
        xs, ys = x.snap(), y.snap()
        out = ch.is_outside(x, y)
        c.prove('one flag per point', lift(out).nz == n.z)
        i = c.skolem_int()
        c.fact(z3.And(i >= 0, i < n.z))
        o = lift(out).at(i)
        X, Y = xs(i), ys(i)
        u, w = z3.Real('u'), z3.Real('w')
        c.fact(z3.And(u * a == X, w * b == Y))
        c.prove('normalised coordinates', z3.And(X / a == u, Y / b == w))
        c.fact(z3.And(X / a == u, Y / b == w))
        c.prove('outside exactly on or beyond the ellipse', o == (u * u + w * w >= 1))
        c.prove('the aperture bounds the inside', z3.Implies(z3.Not(u * u + w * w >= 1), z3.And(u < 1, u > -1, w < 1, w > -1)))
        c.fact(z3.Implies(z3.Not(u * u + w * w >= 1), z3.And(u < 1, u > -1, w < 1, w > -1)))
        c.prove('inside points lie in the bounding box', z3.Implies(z3.Not(o), z3.And(X < a, X > -a, Y < b, Y > -b)))
        c.prove('positions untouched', z3.And(x.at(i) == X, y.at(i) == Y))
        c.unit.cover('returns')
    return run


def quad(u, v, p, q):
    A = (p - u) * (p - u) + (q - v) * (q - v)
    B = u * (p - u) + v * (q - v)
    C = u * u + v * v - 1
    return A, B, C


def h_quad(ld):
    """geometry of the unit circle (all chambers are scaled to it): the crossing of the segment is unique and everything before it is inside"""
    def run(c):
        u, v, p, q, t, r, s = [z3.Real(k) for k in 'uvpqtrs']
        A, B, C = quad(u, v, p, q)
        X = lambda t: t * p + (1 - t) * u
        Y = lambda t: t * q + (1 - t) * v
        c.prove('squared radius along the segment', X(t) * X(t) + Y(t) * Y(t) - 1 == A * t * t + 2 * B * t + C)
        c.prove('squared radius at the end', p * p + q * q - 1 == A + 2 * B + C)
        a, b, g = [z3.Real(k) for k in ('A', 'B', 'C')]
        pos = z3.And(g < 0, a + 2 * b + g >= 0, a >= 0, z3.Implies(a == 0, b == 0))
        c.prove('the end points differ', z3.Implies(pos, a > 0))
        c.prove('the discriminant is positive', z3.Implies(z3.And(g < 0, a > 0), b * b - a * g > 0))
        f = lambda t: a * t * t + 2 * b * t + g
        c.prove('chord identity', f(r * t) == r * f(t) + (1 - r) * g - a * t * t * r * (1 - r))
        c.unit.cover('returns')
    return run


def h_ellip(ld):
    ld.get('geom_impact_ellip')

    def run(c):
        M, ch, a, b = ell(ld, c)
        n = inp_int('n', lambda v: v >= 0)
        un = {k: E.fresh_arr(k, (n,), 'r') for k in ('u_in', 'v_in', 'u_out', 'v_out')}
        us = {k: v.snap() for k, v in un.items()}
        arr = {k: W(b if '_' in k and k[0] == 'y' else a) * un[{'x': 'u', 'y': 'v'}[k[0]] + k[1:]] for k in ('x_in', 'x_out', 'y_in', 'y_out')}
        arr.update({k: inp_arr(k, n) for k in ('z_in', 'z_out')})
        s = {k: v.snap() for k, v in arr.items()}

        def G(i):
            u, v, p, q = (us[k](i) for k in ('u_in', 'v_in', 'u_out', 'v_out'))
            return (u, v, p, q) + quad(u, v, p, q)
        # preconditions and their consequences (proved for all values in the unit "unit circle")
        gA, gB, gC = [fn(k, I, R) for k in ('ghost_A', 'ghost_B', 'ghost_C')]
        pre = lambda i: z3.Implies(z3.And(i >= 0, i < n.z), z3.And(
            G(i)[6] < 0, G(i)[2] * G(i)[2] + G(i)[3] * G(i)[3] >= 1, G(i)[4] > 0, G(i)[5] * G(i)[5] - G(i)[4] * G(i)[6] > 0))
        c.instantiators.append(pre)
        root = []

        def isnan(t0):
            ts = t0.snap()
            i = c.skolem_int()
            c.fact(z3.And(i >= 0, i < n.z))
            u, v, p, q, A, B, C = G(i)
            t = ts(i)
            c.prove('backtracking parameter solves the crossing equation', A * t * t + 2 * B * t + C == 0)
            c.prove('backtracking parameter is positive', t > 0)
            c.forget(i)
            ga, gb, gc, tt = z3.Reals('ga gb gc tt')
            c.prove('the crossing is not beyond the end of the segment', z3.Implies(z3.And(
                ga > 0, gc < 0, tt > 0, ga * tt * tt + 2 * gb * tt + gc == 0, ga + 2 * gb + gc >= 0), tt <= 1))
            f = lambda i, r: (r * G(i)[2] + (1 - r) * G(i)[0]) * (r * G(i)[2] + (1 - r) * G(i)[0]) + (r * G(i)[3] + (1 - r) * G(i)[1]) * (r * G(i)[3] + (1 - r) * G(i)[1])
            R99 = num(.99)

            i = c.skolem_int()
            c.fact(z3.And(i >= 0, i < n.z))
            u, v, p, q, A, B, C = G(i)
            t = ts(i)
            c.prove('radius just before the crossing', f(i, R99 * t) - 1 == R99 * (A * t * t + 2 * B * t + C) + (1 - R99) * C - A * t * t * R99 * (1 - R99))
            ga, gb, gc, tt = z3.Reals('ga gb gc tt')
            c.prove('chord below the wall', z3.Implies(z3.And(ga > 0, gc < 0, tt > 0, ga * tt * tt + 2 * gb * tt + gc == 0),
                                                       R99 * (ga * tt * tt + 2 * gb * tt + gc) + (1 - R99) * gc - ga * tt * tt * R99 * (1 - R99) < 0))
            c.forget(i)
            # cut: from here on the parameter is any value with the properties just proved
            t0.buf.set_layer(E.fresh_arr('tau', (n,), 'r').buf.layer)
            ts = t0.snap()
            root.append(ts)
            c.instantiators.remove(pre)
            # from the two obligations just discharged, at every index
            c.instantiators.append(lambda i: z3.Implies(z3.And(i >= 0, i < n.z), z3.And(f(i, R99 * ts(i)) < 1, f(i, z3.RealVal(0)) < 1, ts(i) > 0, ts(i) <= 1)))
            return np.zeros(t0.shape_[0], bool)
        M.isnan = isnan
        imp = {}
        R99 = num(.99)

        def at(i, t, k):
            return t * s[k + '_out'](i) + (1 - t) * s[k + '_in'](i)

        def point(xt, yt):
            """contract of the impact point, stated on the values the program has just computed"""
            if not root:
                raise E.Unsupported('crossing parameter not found in impact_point_and_normal')
            tau = root[0]
            i = inp_int('impact', lambda v: v >= 0, lambda v: v < n.z).z
            c.note_index((i,))
            T = R99 * tau(i)
            got = {'x': xt(i), 'y': yt(i)}
            start = z3.And(*[got[k] == s[k + '_in'](i) for k in 'xy'])
            on = z3.And(*[got[k] == at(i, T, k) for k in 'xy'])
            c.prove('impact point on the segment: just before the crossing, or at the start', z3.Or(on, start))
            c.fact(z3.Or(on, start))
            dx, dy = [s[k + '_in'](i) - s[k + '_out'](i) for k in 'xy']
            near = (dx * dx + dy * dy) / (s['x_out'](i) * s['x_out'](i) + s['y_out'](i) * s['y_out'](i)) < num(1e-8)
            c.prove('the start is reported only within the first percent of the segment or for coinciding points', z3.Or(on, T < num(1e-2), near))
            xn, yn = z3.Real('xn'), z3.Real('yn')
            u, v, p, q, A, B, C = G(i)
            ins = z3.Or(z3.And(xn == T * p + (1 - T) * u, yn == T * q + (1 - T) * v), z3.And(xn == u, yn == v))
            bound = lambda r: (r * p + (1 - r) * u) * (r * p + (1 - r) * u) + (r * q + (1 - r) * v) * (r * q + (1 - r) * v) < 1
            TT, U0, V0, P0, Q0 = z3.Reals('TT U0 V0 P0 Q0')
            ren = lambda f: z3.substitute(f, (tau(i), TT / R99), (u, U0), (v, V0), (p, P0), (q, Q0))
            c.prove('bounds before the crossing', z3.And(bound(T), u * u + v * v < 1))
            del c.facts[mark:]
            c.resync()
            c.prove('impact point strictly inside (normalised)', ren(z3.Implies(z3.And(ins, bound(T), u * u + v * v < 1), xn * xn + yn * yn < 1)))
            c.fact(z3.Or(z3.And(on, xn == T * p + (1 - T) * u, yn == T * q + (1 - T) * v), z3.And(start, xn == u, yn == v)))
            c.prove('impact point in normalised coordinates', z3.And(got['x'] == a * xn, got['y'] == b * yn))
            c.forget(i)

        def arctan2(py, px):
            """angle of the impact point: its contract is proved here, from here on the point is any value (named impX, impY)"""
            if imp:
                raise E.Unsupported('second angle')
            j = z3.Int(c.fresh_name('probe'))
            xt, yt = E.z_div(px.at(j), b), E.z_div(py.at(j), a)
            bufs = {'x': [], 'y': []}
            for bf in c.bufs:
                if bf.kind != 'r' or len(bf.shape) != 1:
                    continue
                try:
                    t = bf.layer.read((j,))
                except Exception:
                    continue
                for k, w in (('x', xt), ('y', yt)):
                    if t.eq(w):
                        bufs[k].append(bf)
            if not bufs['x'] or not bufs['y']:
                raise E.Unsupported('impact coordinates not identified')
            lx, ly = bufs['x'][0].layer, bufs['y'][0].layer
            point(lambda i: lx.read((i,)), lambda i: ly.read((i,)))
            X, Y = E.fresh_arr('impX', (n,), 'r'), E.fresh_arr('impY', (n,), 'r')
            for k, F in (('x', X), ('y', Y)):
                for bf in bufs[k]:
                    bf.set_layer(F.buf.layer)
                imp[k] = F.snap()
            th = E.fresh_arr('theta', (n,), 'r')
            rho = fn('ang_rho', I, R)

            def facts(i):
                t = th.at(i)
                sn, cs = E.z_sin(W(t).z), E.z_cos(W(t).z)
                x, y, r = imp['x'](i), imp['y'](i), rho(i)
                return z3.Implies(z3.And(i >= 0, i < n.z), z3.And(
                    r >= 0, r * r == (b * x) * (b * x) + (a * y) * (a * y), sn * r == a * y, cs * r == b * x,
                    b * cs * x + a * sn * y == r, (b * cs) * (b * cs) + (a * sn) * (a * sn) > 0))
            S0, C0, X0, Y0, r0 = z3.Reals('S0 C0 X0 Y0 r0')
            hyp = z3.And(r0 >= 0, r0 * r0 == (b * X0) * (b * X0) + (a * Y0) * (a * Y0), S0 * r0 == a * Y0, C0 * r0 == b * X0, S0 * S0 + C0 * C0 == 1)
            c.prove('projection on the radius', z3.Implies(hyp, (b * C0 * X0 + a * S0 * Y0) * r0 == r0 * r0))
            c.prove('projection on the radius, centre', z3.Implies(z3.And(hyp, r0 == 0), z3.And(b * X0 == 0, a * Y0 == 0)))
            c.prove('projection on the radius at the centre', z3.Implies(z3.And(X0 == 0, Y0 == 0, r0 == 0), b * C0 * X0 + a * S0 * Y0 == r0))
            c.prove('tangent does not vanish', z3.Implies(S0 * S0 + C0 * C0 == 1, (b * C0) * (b * C0) + (a * S0) * (a * S0) > 0))
            c.instantiators.clear()
            c.instantiators.append(facts)
            del c.facts[mark:]
            c.fact(z3.And(a > 0, b > 0, n.z >= 0))
            c.resync()
            return th
        M.arctan2 = arctan2
        mark = len(c.facts)
        r = ch.impact_point_and_normal(*[arr[k] for k in ('x_in', 'y_in', 'z_in', 'x_out', 'y_out', 'z_out')])
        if not imp:
            raise E.Unsupported('angle of the impact point not found in impact_point_and_normal')
        X, Y, Zi, NX, NY, seg = r
        for v in (X, Y, Zi, NX, NY):
            c.prove('one value per impact', lift(v).nz == n.z)
        i = inp_int('impact', lambda v: v >= 0, lambda v: v < n.z).z
        c.note_index((i,))
        x, y = imp['x'](i), imp['y'](i)
        c.prove('the impact point reported is the one verified', z3.And(lift(X).at(i) == x, lift(Y).at(i) == y))
        c.prove('inputs untouched', z3.And(*[arr[k].at(i) == s[k](i) for k in arr]))
        c.prove('impacts counted', Z(ch.N_mp_impact) == n.z)
        nx, ny = lift(NX).at(i), lift(NY).at(i)
        c.prove('unit normal', nx * nx + ny * ny == 1)
        gx, gy = b * b * x, a * a * y
        c.prove('normal to the (homothetic) wall through the impact point', nx * gy - ny * gx == 0)
        c.prove('normal points inwards', z3.Implies(z3.Or(x != 0, y != 0), nx * gx + ny * gy < 0))
        c.unit.cover('returns')
    return run
