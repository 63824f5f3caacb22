"""Contracts of the polygonal chamber: Cython kernels (crossing search, classification) and their Python wrapper."""
import types
from .common import *
from pv import native

num = E.num
MOD = 'geom_impact_poly_cython'


def kern(ld, name):
    return getattr(native.load(ld, MOD, 'geom_impact_poly_cython.pyx', native.pyx([name])), name)


def polygon(c, normals=True):
    N = inp_int('N_edg', lambda v: v >= 1)
    Vx, Vy = inp_arr('Vx', N + 1), inp_arr('Vy', N + 1)
    Nx, Ny = inp_arr('Nx', N), inp_arr('Ny', N)
    return N, Vx, Vy, Nx, Ny


HIT, CROSS = fn('edge_is_crossed', I, R, R, R, R, B), fn('crossing_parameter', I, R, R, R, R, R)


class Edge(object):
    """crossing of the segment (xi, yi) -> (xo, yo) with edge e: the specified predicate and parameter, named"""
    def __init__(self, P, e, s):
        self.P, self.e, self.s = P, e, s
        self.hit, self.t = HIT(e, *s), CROSS(e, *s)

    def define(self):
        """definition of the two names at this edge (with the slope lemma proved in h_search)"""
        xi, yi, xo, yo = [W(v) for v in self.s]
        e = self.e
        Vx, Vy, Nx, Ny = [(lambda k, p=p: W(p(k))) for p in self.P]
        den = (yo - yi) * (Vx(e + 1) - Vx(e)) + (xi - xo) * (Vy(e + 1) - Vy(e))
        num_ = (yo - yi) * (xi - Vx(e)) + (xi - xo) * (yi - Vy(e))
        nd = Nx(e) * (xo - xi) + Ny(e) * (yo - yi)
        nn = Nx(e) * (Vx(e) - xi) + Ny(e) * (Vy(e) - yi)
        self.den, self.nd, den = den.z, nd.z, den.z
        along, t = E.z_div(num_.z, den), E.z_div(nn.z, nd.z)
        # the segment meets the edge (not only its line) at a parameter in [0, 1]
        return [CROSS(e, *self.s) == t, HIT(e, *self.s) == z3.And(den != 0, along >= 0, along <= 1, t >= 0, t <= 1)]


def h_search(ld):
    f = kern(ld, 'impact_point_and_normal')

    def run(c):
        n = inp_int('N_impacts', lambda v: v >= 0)
        N, Vx, Vy, Nx, Ny = polygon(c)
        P = [a.snap() for a in (Vx, Vy, Nx, Ny)]
        # normals: perpendicular to their edge, non-degenerate (established by the constructor)
        L = fn('edge_length', I, R)
        a = {k: inp_arr(k, n) for k in ('x_in', 'y_in', 'z_in', 'x_out', 'y_out', 'z_out')}
        s = {k: v.snap() for k, v in a.items()}
        q = z3.Reals('dvx dvy ex ey nx ny Lq')
        c.prove('the slope of the distance from the edge line is the cross product over the edge length', z3.Implies(
            z3.And(q[4] * q[6] == -q[1], q[5] * q[6] == q[0]), q[3] * q[0] + (-q[2]) * q[1] == q[6] * (q[4] * q[2] + q[5] * q[3])))
        c.prove('a product with a positive length vanishes with the other factor', z3.Implies(q[6] > 0, (q[6] * q[0] == 0) == (q[0] == 0)))
        resc = inp_real('resc_fac', lambda v: v > 0, lambda v: v <= 1)
        K = inp_int('impact', lambda v: v >= 0, lambda v: v < n.z).z
        J = inp_int('edge', lambda v: v >= 0, lambda v: v < N.z).z
        c.kern = dict(P=P, N=N.z, J=J, K=K, s=s, L=L, resc=resc.z)
        r = f(*[a[k] for k in ('x_in', 'y_in', 'z_in', 'x_out', 'y_out', 'z_out')], Vx, Vy, Nx, Ny, N, resc)
        for v in r:
            c.prove('one value per impact', lift(v).nz == n.z)
        x, y, z, nx, ny, seg = [lift(v).at(K) for v in r]
        seg_t = [s[k](K) for k in ('x_in', 'y_in', 'x_out', 'y_out')]
        for nm, g in post(c.kern, seg_t, K, x, y, nx, ny, seg):
            c.prove(nm, g)
        c.prove('segment number in range', z3.And(seg >= 0, seg < N.z))
        for k in a:
            c.prove('inputs untouched', a[k].at(K) == s[k](K))
        c.unit.cover('returns')
    return run


def post(g, st, K, x, y, nx, ny, seg):
    P, J = g['P'], g['J']
    F = Edge(P, seg, st)
    EJ = Edge(P, J, st)
    at = lambda t: z3.And(x == g['resc'] * t * st[2] + (1 - g['resc'] * t) * st[0], y == g['resc'] * t * st[3] + (1 - g['resc'] * t) * st[1])
    found = z3.And(seg >= 0, seg < g['N'], F.hit, at(F.t), nx == P[2](seg), ny == P[3](seg))
    none = z3.And(z3.Not(EJ.hit), nx == 0, ny == 0, at(z3.RealVal(1)))
    return [('reported edge is crossed, the point is at the crossing (scaled) and the normal is that of the edge, or no edge is crossed', z3.Or(found, none)),
            ('no edge is crossed earlier', z3.Implies(z3.And(EJ.hit, seg >= 0, seg < g['N'], z3.Or(nx != 0, ny != 0)), F.t <= EJ.t))]


def slope(c, g, e, cs):
    """instance of the slope lemma proved in h_search (its hypothesis is the precondition on the normals)"""
    E_ = Edge(g['P'], e, cs)
    d = E_.define()
    c.fact_once(('slope', e) + tuple(cs), lambda: d + [z3.Implies(z3.And(e >= 0, e < g['N']), (E_.den == 0) == (E_.nd == 0))])


def inv_search(c, loc, loop):
    g = getattr(c, 'kern', None)
    if not g or not isinstance(loc.get('i_imp'), (S, int)):
        if not g:
            return []
    ordn = loop.key.split('#')[1]
    out = []
    arrs = [loc.get(k) for k in ('x_int', 'y_int', 'Nx_int', 'Ny_int', 'i_found')]
    if not all(isinstance(v, SArr) for v in arrs):
        return []
    K = g['K']
    st = [g['s'][k](K) for k in ('x_in', 'y_in', 'x_out', 'y_out')]
    vals = [v.at(K) for v in arrs]
    done = K < loop.index if ordn == '0' else (K < Z(loc['i_imp']))
    for j, (nm, goal) in enumerate(post(g, st, K, *vals)):
        out.append(('finished impacts %d' % j, 's', lambda goal=goal: z3.Implies(done, goal)))
    out.append(('later impacts blank', 's', lambda: z3.Implies(z3.Not(done), z3.And(vals[2] == 0, vals[3] == 0, vals[4] == 0))))
    out.append(('segment number in range', 's', lambda: z3.And(vals[4] >= 0, vals[4] < g['N'])))
    if ordn != '0':
        cs = [Z(loc[k]) for k in ('x_in_curr', 'y_in_curr', 'x_out_curr', 'y_out_curr')]
        t, F = E.as_real(Z(loc['t_min_curr'])), Z(loc['i_found_curr'])
        fl = Z(loc['fould_curr'])
        fl = E.as_bool(fl) if fl.sort() != I else fl != 0
        EF, EJ = Edge(g['P'], F, cs), Edge(g['P'], g['J'], cs)
        ii = loop.index
        slope(c, g, ii, cs)
        out.append(('earliest crossing so far', 's', lambda: z3.Or(
            z3.And(fl, F >= 0, F < ii, EF.hit, t == EF.t, t <= 1), z3.And(z3.Not(fl), F == -1, t == 1))))
        out.append(('flag', 's', lambda: fl == (F >= 0)))
        out.append(('no earlier crossing among the edges seen', 's', lambda: z3.Implies(z3.And(g['J'] < ii, EJ.hit), z3.And(fl, t <= EJ.t))))
    return out


# ------------------------------------------------------------------ classification
def cross_in(P, e, x, y):
    return (y - P[1](e)) * (P[0](e + 1) - P[0](e)) - (x - P[0](e)) * (P[1](e + 1) - P[1](e))


def h_convex(ld):
    f = kern(ld, 'is_outside_convex')

    def run(c):
        n = inp_int('N_mp', lambda v: v >= 0)
        N, Vx, Vy, Nx, Ny = polygon(c)
        P = [a.snap() for a in (Vx, Vy)]
        cx, cy = inp_real('cx', lambda v: v > 0), inp_real('cy', lambda v: v > 0)
        x, y = inp_arr('x', n), inp_arr('y', n)
        xs, ys = x.snap(), y.snap()
        K = inp_int('point', lambda v: v >= 0, lambda v: v < n.z).z
        J = inp_int('edge', lambda v: v >= 0, lambda v: v < N.z).z
        c.note_index((K,))
        inside = z3.Bool('left_of_every_edge')
        # definition of the ghost: the point K is strictly on the inner side of every edge
        c.instantiators.append(lambda e: z3.Implies(z3.And(inside, e >= 0, e < N.z), cross_in(P, e, xs(K), ys(K)) > 0))
        c.note_index((J,))
        u, w = E.z_div(xs(K), cx.z), E.z_div(ys(K), cy.z)
        ell = u * u + w * w <= 1
        c.kern = dict(P=P, K=K, J=J, N=N.z, xs=xs, ys=ys, inside=inside, ell=ell)
        r = lift(f(x, y, Vx, Vy, cx, cy, N))
        c.prove('one flag per point', r.nz == n.z)
        o = E.as_bool(r.at(K))
        c.prove('points of the inscribed ellipse are inside', z3.Implies(ell, z3.Not(o)))
        c.prove('points on the inner side of every edge are inside', z3.Implies(inside, z3.Not(o)))
        c.prove('any other point is outside', z3.Implies(z3.And(z3.Not(ell), cross_in(P, J, xs(K), ys(K)) <= 0), o))
        c.prove('positions untouched', z3.And(x.at(K) == xs(K), y.at(K) == ys(K)))
        c.unit.cover('returns')
    return run


def flag(v):
    v = Z(v)
    return v != 0 if v.sort() == I else E.as_bool(v)


def inv_convex(c, loc, loop):
    g = getattr(c, 'kern', None)
    v = loc.get('flag_outside_vec')
    if not g or not isinstance(v, SArr):
        return []
    outer = loop.key.split('#')[1] == '0'
    K, J = g['K'], g['J']
    o = v.at(K)
    o = o != 0 if o.sort() == I else E.as_bool(o)
    done = K < (loop.index if outer else Z(loc['i_mp']))
    cj = cross_in(g['P'], J, g['xs'](K), g['ys'](K))
    out = [('classified so far', 's', lambda: z3.Implies(done, z3.And(z3.Implies(z3.Or(g['ell'], g['inside']), z3.Not(o)), z3.Implies(z3.And(z3.Not(g['ell']), cj <= 0), o))))]
    if not outer:
        fl, ii = flag(loc['flag_inside_curr']), Z(loc['ii'])
        here = Z(loc['i_mp']) == K
        out += [('edges tested', 's', lambda: ii >= 0),
                ('inner side of the tested edges', 's', lambda: z3.Implies(z3.And(here, fl, J < ii), cj > 0)),
                ('stopped only by an edge', 's', lambda: z3.Implies(z3.And(here, g['inside']), fl))]
    return out


def h_nonconvex(ld):
    f = kern(ld, 'is_outside_nonconvex')

    def run(c):
        n = inp_int('N_mp', lambda v: v >= 0)
        N, Vx, Vy, Nx, Ny = polygon(c)
        P = [a.snap() for a in (Vx, Vy)]
        cx, cy = inp_real('cx', lambda v: v > 0), inp_real('cy', lambda v: v > 0)
        x, y = inp_arr('x', n), inp_arr('y', n)
        xs, ys = x.snap(), y.snap()
        K = inp_int('point', lambda v: v >= 0, lambda v: v < n.z).z
        c.note_index((K,))
        X, Y = xs(K), ys(K)

        def crossed(e):
            p = z3.If(e == 0, N.z - 1, e - 1)
            a, b = (P[0](e), P[1](e)), (P[0](p), P[1](p))
            return z3.And((a[1] > Y) != (b[1] > Y), X < E.z_div(E.z_mul(b[0] - a[0], Y - a[1]), b[1] - a[1]) + a[0])
        par = fn('crossings_odd', I, B)
        c.fact(z3.Not(par(z3.IntVal(0))))

        def parity(k):
            """number of the edges before k crossed by the ray from the point is odd (definition)"""
            c.fact_once(('par', k), lambda: [z3.Implies(k >= 0, par(k + 1) == z3.Xor(par(k), crossed(k)))])
            return par(k)
        u, w = E.z_div(X, cx.z), E.z_div(Y, cy.z)
        ell = u * u + w * w <= 1
        c.kern = dict(K=K, N=N.z, ell=ell, parity=parity)
        r = lift(f(x, y, Vx, Vy, cx, cy, N))
        c.prove('one flag per point', r.nz == n.z)
        o = E.as_bool(r.at(K))
        c.prove('points of the inscribed ellipse are inside', z3.Implies(ell, z3.Not(o)))
        c.prove('any other point is inside exactly when its ray crosses the contour an odd number of times', z3.Implies(z3.Not(ell), o == z3.Not(parity(N.z))))
        c.prove('positions untouched', z3.And(x.at(K) == xs(K), y.at(K) == ys(K)))
        c.unit.cover('returns')
    return run


def inv_nonconvex(c, loc, loop):
    g = getattr(c, 'kern', None)
    v = loc.get('flag_outside_vec')
    if not g or not isinstance(v, SArr):
        return []
    outer = loop.key.split('#')[1] == '0'
    K = g['K']
    o = v.at(K)
    o = o != 0 if o.sort() == I else E.as_bool(o)
    done = K < (loop.index if outer else Z(loc['i_mp']))
    out = [('classified so far', 's', lambda: z3.Implies(done, o == z3.And(z3.Not(g['ell']), z3.Not(g['parity'](g['N'])))))]
    if not outer:
        fl, ii, jj = flag(loc['flag_inside_curr']), Z(loc['ii']), Z(loc['jj'])
        here = Z(loc['i_mp']) == K
        out += [('edges tested', 's', lambda: z3.And(ii >= 0, ii <= g['N'])),
                ('previous vertex', 's', lambda: jj == z3.If(ii == 0, g['N'] - 1, ii - 1)),
                ('parity so far', 's', lambda: z3.Implies(here, fl == g['parity'](ii)))]
    return out


# ------------------------------------------------------------------ geometry behind the crossing search (all values)
def h_lemmas(ld):
    def run(c):
        R_ = lambda s_: [z3.Real(k) for k in s_.split()]
        xi, yi, xo, yo, ax, ay, bx, by, L, nx, ny, t, s = R_('xi yi xo yo ax ay bx by L nx ny t s')
        dx, dy = bx - ax, by - ay
        nrm = z3.And(L > 0, nx * L == -dy, ny * L == dx)
        den = (yo - yi) * dx + (xi - xo) * dy
        cr = lambda x, y: (y - ay) * dx - (x - ax) * dy
        px, py = t * xo + (1 - t) * xi, t * yo + (1 - t) * yi
        c.prove('distance along the normal is the edge cross product', z3.Implies(nrm, L * (nx * (px - ax) + ny * (py - ay)) == cr(px, py)))
        c.prove('cross product is affine along the segment', cr(px, py) == t * cr(xo, yo) + (1 - t) * cr(xi, yi))
        # along = s, t: the two parameters describe the same point
        hyp = z3.And(den != 0, s * den == (yo - yi) * (xi - ax) + (xi - xo) * (yi - ay), t * den == -cr(xi, yi))
        c.prove('the crossing lies on the edge at the reported fraction, x', z3.Implies(hyp, den * (px - ax - s * dx) == 0))
        c.prove('the crossing lies on the edge at the reported fraction, y', z3.Implies(hyp, den * (py - ay - s * dy) == 0))
        # starting strictly inside, ending on the wall or beyond: the line is crossed after the start and not after the end
        I0, O0 = z3.Reals('I0 O0')
        c.prove('start inside and end not inside an edge: its line is crossed within the segment', z3.Implies(z3.And(
            I0 > 0, O0 <= 0, t * (I0 - O0) == I0), z3.And(t > 0, t <= 1)))
        c.prove('before the first crossing every edge still has the point on its inner side', z3.Implies(z3.And(
            I0 > 0, t > 0, s >= 0, s < t, z3.Implies(O0 <= 0, t * (I0 - O0) <= I0), t <= 1), s * O0 + (1 - s) * I0 > 0))
        # the first crossing of a convex contour lies within its edge (turning left at both ends)
        px_, py_ = z3.Reals('px_ py_')
        ex, ey, fx, fy = z3.Reals('ex ey fx fy')     # directions of the previous and the next edge
        c.prove('beyond the end of the edge the point is outside the next edge', z3.Implies(z3.And(
            dx * fy - dy * fx > 0, s > 1), (ay + s * dy - by) * fx - (ax + s * dx - bx) * fy < 0))
        c.prove('before the start of the edge the point is outside the previous edge', z3.Implies(z3.And(
            ex * dy - ey * dx > 0, s < 0), (ay + s * dy - ay) * ex - (ax + s * dx - ax) * ey < 0))
        c.prove('unit normal', z3.Implies(z3.And(nrm, L * L == dx * dx + dy * dy), L * L * (nx * nx + ny * ny) == L * L))
        c.prove('normal points to the inner side', z3.Implies(z3.And(nrm, L * L == dx * dx + dy * dy), cr(ax + nx, ay + ny) == L))
        c.unit.cover('returns')
    return run


# ------------------------------------------------------------------ Python wrapper of the search
def h_wrapper(ld):
    nat = types.SimpleNamespace(is_outside_convex=None, is_outside_nonconvex=None, impact_point_and_normal=None)
    ld.natives[MOD] = nat
    M = ld.get('geom_impact_poly_fast_impact')

    def run(c):
        n = inp_int('N_impacts', lambda v: v >= 0)
        N, Vx, Vy, Nx, Ny = polygon(c)
        ch = obj(M.polyg_cham_geom_object)
        ch.Vx, ch.Vy, ch.Nx, ch.Ny, ch.N_edg = Vx, Vy, Nx, Ny, N
        ch.cx, ch.cy = inp_real('cx', lambda v: v > 0), inp_real('cy', lambda v: v > 0)
        ch.N_mp_impact, ch.N_mp_corrected = inp_int('N_mp_impact'), inp_int('N_mp_corrected')
        cnt0 = ch.N_mp_impact.z
        ch.flag_verbose_stdout = ch.flag_verbose_file = False
        out = fn('outside', R, R, B)

        def isout(x, y, vx, vy, cx, cy, ne):
            ok = all(p is q for p, q in ((vx, Vx), (vy, Vy), (cx, ch.cx), (cy, ch.cy), (ne, N)))
            c.prove('classification uses the polygon of the chamber', z3.BoolVal(ok))
            return E.ew(lambda p, q: out(p, q), x, y)
        ch.cythonisoutside = isout
        a = {k: inp_arr(k, n) for k in ('x_in', 'y_in', 'z_in', 'x_out', 'y_out', 'z_out')}
        s = {k: v.snap() for k, v in a.items()}
        c.instantiators.append(lambda i: z3.Implies(z3.And(i >= 0, i < n.z), z3.Not(out(s['x_in'](i), s['y_in'](i)))))
        rec = {}

        def search(xi, yi, zi, xo, yo, zo, vx, vy, nx, ny, ne, resc):
            ok = all(p is q for p, q in ((vx, Vx), (vy, Vy), (nx, Nx), (ny, Ny), (ne, N)))
            c.prove('search uses the polygon of the chamber', z3.BoolVal(ok))
            c.prove('scale factor between 0 and 1', z3.And(E.as_real(Z(resc)) > 0, E.as_real(Z(resc)) <= 1))
            i = c.skolem_int()
            c.fact(z3.And(i >= 0, i < n.z))
            for k, v in (('x_in', xi), ('y_in', yi), ('x_out', xo), ('y_out', yo)):
                c.prove('search gets the segment', z3.And(lift(v).nz == n.z, lift(v).at(i) == s[k](i)))
            c.forget(i)
            mk = lambda k: E.fresh_arr(k, (n,), 'r')
            rec['r'] = [mk('kx'), mk('ky'), np.zeros(n), mk('knx'), mk('kny'), E.fresh_arr('kseg', (n,), 'i', lambda e, i: [e >= 0, e < N.z])]
            rec['s'] = [v.snap() for v in rec['r']]
            return tuple(rec['r'])
        nat.impact_point_and_normal = search
        r = ch.impact_point_and_normal(*[a[k] for k in ('x_in', 'y_in', 'z_in', 'x_out', 'y_out', 'z_out')])
        if 's' not in rec:
            raise E.Unsupported('no crossing search')
        i = inp_int('impact', lambda v: v >= 0, lambda v: v < n.z).z
        c.note_index((i,))
        for v in r:
            c.prove('one value per impact', lift(v).nz == n.z)
        x, y, z, nx, ny, seg = [lift(v).at(i) for v in r]
        kx, ky, kz, knx, kny, ks = [v(i) for v in rec['s']]
        c.prove('the impact point is the crossing found, or the start of the segment if that is not inside', z3.Or(
            z3.And(x == kx, y == ky), z3.And(out(kx, ky), x == s['x_in'](i), y == s['y_in'](i))))
        c.prove('no impact point is outside the chamber', z3.Not(out(x, y)))
        c.prove('normal and segment number are those of the crossed edge', z3.And(nx == knx, ny == kny, seg == ks))
        c.prove('inputs untouched', z3.And(*[a[k].at(i) == s[k](i) for k in a]))
        c.prove('impacts counted', Z(ch.N_mp_impact) == cnt0 + n.z)
        c.unit.cover('returns')
    return run


def h_isout(ld):
    """is_outside of the polygon chamber hands the points to the kernel chosen at construction"""
    nat = types.SimpleNamespace(is_outside_convex=None, is_outside_nonconvex=None, impact_point_and_normal=None)
    ld.natives[MOD] = nat
    M = ld.get('geom_impact_poly_fast_impact')

    def run(c):
        n = inp_int('N_mp', lambda v: v >= 0)
        N, Vx, Vy, Nx, Ny = polygon(c)
        ch = obj(M.polyg_cham_geom_object)
        ch.Vx, ch.Vy, ch.N_edg, ch.cx, ch.cy = Vx, Vy, N, inp_real('cx'), inp_real('cy')
        x, y = inp_arr('x', n), inp_arr('y', n)
        got = []
        ret = object()

        def k(*args):
            got.append(args)
            return ret
        ch.cythonisoutside = k
        r = ch.is_outside(x, y)
        c.prove('the kernel decides', z3.BoolVal(r is ret and len(got) == 1 and all(p is q for p, q in zip(got[0], (x, y, Vx, Vy, ch.cx, ch.cy, N)))))
        c.unit.cover('returns')
    return run
