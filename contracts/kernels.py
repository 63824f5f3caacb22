"""Contracts of the particle-mesh and histogram kernels (Fortran text translated mechanically, pv/native.py)."""
from .common import *
from pv import native

num = E.num


def kern(ld, mod, f, sub):
    return getattr(native.load(ld, mod, f, native.fortran(sub)), sub)


def prefix(c, name, term):
    """ghost prefix sum: S(0) = 0, S(k+1) = S(k) + term(k) (definition)"""
    f = fn(c.fresh_name(name), I, R)
    c.fact(f(z3.IntVal(0)) == 0)

    def at(k):
        c.fact_once((name, k), lambda: [f(k + 1) == f(k) + term(k)])
        c.fact_once((name + '-', k), lambda: [f(k) == f(k - 1) + term(k - 1)])
        return f(k)
    return at


def cell(u):
    """0-based cell index and fraction of a real index"""
    i = z3.ToInt(u)
    return i, u - z3.ToReal(i)


def cell1(u):
    """same, from the 1-based real index"""
    i = z3.ToInt(1 + u)
    return i - 1, 1 + u - z3.ToReal(i)


def share(A, u):
    """linear weight of node A for the real index u"""
    i, h = cell(u)
    return z3.If(i == A, 1 - h, z3.If(i + 1 == A, h, z3.RealVal(0)))


def weight_lemmas(c, u):
    """facts about the specified weights themselves (for an arbitrary real index)"""
    A = z3.Int(c.fresh_name('anode'))
    i, h = cell(u)
    c.prove('weights are non-negative', share(A, u) >= 0)
    c.prove('weights are one minus the distance to the node, zero beyond one cell',
            share(A, u) == z3.If(u - z3.ToReal(A) >= 1, 0, z3.If(u - z3.ToReal(A) <= -1, 0, z3.If(
                u >= z3.ToReal(A), 1 - (u - z3.ToReal(A)), 1 - (z3.ToReal(A) - u)))))
    c.prove('weights sum to one over the two nodes of the cell', share(i, u) + share(i + 1, u) == 1)
    c.prove('no other node gets a share', z3.Implies(z3.And(A != i, A != i + 1), share(A, u) == 0))
    c.prove('barycentre of the weights is the position', z3.ToReal(i) * share(i, u) + z3.ToReal(i + 1) * share(i + 1, u) == u)


def grid(c):
    g = dict(bx=inp_real('bias_x'), by=inp_real('bias_y'), nx=inp_int('Nxg', lambda v: v >= 1), ny=inp_int('Nyg', lambda v: v >= 1))
    return g


def h_rho(ld):
    f = kern(ld, 'rhocompute', 'compute_rho.f', 'compute_sc_rho')

    def run(c):
        g = grid(c)
        n = inp_int('N_mp', lambda v: v >= 0)
        Dh = inp_real('Dh', lambda v: v > 0)
        x, y, q = inp_arr('x', n), inp_arr('y', n), inp_arr('nel', n)
        xs, ys, qs = x.snap(), y.snap(), q.snap()
        A, Bn = inp_int('node_i', lambda v: v >= 0, lambda v: v < g['nx'].z), inp_int('node_j', lambda v: v >= 0, lambda v: v < g['ny'].z)
        rho = E.fresh_arr('rho0', (g['nx'], g['ny']), 'r')
        ux = lambda k: (xs(k) - g['bx'].z) / Dh.z
        uy = lambda k: (ys(k) - g['by'].z) / Dh.z
        ins = lambda k: z3.And(ux(k) >= 0, uy(k) >= 0, ux(k) < z3.ToReal(g['nx'].z - 1), uy(k) < z3.ToReal(g['ny'].z - 1))
        term = lambda k: z3.If(ins(k), E.z_mul(E.z_mul(qs(k), share(A.z, ux(k))), share(Bn.z, uy(k))), z3.RealVal(0))
        PS = prefix(c, 'deposit', term)
        c.kern = dict(rho=rho, A=A.z, B=Bn.z, PS=PS)
        f(n, x, y, q, g['bx'], g['by'], Dh, g['nx'], g['ny'], rho)
        c.prove('node density is the sum of the particle charges times their bilinear weights', rho.at(A.z, Bn.z) == PS(n.z))
        c.prove('arrays of the particles are not changed', z3.BoolVal(all(a.buf.layer is l for a, l in ((x, x.buf.layer),))))
        c.unit.cover('returns')
    return run


def inv_rho(c, loc, loop):
    k = getattr(c, 'kern', None)
    if not k:
        return []
    ix = loop.index
    v = k['rho'].at(k['A'], k['B'])
    A, B_ = k['A'] + 1, k['B'] + 1
    out = [('deposited so far', 's', lambda: v == k['PS'](ix - 1))]
    out += [('zero columns', 's', lambda: z3.Implies(B_ < ix, v == 0)), ('zero rows', 's', lambda: z3.Implies(A < ix, v == 0))]
    for nm, P, Q in (('j', B_, A), ('i', A, B_)):
        w = loc.get(nm)
        if isinstance(w, (S, int)):
            w = Z(w)
            if w.sort() == I:
                out.append(('zero block %s' % nm, 's', lambda w=w, P=P, Q=Q: z3.Implies(z3.Or(P < w, z3.And(P == w, Q < ix)), v == 0)))
    return out


def h_weights(ld):
    kern(ld, 'rhocompute', 'compute_rho.f', 'compute_sc_rho')

    def run(c):
        weight_lemmas(c, inp_real('u').z)
        c.unit.cover('returns')
    return run


def h_gather(ld, field):
    f = kern(ld, 'int_field_for', 'interp_field_for.f', 'int_field')

    def run(c):
        g = grid(c)
        n = inp_int('N_mp', lambda v: v >= 0)
        dx, dy = inp_real('dx', lambda v: v > 0), inp_real('dy', lambda v: v > 0)
        x, y = inp_arr('x', n), inp_arr('y', n)
        xs, ys = x.snap(), y.snap()
        co = [[inp_real('%s%d' % (a, k)) for k in range(3)] for a in 'xy']
        ef = []
        for k in range(2):
            lin = lambda e, i, j, k=k: [e == co[k][0].z + co[k][1].z * z3.ToReal(i) + co[k][2].z * z3.ToReal(j)]
            ef.append(E.fresh_arr('ef%d' % k, (g['nx'], g['ny']), 'r', lin if field == 'linear' else None))
        ro = [e.snap() for e in ef]
        ex, ey = np.zeros(n), np.zeros(n)
        Kp = inp_int('particle', lambda v: v >= 0, lambda v: v < n.z)
        k = Kp.z
        c.note_index((k,))
        ux, uy = (xs(k) - g['bx'].z) / dx.z, (ys(k) - g['by'].z) / dy.z
        ins = z3.And(ux >= 0, uy >= 0, ux < z3.ToReal(g['nx'].z - 1), uy < z3.ToReal(g['ny'].z - 1))
        (i, hx), (j, hy) = cell1(ux), cell1(uy)
        for u, (ii, h) in ((ux, (i, hx)), (uy, (j, hy))):
            c.prove('cell and fraction as for the deposit', z3.And(ii == cell(u)[0], h == cell(u)[1]))
        exp = []
        for a in range(2):
            r = ro[a]
            four = r(i, j) * (1 - hx) * (1 - hy) + r(i + 1, j) * hx * (1 - hy) + r(i, j + 1) * (1 - hx) * hy + r(i + 1, j + 1) * hx * hy
            exp.append(four)
        c.kern = dict(out=(ex, ey), k=k, exp=[z3.If(ins, e, z3.RealVal(0)) for e in exp])
        f(n, x, y, g['bx'], g['by'], dx, dy, ef[0], ef[1], g['nx'], g['ny'], ex, ey)
        for a, (o, nm) in enumerate(((ex, 'x'), (ey, 'y'))):
            v = o.at(k)
            if field == 'any':
                c.prove('%s field: bilinear interpolation with the deposit weights' % nm, z3.Implies(ins, v == exp[a]))
                c.prove('%s field: zero outside the grid' % nm, z3.Implies(z3.Not(ins), v == 0))
            else:
                c.prove('%s field: value of the four nodes' % nm, z3.Implies(ins, v == exp[a]))
                want = co[a][0].z + co[a][1].z * ux + co[a][2].z * uy
                c.fact(z3.Implies(ins, v == exp[a]))
                c.fact(ins)
                P = z3.Reals('hx_ hy_ iu_ ju_')
                got = z3.substitute(exp[a])
                nodes = [(ro[a](i + p, j + q), co[a][0].z + co[a][1].z * (z3.ToReal(i) + p) + co[a][2].z * (z3.ToReal(j) + q)) for p in (0, 1) for q in (0, 1)]
                for e, w in nodes:
                    c.prove('%s field: node value of a linear field' % nm, e == w)
                    c.fact(e == w)
                c.prove('%s field: linear fields are reproduced exactly' % nm, exp[a] == want)
        c.unit.cover('returns')
    return run


def inv_gather(c, loc, loop):
    k = getattr(c, 'kern', None)
    if not k:
        return []
    out = []
    for a in range(2):
        v = k['out'][a].at(k['k'])
        out.append(('value set %d' % a, 's', lambda v=v, a=a: z3.If(k['k'] + 1 < loop.index, v == k['exp'][a], v == 0)))
    return out


def h_hist(ld):
    f = kern(ld, 'hist_for', 'compute_hist.f', 'compute_hist')

    def run(c):
        n = inp_int('N_mp', lambda v: v >= 0)
        nx = inp_int('Nxg', lambda v: v >= 1)
        bias, Dx = inp_real('bias'), inp_real('Dx', lambda v: v > 0)
        x = inp_arr('x', n, 'r', lambda e, i: [e >= bias.z])
        w = inp_arr('w', n)
        xs, ws = x.snap(), w.snap()
        hist = inp_arr('hist', nx)
        h0 = hist.snap()
        A = inp_int('bin', lambda v: v >= 0, lambda v: v < nx.z)
        u = lambda k: (xs(k) - bias.z) / Dx.z
        last = nx.z - 1
        term = lambda k: E.z_mul(ws(k), z3.If(u(k) < z3.ToReal(last), share(A.z, u(k)), z3.If(A.z == last, z3.RealVal(1), z3.RealVal(0))))
        PS = prefix(c, 'filled', term)
        c.kern = dict(h=hist, A=A.z, PS=PS, h0=h0(A.z))
        f(n, x, w, bias, Dx, nx, hist)
        c.prove('each weight is added once, shared linearly over two neighbouring bins (all in the last bin beyond it)',
                hist.at(A.z) == h0(A.z) + PS(n.z))
        c.unit.cover('returns')
    return run


def h_seg(ld):
    f = kern(ld, 'seg_impact', 'update_seg_impact.f', 'update_seg_impact')

    def run(c):
        n = inp_int('N_mp', lambda v: v >= 0)
        nx = inp_int('N_seg', lambda v: v >= 1)
        s = inp_arr('i_seg', n, 'i')
        w = inp_arr('w', n)
        ss, ws = s.snap(), w.snap()
        hist = inp_arr('hist', nx)
        h0 = hist.snap()
        A = inp_int('segment', lambda v: v >= 0, lambda v: v < nx.z)
        term = lambda k: z3.If(ss(k) == A.z, ws(k), z3.RealVal(0))
        PS = prefix(c, 'filled', term)
        c.kern = dict(h=hist, A=A.z, PS=PS, h0=h0(A.z))
        f(n, s, w, nx, hist)
        c.prove('each segment receives exactly the weights of its own impacts', hist.at(A.z) == h0(A.z) + PS(n.z))
        c.unit.cover('returns')
    return run


def inv_hist(c, loc, loop):
    k = getattr(c, 'kern', None)
    if not k:
        return []
    v = k['h'].at(k['A'])
    return [('filled so far', 's', lambda: v == k['h0'] + k['PS'](loop.index - 1))]


def h_sum(ld):
    f = kern(ld, 'vectsum', 'vectsum.f', 'vectsum')

    def run(c):
        n = inp_int('N_mp', lambda v: v >= 0)
        x = inp_arr('x', n)
        xs = x.snap()
        PS = prefix(c, 'summed', lambda k: xs(k))
        c.kern = PS
        r = f(n, x, 0.)
        c.prove('sum of all entries', Z(r[0]) == PS(n.z))
        c.unit.cover('returns')
    return run


def inv_sum(c, loc, loop):
    if not hasattr(c, 'kern') or not isinstance(loc.get('res'), (S, int, float)):
        return []
    v = Z(loc['res'])
    return [('summed so far', 's', lambda: E.as_real(v) == c.kern(loop.index - 1))]
