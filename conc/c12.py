import numpy as np
from conc.util import *
from conc.main import Skip

NATIVES = ['rhocompute', 'int_field_for', 'hist_for', 'seg_impact', 'vectsum']


def positions(rng, bias, D, ng, n, beyond=True):
    """positions in units of cells, with many on nodes, in the border cells and outside"""
    u = rng.uniform(-3 if beyond else 0, ng + 2, n)
    k = rng.rand(n)
    u = np.where(k < .2, rng.randint(0, ng, n), u)
    u = np.where((k > .2) & (k < .3), ng - 1 - 10**rng.uniform(-12, -1, n), u)
    u = np.where((k > .3) & (k < .4), ng - 1 + 10**rng.uniform(-12, -1, n), u)
    if beyond:
        u = np.where((k > .4) & (k < .5), -10**rng.uniform(-12, -1, n), u)
    u = np.where((k > .5) & (k < .55), 10**rng.uniform(-12, -1, n), u)
    return bias + u * D


def weights(x, bias, D, ng):
    """inside flag, lower node, fraction, computed as the kernels round"""
    fi = 1 + (x - bias) / D
    i = np.trunc(fi).astype(int)
    return (i >= 1) & (i < ng), i - 1, fi - i


def grid(rng):
    nx, ny = rng.randint(1, 14), rng.randint(1, 14)
    if rng.rand() < .15:
        nx, ny = 2, rng.randint(2, 9)
    D = 2.**rng.randint(-12, 0) if rng.rand() < .5 else 10**rng.uniform(-5, 0)
    bx, by = rng.choice([0., -1., 1.]) * nx * D / 2, rng.choice([0., -1., 1.]) * ny * D / 2
    return nx, ny, D, bx, by


def case_deposit(rng):
    from PyECLOUD import rhocompute
    nx, ny, D, bx, by = grid(rng)
    n = rng.randint(1, 40)
    x, y = positions(rng, bx, D, nx, n), positions(rng, by, D, ny, n)
    q = 10**rng.uniform(0, 9, n)
    q[rng.rand(n) < .1] = 0
    keep = x.copy(), y.copy(), q.copy()
    rho = rhocompute.compute_sc_rho(x, y, q, bx, by, D, nx, ny)
    need(rho.shape == (nx, ny), 'grid shape')
    need(eq(x, keep[0]) and eq(y, keep[1]) and eq(q, keep[2]), 'deposit changes the particles')
    a, i, hx = weights(x, bx, D, nx)
    b, j, hy = weights(y, by, D, ny)
    ok = a & b
    ref = np.zeros((nx, ny))
    for p in np.flatnonzero(ok):
        for di, wx in ((0, 1 - hx[p]), (1, hx[p])):
            for dj, wy in ((0, 1 - hy[p]), (1, hy[p])):
                ref[i[p] + di, j[p] + dj] += q[p] * wx * wy
    tot = q[ok].sum()
    need(np.all(np.abs(rho - ref) <= 1e-9 * max(tot, 1e-300)), 'deposited charge is not the bilinear share of the particle charges')
    need(abs(rho.sum() - tot) <= 1e-9 * tot, 'deposited charge differs from the charge of the particles inside the grid')
    bc = (rho * np.arange(nx)[:, None]).sum()
    need(abs(bc - (q * (x - bx) / D)[ok].sum()) <= 1e-8 * tot * nx, 'barycentre of the deposited charge')


def case_gather(rng):
    from PyECLOUD import int_field_for as iff
    nx, ny, dx, bx, by = grid(rng)
    dy = dx * 10**rng.uniform(-1, 1)
    n = rng.randint(1, 40)
    x, y = positions(rng, bx, dx, nx, n), positions(rng, by, dy, ny, n)
    lin = rng.rand() < .5
    co = rng.randn(2, 3) * (rng.rand(2, 3) < .8)
    I, J = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
    F = [np.asfortranarray(c[0] + c[1] * I + c[2] * J) if lin else np.asfortranarray(rng.randn(nx, ny)) for c in co]
    keep = [f.copy() for f in F]
    ex, ey = iff.int_field(x, y, bx, by, dx, dy, F[0], F[1])
    need(eq(F[0], keep[0]) and eq(F[1], keep[1]), 'interpolation changes the field')
    a, i, hx = weights(x, bx, dx, nx)
    b, j, hy = weights(y, by, dy, ny)
    ok = a & b
    for k, (o, nm) in enumerate(((ex, 'x'), (ey, 'y'))):
        need(o.shape == (n,), 'one value per particle')
        need(np.all(o[~ok] == 0), '%s field of a particle outside the grid is not zero' % nm)
        ii, jj, h, g = i[ok], j[ok], hx[ok], hy[ok]
        if lin:
            ref = co[k, 0] + co[k, 1] * (ii + h) + co[k, 2] * (jj + g)
            need(np.all(np.abs(o[ok] - ref) <= 1e-9 * (1 + np.abs(co[k]).sum() * (nx + ny))), '%s: linear field is not reproduced' % nm)
        else:
            f = F[k]
            ref = f[ii, jj] * (1 - h) * (1 - g) + f[ii + 1, jj] * h * (1 - g) + f[ii, jj + 1] * (1 - h) * g + f[ii + 1, jj + 1] * h * g if len(ii) else np.zeros(0)
            need(np.all(np.abs(o[ok] - ref) <= 1e-9 * 10), '%s field is not the bilinear interpolation' % nm)


def case_adjoint(rng):
    """deposit and gather use the same weights: sum rho*F == sum q*F(x)"""
    from PyECLOUD import int_field_for as iff, rhocompute
    nx, ny, D, bx, by = grid(rng)
    n = rng.randint(1, 40)
    x, y = positions(rng, bx, D, nx, n), positions(rng, by, D, ny, n)
    q = rng.uniform(0, 1e6, n)
    F = [np.asfortranarray(rng.randn(nx, ny)) for _ in range(2)]
    rho = rhocompute.compute_sc_rho(x, y, q, bx, by, D, nx, ny)
    ex, ey = iff.int_field(x, y, bx, by, D, D, F[0], F[1])
    for e, f in ((ex, F[0]), (ey, F[1])):
        need(abs((rho * f).sum() - (q * e).sum()) <= 1e-8 * q.sum() * 5, 'deposit and gather weights differ')


def case_hist(rng):
    from PyECLOUD import hist_for as histf
    ng = rng.randint(1, 20)
    D = 2.**rng.randint(-10, 3) if rng.rand() < .5 else 10**rng.uniform(-4, 2)
    bias = rng.choice([0., -1.]) * D * rng.randint(0, 20)
    n = rng.randint(1, 60)
    x = positions(rng, bias, D, ng, n, beyond=False)
    w = rng.randn(n) * 1e3
    fi = 1 + (x - bias) / D
    if np.any(fi < 1):
        raise Skip
    pad = 7
    big = rng.randn(ng + 2 * pad)
    h = big[pad:pad + ng]
    b0 = big.copy()
    histf.compute_hist(x, w, bias, D, h)
    need(eq(big[:pad], b0[:pad]) and eq(big[pad + ng:], b0[pad + ng:]), 'histogram kernel writes outside the histogram')
    i = fi.astype(int)
    ref = b0[pad:pad + ng].copy()
    for p in range(n):
        if i[p] < ng:
            ref[i[p] - 1] += w[p] * (1 - (fi[p] - i[p]))
            ref[i[p]] += w[p] * (fi[p] - i[p])
        else:
            ref[ng - 1] += w[p]
    sc = 1 + np.abs(w).sum()
    need(abs((h - b0[pad:pad + ng]).sum() - w.sum()) <= 1e-9 * sc, 'histogram does not receive each weight once')
    need(np.all(np.abs(h - ref) <= 1e-9 * sc), 'weights are not shared linearly over two neighbouring bins')


def case_seg(rng):
    from PyECLOUD import seg_impact
    ns = rng.randint(1, 12)
    n = rng.randint(1, 50)
    s = rng.randint(-2, ns + 2, n)
    w = rng.randn(n)
    pad = 4
    big = rng.randn(ns + 2 * pad)
    b0 = big.copy()
    seg_impact.update_seg_impact(s, w, big[pad:pad + ns])
    ref = b0.copy()
    for p in range(n):
        if 0 <= s[p] < ns:
            ref[pad + s[p]] += w[p]
    need(np.all(np.abs(big - ref) <= 1e-10), 'segment histogram differs from the sum of the weights of its impacts')


def case_sum(rng):
    from PyECLOUD import vectsum
    x = rng.randn(rng.randint(1, 100))
    need(abs(vectsum.vectsum(x) - x.sum()) <= 1e-10 * (1 + np.abs(x).sum()), 'vectsum')


CASES = {k[5:]: f for k, f in list(globals().items()) if k.startswith('case_')}
