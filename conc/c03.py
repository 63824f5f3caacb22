import numpy as np
from conc.util import *
from conc.main import Skip

NATIVES = ['geom_impact_poly_cython']

SHAPES = dict(POLY)
SHAPES['needle'] = ([1, .2, -1, -.2], [.02, .03, 0.02, -.03])
SHAPES['octagon'] = (list(np.cos(np.arange(8) * np.pi / 4 + .3)), list(np.sin(np.arange(8) * np.pi / 4 + .3)))
SHAPES['L'] = ([1, 1, .1, .1, -1, -1], [-1, 0.2, 0.2, 1, 1, -1])
SHAPES['comb'] = ([1, 1, .4, .4, -.4, -.4, -1, -1], [-1, 1, 1, -.3, -.3, 1, 1, -1])
CONCAVE = ('concave', 'L', 'comb')


def cham(rng):
    from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
    from PyECLOUD.geom_impact_rect_fast_impact import rect_cham_geom_object
    from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_geom_object
    k = rng.randint(4)
    sx, sy = 10**rng.uniform(-2.5, -1), 10**rng.uniform(-2.5, -1)
    if k == 0:
        return 'ellip', ellip_cham_geom_object(sx, sy, flag_verbose_file=False)
    if k == 1:
        return 'rect', rect_cham_geom_object(sx, sy, False, flag_verbose_file=False)
    nm = sorted(SHAPES)[rng.randint(len(SHAPES))]
    vx, vy = np.array(SHAPES[nm][0], float), np.array(SHAPES[nm][1], float)
    r = rng.randint(len(vx))
    vx, vy = np.roll(vx, r), np.roll(vy, r)
    mid = nm not in CONCAVE and rng.rand() < .3
    if mid:
        # a vertex in the middle of an edge (aligned with its neighbours)
        vx, vy = np.append(vx, .5 * (vx[-1] + vx[0])), np.append(vy, .5 * (vy[-1] + vy[0]))
    conv = not mid and nm not in CONCAVE and rng.rand() < .6
    small = {'needle': .005}.get(nm, .15)
    d = {'Vx': vx * sx, 'Vy': vy * sy, 'x_sem_ellip_insc': small * sx, 'y_sem_ellip_insc': small * sy}
    if nm == 'L':
        d['Vx'], d['Vy'] = d['Vx'] + .5 * sx, d['Vy'] + .5 * sy
    if nm == 'comb':
        d['Vy'] = d['Vy'] + .6 * sy
    return nm, polyg_cham_geom_object(d, False, flag_verbose_file=False, flag_assume_convex=conv)


def margin(ch, x, y):
    """signed size-relative margin: > 0 inside, independent of the code under test"""
    x, y = np.asarray(x, float), np.asarray(y, float)
    if not hasattr(ch, 'Vx'):
        return 1 - np.hypot(x / ch.x_aper, y / ch.y_aper)
    vx, vy = edges(ch)
    wn = np.zeros(x.shape)
    d = np.full(x.shape, np.inf)
    for k in range(len(vx)):
        ax, ay, bx, by = vx[k - 1], vy[k - 1], vx[k], vy[k]
        # winding angle and distance
        ua, va, ub, vb = ax - x, ay - y, bx - x, by - y
        wn += np.arctan2(ua * vb - va * ub, ua * ub + va * vb)
        L2 = (bx - ax)**2 + (by - ay)**2
        s = np.clip(((x - ax) * (bx - ax) + (y - ay) * (by - ay)) / L2, 0, 1)
        d = np.minimum(d, np.hypot(x - ax - s * (bx - ax), y - ay - s * (by - ay)))
    size = min(vx.max() - vx.min(), vy.max() - vy.min())
    return np.where(np.abs(wn) > np.pi, 1, -1) * d / size


def pts(rng, ch, n, far):
    x = rng.uniform(-far, far, n) * ch.x_aper
    y = rng.uniform(-far, far, n) * ch.y_aper
    k = rng.rand(n)
    if hasattr(ch, 'Vx'):
        vx, vy = edges(ch)
        # same height / abscissa as a vertex, and close to the wall
        j = rng.randint(0, len(vx), n)
        x = np.where(k < .12, vx[j], x)
        y = np.where((k > .08) & (k < .2), vy[j], y)
        s = rng.rand(n)
        wx, wy = vx[j - 1] + s * (vx[j] - vx[j - 1]), vy[j - 1] + s * (vy[j] - vy[j - 1])
    else:
        t = rng.uniform(-np.pi, np.pi, n)
        t = np.where(rng.rand(n) < .3, np.round(t / (np.pi / 2)) * np.pi / 2, t)
        wx, wy = ch.x_aper * np.cos(t), ch.y_aper * np.sin(t)
    f = 1 + rng.choice([-1, 1], n) * 10**rng.uniform(-7, -1, n)
    near = (k > .2) & (k < .5)
    return np.where(near, wx * f, x), np.where(near, wy * f, y)


def case_classify(rng):
    nm, ch = cham(rng)
    n = rng.randint(1, 60)
    x, y = pts(rng, ch, n, 1.3)
    keep = x.copy(), y.copy()
    o = np.asarray(ch.is_outside(x, y))
    need(o.shape == (n,) and o.dtype == bool, '%s chamber: one boolean per point' % nm)
    need(eq(x, keep[0]) and eq(y, keep[1]), 'classification changes the positions')
    m = margin(ch, x, y)
    sure = np.abs(m) > 1e-9
    bad = sure & (o != (m < 0))
    need(not bad.any(), '%s chamber: point %r is classified %s' % (nm, (x[bad][:1].tolist(), y[bad][:1].tolist()), 'outside' if o[bad][:1].all() else 'inside'))
    p = rng.permutation(n)
    need(eq(o[p], ch.is_outside(x[p].copy(), y[p].copy())), '%s chamber: classification of a point depends on the other points' % nm)
    for j in range(min(n, 4)):
        need(bool(ch.is_outside(x[j:j + 1], y[j:j + 1])[0]) == bool(o[j]), '%s chamber: classification of a point depends on the batch' % nm)
    ins = ~o
    need(np.all(np.abs(x[ins]) <= ch.x_aper * (1 + 1e-12)) and np.all(np.abs(y[ins]) <= ch.y_aper * (1 + 1e-12)), '%s chamber: inside point beyond the aperture' % nm)


def segments(rng, nm, ch, n):
    xi, yi = pts(rng, ch, 40 * n + 200, 1.)
    k = margin(ch, xi, yi) > (1e-6 if rng.rand() < .5 else 1e-2)
    xi, yi = xi[k][:n], yi[k][:n]
    xo, yo = pts(rng, ch, 40 * n + 200, rng.choice([1.2, 2., 5.]))
    k = margin(ch, xo, yo) < -1e-7
    xo, yo = xo[k][:n], yo[k][:n]
    m = min(len(xi), len(xo))
    if m == 0:
        raise Skip()
    xi, yi, xo, yo = xi[:m].copy(), yi[:m].copy(), xo[:m].copy(), yo[:m].copy()
    # short steps: end point near the start, beyond the wall; axis-parallel steps
    r = rng.rand(m)
    xo = np.where(r < .12, xi, xo)
    yo = np.where((r > .12) & (r < .24), yi, yo)
    if not hasattr(ch, 'Vx') or rng.rand() < .3:
        xi = np.where((r > .3) & (r < .36), 0., xi)
    k = (margin(ch, xi, yi) > 1e-7) & (margin(ch, xo, yo) < -1e-7)
    if not k.any():
        raise Skip()
    z = rng.randn(2, len(xi))
    return [np.ascontiguousarray(a[k]) for a in (xi, yi, z[0], xo, yo, z[1])]


def impacts(nm, ch, a):
    keep = [v.copy() for v in a]
    r = ch.impact_point_and_normal(*a)
    for v, w in zip(a, keep):
        need(eq(v, w), '%s chamber: the trajectories are changed' % nm)
    return r


def wall_hit(ch, xi, yi, xo, yo):
    """first crossing parameter of each segment with the wall, by bisection-free formulas independent of the code"""
    if not hasattr(ch, 'Vx'):
        u, v, p, q = xi / ch.x_aper, yi / ch.y_aper, xo / ch.x_aper, yo / ch.y_aper
        A, B, C = (p - u)**2 + (q - v)**2, u * (p - u) + v * (q - v), u**2 + v**2 - 1
        s = np.sqrt(B * B - A * C)
        return np.where(B > 0, -C / (B + s), (-B + s) / A), None
    vx, vy = edges(ch)
    best = np.full(len(xi), np.inf)
    which = np.full(len(xi), -1)
    for k in range(len(vx)):
        ax, ay, bx, by = vx[k], vy[k], vx[(k + 1) % len(vx)], vy[(k + 1) % len(vx)]
        den = (xo - xi) * (by - ay) - (yo - yi) * (bx - ax)
        with np.errstate(all='ignore'):
            t = ((ax - xi) * (by - ay) - (ay - yi) * (bx - ax)) / den
            s = ((ax - xi) * (yo - yi) - (ay - yi) * (xo - xi)) / den
        ok = (den != 0) & (s >= -1e-9) & (s <= 1 + 1e-9) & (t >= 0) & (t <= 1 + 1e-9) & (t < best)
        best = np.where(ok, t, best)
        which = np.where(ok, k, which)
    return best, which


def case_impact(rng):
    nm, ch = cham(rng)
    a = segments(rng, nm, ch, rng.randint(1, 25))
    xi, yi, zi, xo, yo, zo = a
    n = len(xi)
    n0 = ch.N_mp_impact
    x, y, z, nx, ny, seg = impacts(nm, ch, a)
    need(ch.N_mp_impact == n0 + n, '%s chamber: number of impacts' % nm)
    need(all(len(v) == n for v in (x, y, z, nx, ny)), '%s chamber: one impact point and normal per trajectory' % nm)
    # never outside
    need(not np.any(ch.is_outside(x, y)) and np.all(margin(ch, x, y) > -1e-12), '%s chamber: impact point outside the chamber' % nm)
    # on the segment, just before the wall (or back at the start)
    dx, dy = xo - xi, yo - yi
    L = np.hypot(dx, dy)
    off = np.abs((x - xi) * dy - (y - yi) * dx) / L
    size = max(ch.x_aper, ch.y_aper)
    tt = ((x - xi) * dx + (y - yi) * dy) / L**2
    need(np.all(off <= 1e-9 * size), '%s chamber: impact point off the trajectory' % nm)
    th, k = wall_hit(ch, xi, yi, xo, yo)
    need(np.all(tt >= -1e-9) and np.all(tt <= th + 1e-7), '%s chamber: impact point beyond the wall or behind the start' % nm)
    early = tt < .98 * th - 1e-9
    start = np.hypot(x - xi, y - yi) <= 1e-12 * size
    need(np.all(~early | start), '%s chamber: impact point neither at the wall nor at the start' % nm)
    if nm in ('ellip',):
        # the start is used only for crossings within the first hundredth of the step or coinciding points
        near = (dx**2 + dy**2) < 1.0001e-8 * (xo**2 + yo**2)
        need(np.all(~early | (th < 1.0203e-2) | near), 'ellip chamber: impact point left at the start of the step')
    # unit inward normal
    nn = np.hypot(nx, ny)
    need(np.all(np.abs(nn - 1) < 1e-9), '%s chamber: normal is not a unit vector (%r for %r -> %r)' % (
        nm, nn[np.argmax(np.abs(nn - 1))], (xi[np.argmax(np.abs(nn - 1))], yi[np.argmax(np.abs(nn - 1))]), (xo[np.argmax(np.abs(nn - 1))], yo[np.argmax(np.abs(nn - 1))])))
    if nm == 'ellip':
        ok = np.hypot(x, y) > 1e-9 * size
        gx, gy = -x / ch.x_aper**2, -y / ch.y_aper**2
        g = np.hypot(gx, gy)
        need(np.all((np.abs(nx * g - gx) <= 1e-6 * g) & (np.abs(ny * g - gy) <= 1e-6 * g) | ~ok), 'ellip chamber: normal is not the inward normal of the wall at the impact point')
        need(seg is None or True, '')
    else:
        vx, vy = edges(ch)
        x1, y1 = np.roll(vx, -1), np.roll(vy, -1)
        Le = np.hypot(x1 - vx, y1 - vy)
        ex, ey = -(y1 - vy) / Le, (x1 - vx) / Le
        # the wall the segment crosses first; ambiguous at vertices
        px, py = xi + th * dx, yi + th * dy
        dv = np.min(np.hypot(px[:, None] - vx, py[:, None] - vy), axis=1)
        clear = (dv > 1e-6 * size) & np.isfinite(th)
        need(np.all(~clear | (np.hypot(nx - ex[k], ny - ey[k]) < 1e-9)), '%s chamber: normal is not that of the wall segment hit' % nm)
        need(np.all(~clear | (np.asarray(seg) == k)), '%s chamber: wrong wall segment reported' % nm)
    # element by element
    p = rng.permutation(n)
    r2 = impacts(nm, ch, [np.ascontiguousarray(v[p]) for v in a])
    for v, w in zip((x, y, nx, ny), (r2[0], r2[1], r2[3], r2[4])):
        need(close(v[p], w, 1e-9, 1e-12), '%s chamber: the impact of one trajectory depends on the others' % nm)


def case_ends_on_wall(rng):
    """trajectories that end exactly on the wall (a point of the wall counts as outside)"""
    from PyECLOUD.geom_impact_rect_fast_impact import rect_cham_geom_object
    sx, sy = 2.**rng.randint(-7, -3), 2.**rng.randint(-7, -3)
    ch = rect_cham_geom_object(sx, sy, False, flag_verbose_file=False)
    n = rng.randint(1, 12)
    xi, yi = rng.randint(-7, 8, n) / 8. * sx, rng.randint(-7, 8, n) / 8. * sy
    xo, yo = rng.randint(-7, 8, n) / 8. * sx, rng.randint(-7, 8, n) / 8. * sy
    k = rng.randint(4, size=n)
    xo = np.where(k == 0, sx, np.where(k == 1, -sx, xo))
    yo = np.where(k == 2, sy, np.where(k == 3, -sy, yo))
    z = np.zeros(n)
    need(np.all(ch.is_outside(xo, yo)), 'rect chamber: a point of the wall is not outside')
    x, y, zz, nx, ny, seg = impacts('rect', ch, [xi, yi, z, xo, yo, z.copy()])
    need(not ch.is_outside(x, y).any(), 'rect chamber: impact point outside')
    ex = np.where(k == 0, -1., np.where(k == 1, 1., 0.))
    ey = np.where(k == 2, -1., np.where(k == 3, 1., 0.))
    need(np.all((nx == ex) & (ny == ey)), 'rect chamber: trajectory ending on the wall has normal %r' % (list(zip(nx, ny)),))


CASES = {k[5:]: f for k, f in list(globals().items()) if k.startswith('case_')}
