from .c05 import U
from . import geom as G
from . import poly as P

L = 'geom_impact_ellip.ellip_cham_geom_object.'
W = 'geom_impact_poly_fast_impact.polyg_cham_geom_object.'
Q = 'geom_impact_poly_cython.pyx:'


def units(tier):
    kw = lambda f: dict(invariants=[('geom_impact_poly_cython:*', f)], hard_inv=40, auto_inv=False, inv_timeout=300)
    return [
        ('elliptic chamber: impact point', U(G.h_ellip, [L + 'impact_point_and_normal'], try_empty=10)),
        ('polygon: crossing search', U(P.h_search, [Q + 'impact_point_and_normal'], **kw(P.inv_search))),
        ('polygon: classification, convex', U(P.h_convex, [Q + 'is_outside_convex'], **kw(P.inv_convex))),
        ('polygon: classification, any shape', U(P.h_nonconvex, [Q + 'is_outside_nonconvex'], **kw(P.inv_nonconvex))),
        ('polygon: impact points', U(P.h_wrapper, [W + 'impact_point_and_normal'], try_empty=10)),
        ('polygon: is_outside', U(P.h_isout, [W + 'is_outside'])),
        ('polygon: geometry of the crossing', U(P.h_lemmas, [])),
        ('unit circle', U(G.h_quad, [])),
        ('elliptic chamber: classification', U(G.h_ellip_outside, [L + '__init__', L + 'is_outside'])),
    ]
