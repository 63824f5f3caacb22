from .c05 import U
from . import kernels as K


def units(tier):
    inv = lambda m, f: dict(invariants=[(m + ':*', f)])
    return [
        ('deposit on the grid', U(K.h_rho, ['compute_rho.f:compute_sc_rho'], hard_inv=8, **inv('rhocompute', K.inv_rho))),
        ('weights of the grid nodes', U(K.h_weights, [])),
        ('field interpolation', U(lambda ld: K.h_gather(ld, 'any'), ['interp_field_for.f:int_field'], hard_inv=8, **inv('int_field_for', K.inv_gather))),
        ('interpolation of linear fields', U(lambda ld: K.h_gather(ld, 'linear'), ['interp_field_for.f:int_field'], hard_inv=8, **inv('int_field_for', K.inv_gather))),
        ('one-dimensional histogram', U(K.h_hist, ['compute_hist.f:compute_hist'], **inv('hist_for', K.inv_hist))),
        ('segment histogram', U(K.h_seg, ['update_seg_impact.f:update_seg_impact'], **inv('seg_impact', K.inv_hist))),
        ('vector sum', U(K.h_sum, ['vectsum.f:vectsum'], **inv('vectsum', K.inv_sum))),
    ]


ASSUMPTIONS = ['grid steps positive; histogrammed positions not below the histogram bias',
               'f2py wrappers: sizes taken from the arrays, output arrays created zero-filled, in-place arguments contiguous (trusted)',
               'default integers of the kernels treated as mathematical integers']
