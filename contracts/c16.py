from .c05 import U
from . import steps as G, kernels as K

B = 'buildup_simulation.BuildupSimulation.'
S = 'space_charge_class.space_charge.'
EM = 'space_charge_class_electromagnetic.space_charge_electromagnetic.'


def units(tier):
    out = [('deposit and interpolation of a cloud', U(lambda ld: G.h_cloud(ld, False), [S + 'recompute_spchg_efield', S + 'get_sc_eletric_field'])),
           ('electromagnetic potentials', U(G.h_em, [EM + 'recompute_spchg_emfield', EM + 'get_sc_em_field']))]
    for n in (1, 2):
        out.append(('charge density of %d clouds' % n, U(lambda ld, n=n: G.h_order(ld, n, 0, False), [B + 'sim_time_step', B + '_recompute_cloud_spacecharge'],
                                                         need=('returns', 'solved', 'held'), max_paths=20000)))
    for n in (0, 1, 2):
        out.append(('fields at the macroparticles, %d secondary beams' % n, U(lambda ld, n=n: G.h_motion(ld, 'plain', False, False, n, False), [
            B + '_get_field_from_beams_at_particles', B + '_get_field_from_clouds_at_particles', B + '_cloud_motion'])))
    inv = lambda m, f: dict(invariants=[(m + ':*', f)])
    out += [('deposit on the grid', U(K.h_rho, ['compute_rho.f:compute_sc_rho'], hard_inv=8, **inv('rhocompute', K.inv_rho))),
            ('field interpolation', U(lambda ld: K.h_gather(ld, 'any'), ['interp_field_for.f:int_field'], hard_inv=8, **inv('int_field_for', K.inv_gather)))]
    return out


ASSUMPTIONS = ['PyPIC (external): scatter deposits charge * nel bilinearly, adding to rho when flag_add; solve and gather use that rho; its Fortran deposit is not /repo code',
               'lists of clouds have 1 or 2 elements and lists of secondary beams 0-2 in the verified instances; the loops over them have the same body for each element',
               'averaging over MPI processes (comm) not covered']
