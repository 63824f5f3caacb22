from .c05 import U
from . import steps as G

B = 'buildup_simulation.BuildupSimulation.'


def units(tier):
    out = []
    for m in ('plain', 'dynamics', 'custom', 'nonuniform'):
        for r in (False, True):
            for k in (False, True):
                if k and m == 'nonuniform':
                    continue
                need = ('refused',) if (r and m == 'plain') or (k and m != 'custom') else ('returns',)
                out.append(('motion, %s%s%s' % (m, ', fields interpolated at substeps' if r else '', ', beam kick' if k else ''),
                            U(lambda ld, m=m, r=r, k=k: G.h_motion(ld, m, r, k, 1, False), [B + '_cloud_motion', B + '_get_field_from_beams_at_particles',
                              B + '_get_field_from_clouds_at_particles', B + '_apply_instantaneous_kick'], need=need,
                              invariants=[('buildup_simulation:*', G.inv_substeps)])))
    for n in (0, 2):
        out.append(('motion, %d secondary beams' % n, U(lambda ld, n=n: G.h_motion(ld, 'dynamics', False, False, n, False), [B + '_cloud_motion'])))
    out.append(('motion, electromagnetic fields', U(lambda ld: G.h_motion(ld, 'dynamics', True, False, 1, True), [B + '_cloud_motion'], invariants=[('buildup_simulation:*', G.inv_substeps)])))
    out.append(('trackers with substeps', U(G.h_tracks, [B + '_cloud_motion'])))
    for ncl, nsec, cross in ((1, 0, False), (1, 1, False), (2, 1, True)):
        out.append(('order of a step, %d clouds, %d secondary beams' % (ncl, nsec), U(lambda ld, a=(ncl, nsec, cross): G.h_order(ld, *a), [
            B + k for k in ('sim_time_step', '_primary_generation', '_recompute_cloud_spacecharge', '_save_output_data', '_MP_cleaning_and_regenerations')],
            need=('returns', 'solved', 'held'), max_paths=20000)))
    for n in (0, 2):
        out.append(('run loop, %d secondary beams' % n, U(lambda ld, n=n: G.h_run(ld, n), [B + 'run'], invariants=[('buildup_simulation:*', G.inv_run)])))
    out.append(('space charge interval', U(G.h_recheck, ['space_charge_class.space_charge.check_for_recomputation'])))
    return out


ASSUMPTIONS = ['lists of clouds and of secondary beams have 1-2 (0-2) elements in the verified instances; the loops over them have the same body for each element',
               'trackers: step covers their Dt, stepcustomDt N_sub_steps * Dt_substep (C10, C11)', 'uniform time axis: its step equals the Dt the tracker was built with']
