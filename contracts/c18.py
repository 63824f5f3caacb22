from .c05 import U
from . import saver as G

S = 'pyecloud_saver.pyecloud_saver.'
OPTS = lambda tier: [(False, False, False, 0, False), (True, False, False, 1, False), (False, True, True, 0, True), (True, True, True, 1, True)] + ([(False, False, False, 2, False)] if tier == 'thorough' else [])


def units(tier):
    out = []
    for o in OPTS(tier):
        n = ', '.join(k for k, v in zip(('macroparticle info', 'cross-ionization', 'electric energy', '%d probes' % o[3], 'custom observable'), o) if v) or 'plain'
        out.append(('step record, ' + n, U(lambda ld, o=o: G.h_sbs(ld, *o), [S + '_stepbystep_data_save', S + '_stepbystep_check_for_data_resize'], need=('returns', 'thinned'))))
        out.append(('written step record, ' + n, U(lambda ld, o=o: G.h_dict(ld, *o), [S + '_stepbystep_get_dict'])))
    for seg in (False, True):
        for det in (False, True):
            out.append(('passage record%s%s' % (', segments' if seg else '', ', detailed histogram' if det else ''), U(lambda ld, a=(seg, det, det): G.h_pass(ld, *a), [
                S + '_pass_by_pass_data_save'] + ['impact_management_class.impact_management.' + k for k in ('reset_impact_hist_tot', 'reset_impact_hist_scrub',
                'reset_energ_eV_impact_hist', 'reset_hist_impact_seg', 'reset_hist_emit_seg', 'reset_energ_impact_seg')],
                need=('returns', 'empty') + (('detailed',) if det else ()))))
    for a in ((False, False, False), (True, False, True), (False, True, False)):
        out.append(('energy histograms%s' % ''.join(', ' + k for k, v in zip(('angles', 'lifetimes', 'segments'), a) if v), U(lambda ld, a=a: G.h_energy(ld, *a), [
            S + '_energy_cos_and_lifetime_angle_hist_save', 'impact_management_class.impact_management.reset_En_hist_line'], need=('returns', 'thinned'))))
    return out
