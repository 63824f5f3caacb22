from .c01 import U
from . import impact


def units(tier):
    out = []
    for lt in (False, True):
        for seg in (False, True):
            out.append(('impact diagnostics lifetime=%s segments=%s' % (lt, seg), U(
                lambda ld, lt=lt, seg=seg: impact.h_diag(ld, lt, seg, totals=not lt or tier == 'thorough'),
                ['impact_management_class.impact_management.backtrack_and_second_emiss'],
                covers=('no impact', 'impacts', 'new particles') + (('lifetime',) if lt else ()))))
    out.append(('impact diagnostics without angle histogram', U(lambda ld: impact.h_diag(ld, False, False, False),
               ['impact_management_class.impact_management.backtrack_and_second_emiss'], covers=('no impact', 'impacts'))))
    return out


ASSUMPTIONS = ['energy histograms per wall segment (flag_En_hist_seg) are covered by the concrete cross-check only']
