from .c05 import U
from . import beam as G

B = 'beam_and_timing.beam_and_timing.'


def units(tier):
    out = [('bunch profile', U(G.h_profile, ['beam_and_timing.bunch_train4'], invariants=[('beam_and_timing:*', G.inv_profile)]))]
    for k in ('pattern', 'file'):
        for s in (False, True):
            need = ('returns',) + (('uniform', 'not uniform') if k == 'file' else ()) + (('rejected',) if k == 'file' and s else ())
            out.append(('construction from %s%s' % (k, ', secondary beam' if s else ''), U(lambda ld, k=k, s=s: G.h_init(ld, k, s), [B + '__init__'], need=need)))
    out.append(('time stepping', U(G.h_step, [B + 'next_time_step', B + 'end_simulation'])))
    for s in (False, True):
        out.append(('beam field%s' % (' from solver state' if s else ''), U(lambda ld, s=s: G.h_field(ld, s), [
            B + ('_get_beam_eletric_field_PyPICstate' if s else 'get_beam_eletric_field')], need=('returns', 'field', 'no field'))))
    return out


ASSUMPTIONS = ['time axis of a profile file increases and starts at a non-negative time',
               'the numerical integral of the profile (equal to the bunch populations) is checked on the real code, not proved',
               'beam field from the Poisson solver or the Bassetti-Erskine formula (computeFD, computeBE, multigrid): construction paths not under contract']
