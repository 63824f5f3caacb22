from .c05 import U
from . import sey


def F(name):
    return ['sec_emission_model_ECLOUD.SEY_model_ECLOUD.impacts_on_surface', '%s.%s (inherits impacts_on_surface)' % sey.MODELS[name]]


def units(tier):
    out = []
    for nm in sey.MODELS:
        for seg in ((False, True) if nm == 'ECLOUD' else (True,) if 'nunif' in nm else (False,)):
            if nm == 'ECLOUD_nunif_charging' or nm in ('ACC_LOW', 'cos_low_ene', 'flat_low_ene', 'from_file'):
                if tier == 'quick' and nm not in ('from_file',):
                    pass
            out.append(('emission step of %s, segments=%s' % (nm, seg), U(lambda ld, nm=nm, seg=seg: sey.h_emit(ld, nm, seg), F(nm),
                                                                         ('returns', 'split', 'true secondaries'))))
    for seg in (False, True):
        out.append(('perfect absorber segments=%s' % seg, U(lambda ld, seg=seg: sey.h_absorber(ld, seg),
                                                          ['sec_emission_model_perfect_absorber.SEY_model_perfect_absorber.impacts_on_surface'])))
    return out


ASSUMPTIONS = ['charges and yields non-negative (proved under C05 for each model), split size positive']
