from .c05 import U
from .c02 import F
from . import sey

NU = 'sec_emission_model_ECLOUD_nunif.'


def units(tier):
    out = [('non-uniform yield', U(sey.h_nunif, [NU + 'yield_fun2', NU + 'SEY_model_ECLOUD_non_unif.__init__', NU + 'SEY_model_ECLOUD_non_unif.SEY_process'])),
           ('charging: yield and segment charge', U(sey.h_charging, [NU + 'SEY_model_ECLOUD_non_unif_charging.__init__',
                                                                    NU + 'SEY_model_ECLOUD_non_unif_charging.SEY_process'],
                                                   invariants=[('*', sey.charge_inv)])),
           ('charging: decay', U(sey.h_evol, [NU + 'SEY_model_ECLOUD_non_unif_charging.SEY_model_evol']))]
    for nm in ('ECLOUD_nunif', 'ECLOUD_nunif_charging'):
        out.append(('%s needs a polygonal chamber' % nm, U(lambda ld, nm=nm: sey.h_reject(ld, nm), [NU + 'SEY_model_ECLOUD_non_unif.__init__'])))
        out.append(('emission step of %s' % nm, U(lambda ld, nm=nm: sey.h_emit(ld, nm, True), F(nm), ('returns', 'split', 'true secondaries'))))
    return out


ASSUMPTIONS = ['segment indices handed over by the chamber are valid (C03)', 'Q_max, EQ and edge lengths positive on insulating segments']
