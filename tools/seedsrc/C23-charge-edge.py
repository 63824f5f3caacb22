ID = 'C23-charge-clip'
PROPERTY = 'C23'
NEEDS = 'a charging segment whose accumulated charge exceeds its maximum'
BREAKS = 'The charge used in the yield is not limited to the maximum of the segment, so that the yield goes below the saturated one (and negative).'
EDITS = [('sec_emission_model_ECLOUD_nunif.py', 'Q_charging[Q_charging>Q_max] = Q_max[Q_charging>Q_max]', 'Q_charging[Q_charging>Q_max.max()] = Q_max.max()')]
DEMO = '''
from scipy.constants import e as qe, m_e
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_geom_object
from PyECLOUD.MP_system import MP_system
from PyECLOUD.impact_management_class import impact_management
from PyECLOUD.sec_emission_model_ECLOUD import SEY_model_ECLOUD


def cloud(chamb, n_max=200, life=False, ref=1e4, fact_clean=1e-3, mass=m_e):
    return MP_system(n_max, ref, 2., fact_clean, 5, 10**7, 100, chamb.x_aper / 10., 11, 9, 7, 5, 5, 1e-4, chamb,
                     flag_lifetime_hist=life, charge=-qe, mass=mass)


def sey(cls=SEY_model_ECLOUD, switch=0, **k):
    return cls(Emax=300., del_max=1.7, R0=.7, E_th=30., sigmafit=1.09, mufit=1.66, switch_no_increase_energy=switch,
               thresh_low_energy=1., secondary_angle_distribution="cosine_3D", **k)

from PyECLOUD.sec_emission_model_ECLOUD_nunif import SEY_model_ECLOUD_non_unif_charging
ch = polyg_cham_geom_object({'Vx': np.array([1., -1, -1, 1]), 'Vy': np.array([1., 1, -1, -1]), 'x_sem_ellip_insc': .5, 'y_sem_ellip_insc': .5,
                             'del_max_segments': np.ones(4) * 2, 'R0_segments': np.ones(4) * .1, 'Emax_segments': np.ones(4) * 300,
                             'flag_charging': np.array([1, 1, 0, 0]), 'Q_max_segments': np.array([1e-9, 1e-8, 1, 1]),
                             'EQ_segments': np.ones(4) * 20, 'tau_segments': -np.ones(4)}, flag_non_unif_sey=True)
m = sey(SEY_model_ECLOUD_non_unif_charging, chamb=ch)
m.Q_segments[:] = 5e-9
r = m.SEY_process(np.ones(2), np.array([300., 300.]), np.ones(2), np.array([0, 1]))
check(abs(r[0][0] - (1 - np.exp(-15.))) < 1e-9, 'saturated yield %s' % r[0])
'''
