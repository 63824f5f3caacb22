ID = 'C23-mask'
PROPERTY = 'C23'
NEEDS = 'a chamber in which some segment has its own peak yield but not its own reflectivity'
BREAKS = 'Default reflectivities are filled in where the peak yield, not the reflectivity, is undefined.'
EDITS = [('sec_emission_model_ECLOUD_nunif.py', 'self.R0_segments[chamb.R0_segments < 0.] = R0', 'self.R0_segments[chamb.del_max_segments < 0.] = R0')]
DEMO = '''
from scipy.constants import e as qe, m_e
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_geom_object
from PyECLOUD.MP_system import MP_system
from PyECLOUD.impact_management_class import impact_management
from PyECLOUD.sec_emission_model_ECLOUD import SEY_model_ECLOUD


def cloud(chamb, n_max=200, life=False, ref=1e4, fact_clean=1e-3, mass=m_e):
    return MP_system(n_max, ref, 2., fact_clean, 5, 10**7, 100, chamb.x_aper / 10., 11, 9, 7, 5, 5, 1e-4, chamb,
                     flag_lifetime_hist=life, charge=-qe, mass=mass)


def sey(cls=SEY_model_ECLOUD, switch=0, **k):
    return cls(Emax=300., del_max=1.7, R0=.7, E_th=30., sigmafit=1.09, mufit=1.66, switch_no_increase_energy=switch,
               thresh_low_energy=1., secondary_angle_distribution="cosine_3D", **k)

from PyECLOUD.sec_emission_model_ECLOUD_nunif import SEY_model_ECLOUD_non_unif
ch = polyg_cham_geom_object({'Vx': np.array([1., -1, -1, 1]), 'Vy': np.array([1., 1, -1, -1]), 'x_sem_ellip_insc': .5, 'y_sem_ellip_insc': .5,
                             'del_max_segments': np.array([2., 2., -1, -1]), 'R0_segments': np.array([.1, -1, .3, -1]),
                             'Emax_segments': np.array([-1., -1, -1, 200.])}, flag_non_unif_sey=True)
m = sey(SEY_model_ECLOUD_non_unif, chamb=ch)
check(list(m.R0_segments) == [.1, .7, .3, .7], 'reflectivities %s' % m.R0_segments)
'''
