ID = 'C06-clean-time'
PROPERTY = 'C06'
NEEDS = 'lifetime histogram on and a cleaning that removes a macroparticle before one that has a last impact time'
BREAKS = 'Last impact times are not moved together with their macroparticles when nothing is left to keep in the first slot.'
EDITS = [('MP_system.py', """        if self.flag_lifetime_hist:
            self.t_last_impact[0:self.N_mp] = np.array(self.t_last_impact[flag_keep].copy())

        print("Cloud %s: Done clean.""", """        if self.flag_lifetime_hist and flag_keep[0]:
            self.t_last_impact[0:self.N_mp] = np.array(self.t_last_impact[flag_keep].copy())

        print("Cloud %s: Done clean.""")]
DEMO = '''
from scipy.constants import e as qe, m_e
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_geom_object
from PyECLOUD.MP_system import MP_system
from PyECLOUD.impact_management_class import impact_management
from PyECLOUD.sec_emission_model_ECLOUD import SEY_model_ECLOUD


def cloud(chamb, n_max=200, life=False, ref=1e4, fact_clean=1e-3, mass=m_e):
    return MP_system(n_max, ref, 2., fact_clean, 5, 10**7, 100, chamb.x_aper / 10., 11, 9, 7, 5, 5, 1e-4, chamb,
                     flag_lifetime_hist=life, charge=-qe, mass=mass)


def sey(cls=SEY_model_ECLOUD, switch=0, **k):
    return cls(Emax=300., del_max=1.7, R0=.7, E_th=30., sigmafit=1.09, mufit=1.66, switch_no_increase_energy=switch,
               thresh_low_energy=1., secondary_angle_distribution="cosine_3D", **k)

ch = ellip_cham_geom_object(2e-2, 1e-2)
o = cloud(ch, life=True)
o.N_mp = 3
o.nel_mp[:3] = [1., 1e4, 1e4]
o.t_last_impact[:3] = [1., 2., 3.]
o.clean_small_MPs()
check(o.N_mp == 2 and list(o.t_last_impact[:2]) == [2., 3.], 'last impact times')
'''
