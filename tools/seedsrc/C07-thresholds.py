ID = 'C07-thresholds'
PROPERTY = 'C07'
NEEDS = 'a soft regeneration'
BREAKS = 'The reference size changes but the split size and the cleaning threshold stay those of the old one.'
EDITS = [('MP_system.py', """En_tot=%1.2e'%(self.name, self.N_mp, chrg, erg))

                self.set_nel_mp_ref(new_nel_mp_ref)
""", """En_tot=%1.2e'%(self.name, self.N_mp, chrg, erg))

                self.nel_mp_ref = new_nel_mp_ref
""")]
DEMO = '''
from scipy.constants import e as qe, m_e
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_geom_object
from PyECLOUD.MP_system import MP_system
from PyECLOUD.impact_management_class import impact_management
from PyECLOUD.sec_emission_model_ECLOUD import SEY_model_ECLOUD


def cloud(chamb, n_max=200, life=False, ref=1e4, fact_clean=1e-3, mass=m_e):
    return MP_system(n_max, ref, 2., fact_clean, 5, 10**7, 100, chamb.x_aper / 10., 11, 9, 7, 5, 5, 1e-4, chamb,
                     flag_lifetime_hist=life, charge=-qe, mass=mass)


def sey(cls=SEY_model_ECLOUD, switch=0, **k):
    return cls(Emax=300., del_max=1.7, R0=.7, E_th=30., sigmafit=1.09, mufit=1.66, switch_no_increase_energy=switch,
               thresh_low_energy=1., secondary_angle_distribution="cosine_3D", **k)

np.random.seed(2)
ch = ellip_cham_geom_object(2e-2, 1e-2)
o = cloud(ch)
o.N_mp = 100
o.nel_mp[:100] = 1e5
o.perform_soft_regeneration(30)
check(abs(o.nel_mp_ref - 1e7 / 30) < 1, 'reference')
check(abs(o.nel_mp_split / o.nel_mp_ref - 2) < 1e-9, 'split size')
'''
