ID = 'C09-seed-ref0'
PROPERTY = 'C09'
NEEDS = 'gas ionization after the reference size was changed by a regeneration'
BREAKS = 'New macroparticles get the initial reference size while their number is computed with the current one.'
EDITS = [('gas_ionization_class.py', 'MP_e.nel_mp[ MP_e.N_mp: MP_e.N_mp + Nint_new_MP] = MP_e.nel_mp_ref', 'MP_e.nel_mp[ MP_e.N_mp: MP_e.N_mp + Nint_new_MP] = MP_e.nel_mp_ref_0')]
DEMO = '''
from scipy.constants import e as qe, m_e
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_geom_object
from PyECLOUD.MP_system import MP_system
from PyECLOUD.impact_management_class import impact_management
from PyECLOUD.sec_emission_model_ECLOUD import SEY_model_ECLOUD


def cloud(chamb, n_max=200, life=False, ref=1e4, fact_clean=1e-3, mass=m_e):
    return MP_system(n_max, ref, 2., fact_clean, 5, 10**7, 100, chamb.x_aper / 10., 11, 9, 7, 5, 5, 1e-4, chamb,
                     flag_lifetime_hist=life, charge=-qe, mass=mass)


def sey(cls=SEY_model_ECLOUD, switch=0, **k):
    return cls(Emax=300., del_max=1.7, R0=.7, E_th=30., sigmafit=1.09, mufit=1.66, switch_no_increase_energy=switch,
               thresh_low_energy=1., secondary_angle_distribution="cosine_3D", **k)

from PyECLOUD.gas_ionization_class import residual_gas_ionization
np.random.seed(2)
ch = ellip_cham_geom_object(2e-2, 1e-2)
o = cloud(ch, n_max=10000, ref=1.)
o.set_nel_mp_ref(5.)
g = residual_gas_ionization(.5, 10., 2., 300., ch, 1.)
g.generate(o, 1e10, 1e-8, 1e-3, 1e-3)
check(o.N_mp > 0 and np.all(o.nel_mp[:o.N_mp] == 5.), 'size of the new MPs %d' % o.N_mp)
'''
