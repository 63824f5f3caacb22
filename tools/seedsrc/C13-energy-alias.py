ID = 'C13-energy-alias'
PROPERTY = 'C13'
NEEDS = 'an impact above the last bin of the energy histogram'
BREAKS = 'The energies are clipped in place for the histogram, so that the impact energy of the step and the yields use the clipped energy.'
EDITS = [('impact_management_class.py', 'En_imp_hist = E_impact_eV.copy()', 'En_imp_hist = E_impact_eV')]
DEMO = '''
from scipy.constants import e as qe, m_e
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_geom_object
from PyECLOUD.MP_system import MP_system
from PyECLOUD.impact_management_class import impact_management
from PyECLOUD.sec_emission_model_ECLOUD import SEY_model_ECLOUD


def cloud(chamb, n_max=200, life=False, ref=1e4, fact_clean=1e-3, mass=m_e):
    return MP_system(n_max, ref, 2., fact_clean, 5, 10**7, 100, chamb.x_aper / 10., 11, 9, 7, 5, 5, 1e-4, chamb,
                     flag_lifetime_hist=life, charge=-qe, mass=mass)


def sey(cls=SEY_model_ECLOUD, switch=0, **k):
    return cls(Emax=300., del_max=1.7, R0=.7, E_th=30., sigmafit=1.09, mufit=1.66, switch_no_increase_energy=switch,
               thresh_low_energy=1., secondary_angle_distribution="cosine_3D", **k)

np.random.seed(1)
ch = ellip_cham_geom_object(2e-2, 1e-2)
o = cloud(ch)
o.N_mp = 2
o.nel_mp[:2] = 1e4
o.x_mp[:2] = 2.5e-2
o.vx_mp[:2] = 3e7
old = o.get_positions()
old.x_mp[:] = 1.5e-2
im = impact_management(ch, sey(), 1e-3, 20., 50, 1000.)
im.backtrack_and_second_emiss(old, o, 0.)
E = .5 * m_e / qe * 3e7**2
check(abs(im.En_imp_last_step_eV / (2e4 * E) - 1) < 1e-9, 'impact energy of the step')
'''
