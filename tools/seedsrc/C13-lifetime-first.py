ID = 'C13-lifetime-first'
PROPERTY = 'C13'
NEEDS = 'lifetime histogram on, a step in which only macroparticles without a previous impact hit, then a second impact of one of them'
BREAKS = 'The impact time is recorded only in steps where some impacting macroparticle already had one: lifetimes are lost or wrong.'
EDITS = [('impact_management_class.py', """0., Dt_lifetime_hist, self.lifetime_hist_line)

                    MP_e.t_last_impact""", """0., Dt_lifetime_hist, self.lifetime_hist_line)
                        MP_e.t_last_impact""")]
DEMO = '''
from scipy.constants import e as qe, m_e
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_geom_object
from PyECLOUD.MP_system import MP_system
from PyECLOUD.impact_management_class import impact_management
from PyECLOUD.sec_emission_model_ECLOUD import SEY_model_ECLOUD


def cloud(chamb, n_max=200, life=False, ref=1e4, fact_clean=1e-3, mass=m_e):
    return MP_system(n_max, ref, 2., fact_clean, 5, 10**7, 100, chamb.x_aper / 10., 11, 9, 7, 5, 5, 1e-4, chamb,
                     flag_lifetime_hist=life, charge=-qe, mass=mass)


def sey(cls=SEY_model_ECLOUD, switch=0, **k):
    return cls(Emax=300., del_max=1.7, R0=.7, E_th=30., sigmafit=1.09, mufit=1.66, switch_no_increase_energy=switch,
               thresh_low_energy=1., secondary_angle_distribution="cosine_3D", **k)

np.random.seed(1)
ch = ellip_cham_geom_object(2e-2, 1e-2)
o = cloud(ch, life=True)
o.N_mp = 2
o.nel_mp[:2] = 1e4
o.x_mp[:2] = [2.5e-2, 0]
o.vx_mp[:2] = 3e6
old = o.get_positions()
old.x_mp[:] = 1.5e-2
im = impact_management(ch, sey(), 1e-3, 20., 50, 1000., 50, 1e-6, flag_lifetime_hist=True)
im.backtrack_and_second_emiss(old, o, 5e-8)
check(o.t_last_impact[0] == 5e-8, 'time of the first impact')
check(o.t_last_impact[1] == -1, 'time of the other')
'''
