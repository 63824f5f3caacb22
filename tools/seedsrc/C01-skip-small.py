ID = 'C01-skip-small'
PROPERTY = 'C01'
NEEDS = 'a macroparticle below the cleaning threshold that crosses the wall'
BREAKS = 'Macroparticles smaller than the cleaning threshold are left outside the chamber, with no emission and no accounting.'
EDITS = [('impact_management_class.py', """                x_mp[0:N_mp_old], y_mp[0:N_mp_old])

            Nimpact""", """                x_mp[0:N_mp_old], y_mp[0:N_mp_old])
            # MPs below the cleaning threshold are removed anyhow at the next cleaning
            flag_impact &= (nel_mp >= MP_e.nel_mp_cl_th)

            Nimpact""")]
DEMO = '''
from scipy.constants import e as qe, m_e
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_geom_object
from PyECLOUD.MP_system import MP_system
from PyECLOUD.impact_management_class import impact_management
from PyECLOUD.sec_emission_model_ECLOUD import SEY_model_ECLOUD


def cloud(chamb, n_max=200, life=False, ref=1e4, fact_clean=1e-3, mass=m_e):
    return MP_system(n_max, ref, 2., fact_clean, 5, 10**7, 100, chamb.x_aper / 10., 11, 9, 7, 5, 5, 1e-4, chamb,
                     flag_lifetime_hist=life, charge=-qe, mass=mass)


def sey(cls=SEY_model_ECLOUD, switch=0, **k):
    return cls(Emax=300., del_max=1.7, R0=.7, E_th=30., sigmafit=1.09, mufit=1.66, switch_no_increase_energy=switch,
               thresh_low_energy=1., secondary_angle_distribution="cosine_3D", **k)

np.random.seed(1)
ch = ellip_cham_geom_object(2e-2, 1e-2)
o = cloud(ch)
o.N_mp = 3
o.nel_mp[:3] = [1e4, 2., 1e4]
o.x_mp[:3] = [2.5e-2, 2.5e-2, 1e-3]
o.vx_mp[:3] = 1e6
old = o.get_positions()
old.x_mp[:] = 1.5e-2
im = impact_management(ch, sey(), 1e-3, 20., 50, 1000.)
im.backtrack_and_second_emiss(old, o, 0.)
check(abs(im.Nel_impact_last_step - 10002.) < 1e-6, 'impact not counted')
check(not ch.is_outside(o.x_mp[:3] * .999, o.y_mp[:3] * .999).any(), 'MP left outside')
'''
