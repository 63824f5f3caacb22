ID = 'C02-share-rounding'
PROPERTY = 'C02'
NEEDS = 'true secondaries which need at least one extra macroparticle, emitted in the same step as others which need none'
BREAKS = 'The charge is shared over the largest multiplicity of the step instead of that of the own event: charge is lost.'
EDITS = [('sec_emission_model_ECLOUD.py', 'nel_replace[flag_truesec] = nel_replace[flag_truesec] / (n_add[flag_truesec] + 1.)', 'nel_replace[n_add > 0] = nel_replace[n_add > 0] / (n_add.max() + 1.)')]
DEMO = '''
from scipy.constants import e as qe, m_e
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_geom_object
from PyECLOUD.MP_system import MP_system
from PyECLOUD.impact_management_class import impact_management
from PyECLOUD.sec_emission_model_ECLOUD import SEY_model_ECLOUD


def cloud(chamb, n_max=200, life=False, ref=1e4, fact_clean=1e-3, mass=m_e):
    return MP_system(n_max, ref, 2., fact_clean, 5, 10**7, 100, chamb.x_aper / 10., 11, 9, 7, 5, 5, 1e-4, chamb,
                     flag_lifetime_hist=life, charge=-qe, mass=mass)


def sey(cls=SEY_model_ECLOUD, switch=0, **k):
    return cls(Emax=300., del_max=1.7, R0=.7, E_th=30., sigmafit=1.09, mufit=1.66, switch_no_increase_energy=switch,
               thresh_low_energy=1., secondary_angle_distribution="cosine_3D", **k)

np.random.seed(1)
m = sey()
n = 50
a = np.ones(n)
nel = np.where(np.arange(n) % 2, 1.5e4, 4.5e4)
r = m.impacts_on_surface(m_e, nel, 0 * a, 0 * a, 0 * a, -1e7 * a, 0 * a, 0 * a, a, 0 * a, None, -1e7 * a, 284. * a, a, 1e4, False)
check(abs(r[0].sum() / (r[3].sum() + r[11].sum()) - 1) < 1e-9, 'charge')
'''
