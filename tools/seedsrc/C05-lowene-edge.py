ID = 'C05-flat-own-peak'
PROPERTY = 'C05'
NEEDS = 'flat low energy model, tilted incidence, impact energy between Emax and the shifted peak with a yield below R0'
BREAKS = 'The reflected part is applied up to the peak shifted by the angle instead of Emax.'
EDITS = [('sec_emission_model_flat_low_ener.py', 'mask_change = logical_and(delta < R0, E < Emax)', 'mask_change = logical_and(delta < R0, x < 1.)')]
DEMO = '''
from PyECLOUD.sec_emission_model_flat_low_ener import SEY_model_flat_le
m = SEY_model_flat_le(300., .3, .9, 30., 1.09, 1.66, 0, 1., None)
E = np.array([400.])
r = m.SEY_process(np.ones(1), E, np.array([.3]), None)
c = .3
d = .3 * np.exp(.5 * (1 - c)); x = E / (300. * (1 + .7 * (1 - c)))
check(abs(r[0][0] - (d * 1.35 * x / (.35 + x**1.35))[0]) < 1e-9, 'yield above Emax')
'''
