ID = 'C04-redraw-cut'
PROPERTY = 'C04'
NEEDS = 'switch_no_increase_energy=2 and an impact energy between the low-energy threshold and the cut, for which the first draw is rejected'
BREAKS = 'Redrawn emission energies are checked only against the global cut, so that secondaries can carry more energy than the impact.'
EDITS = [('electron_emission.py', """random.lognormal(mufit, sigmafit, Nabove_th)

            flag_above_th = ((en_eV > En_emit_max) & (~flag_low_energy))""", """random.lognormal(mufit, sigmafit, Nabove_th)

            flag_above_th = ((en_eV > E_th) & (~flag_low_energy))""")]
DEMO = '''
from PyECLOUD import electron_emission as ee
np.random.seed(1)
E = np.random.uniform(2., 10., 2000)
e = ee.sec_energy_hilleret_model2(2, 2000, 1.09, 1.66, 30., E, 1.)
check(np.all(e <= E), 'energy increases')
'''
