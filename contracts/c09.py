from pv.unit import Unit
from .common import Loader, hist_native
from . import mp, seed


def U(h, fns, need=('returns',), **k):
    def build():
        ld = Loader({'hist_for': hist_native()})
        u = Unit('', h(ld), functions=fns, **k)
        u.need_covers = need
        return u
    return build


def units(tier):
    out = []
    for lt in (False, True):
        t = ' (lifetime)' if lt else ''
        for nones in (False, True):
            w = ' whole chamber' if nones else ' window'
            for which, f in (('uniform', 'add_uniform_MP_distrib'), ('density', 'add_uniform_ele_density')):
                out.append((f + w + t, U(lambda ld, lt=lt, nones=nones, which=which: mp.h_uniform(ld, lt, which, nones),
                                         ['MP_system.MP_system.' + f], arr_cands=mp.win_cands())))
        for bp in (False, True):
            out.append(('gas ionization beam position=%s%s' % (bp, t), U(lambda ld, lt=lt, bp=bp: seed.h_gas(ld, lt, bp),
                                                                        ['gas_ionization_class.residual_gas_ionization.generate'])))
    P = 'gen_photoemission_class.'
    A = ['MP_system.MP_system.add_new_MPs', P + 'photoemission_base.get_number_new_mps', P + 'photoemission_base.gen_energy_and_set_MPs']
    ph = [('photoemission', True, 'cosine_3D', False, False), ('photoemission', False, 'cosine_3D', True, False),
          ('photoemission', True, 'normal_emission', False, True), ('photoemission_from_file', False, 'cosine_2D', False, False),
          ('photoemission_from_file', True, 'cosine_3D', True, False), ('photoemission_per_segment', False, 'cosine_3D', False, True),
          ('photoemission_per_segment', False, 'normal_emission', True, False)]
    for kind, un, ang, lt, cont in ph:
        out.append(('%s uniform=%s %s lifetime=%s continuous=%s' % (kind, un, ang, lt, cont), U(
            lambda ld, a=(lt, kind, un, ang, cont): seed.h_photo(ld, *a),
            A + [P + kind + '.generate', 'electron_emission.velocities_angle_' + ang], ('returns', 'emits'))))
    return out


ASSUMPTIONS = ['the container capacity suffices for the seeded macroparticles',
               'photoemission: outer circle outside the chamber, track origins inside (validated by the constructors)',
               'emission energies drawn by the energy distributions are non-negative (violated by construction only for the rect distribution with width > 2 x mean)',
               'numpy.interp is an arbitrary function of its argument (its values are not needed)']
