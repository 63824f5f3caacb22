from .c05 import U
from . import sey
from .c02 import F
from pv.unit import Unit


def units(tier):
    out = []
    for sw in (0, 2):
        out.append(('energy spectrum, switch %d' % sw, U(lambda ld, sw=sw: sey.h_energy(ld, sw), ['electron_emission.sec_energy_hilleret_model2'],
                                                        mask_cands=sey.cap_cands())))
    for a in ('cosine_3D', 'cosine_2D', 'normal_emission'):
        out.append(('angle distribution ' + a, U(lambda ld, a=a: sey.h_angle(ld, a), ['electron_emission.get_angle_dist_func',
                   'electron_emission.velocities_angle_' + a] + (['electron_emission._velocities_angle'] if 'cos' in a else []))))
    out.append(('specular reflection', U(sey.h_specular, ['electron_emission.specular_velocity'])))
    for nm, seg in (('ECLOUD', False), ('ECLOUD_nunif', True)):
        for sw in (0, 2):
            out.append(('emission step of %s, switch %d' % (nm, sw), U(lambda ld, nm=nm, seg=seg, sw=sw: sey.h_emit(ld, nm, seg, sw), F(nm),
                                                                      ('returns', 'split', 'true secondaries'))))
    return out


ASSUMPTIONS = ['unit wall normals (C03)']
