from .c05 import U
from . import strongb as G

D = 'dynamics_dipole.pusher_dipole_magnet.'
S = 'dynamics_strong_B_generalized.pusher_strong_B_generalized.'


def units(tier):
    out = [
        ('equations of motion', U(G.h_spec, [])),
        ('energy', U(G.h_energy, [])),
        ('sincc, cosincc, cubsincc', U(G.h_sincc, ['sincc_cosincc_cubsincc.' + k for k in ('sincc', 'cosincc', 'cubsincc')])),
        ('dipole', U(lambda ld: G.h_dipole(ld, False), [D + '__init__', D + 'step'])),
        ('dipole without field', U(lambda ld: G.h_dipole(ld, True), [D + '__init__', D + 'step'])),
    ]
    for k in ('uniform', 'quadrupole', 'map'):
        out.append(('uniform strong field, %s' % k, U(lambda ld, k=k: G.h_general(ld, k), [S + '__init__', S + 'step'],
                                                         need=('returns', 'field', 'below the threshold'))))
    return out
