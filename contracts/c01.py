from pv.unit import Unit
from .common import Loader, hist_native, seg_native
from . import impact


def natives():
    return {'hist_for': hist_native(), 'seg_impact': seg_native()}


def U(h, fns, **k):
    need = k.pop('covers', ())

    def build():
        ld = Loader(natives())
        u = Unit('', h(ld), functions=fns, **k)
        u.need_covers = need
        return u
    return build


def units(tier):
    out = []
    for lt in (False, True):
        for seg in (False, True):
            out.append(('surface interaction step lifetime=%s segments=%s' % (lt, seg), U(
                lambda ld, lt=lt, seg=seg: impact.h_step(ld, lt, seg),
                ['impact_management_class.impact_management.backtrack_and_second_emiss', 'MP_system.MP_system.add_new_MPs'],
                covers=('no impact', 'impacts'))))
    return out


ASSUMPTIONS = ['a particle that is found outside the chamber has non-zero velocity',
               'the container capacity suffices for the emitted macroparticles (precondition)',
               'impact points are within the horizontal aperture (contract proved for the chamber classes under C03)']
