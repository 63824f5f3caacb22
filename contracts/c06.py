from pv.unit import Unit
from .common import Loader, hist_native
from . import mp


def U(h, fns, **k):
    need = k.pop('covers', ('returns',))

    def build():
        ld = Loader({'hist_for': hist_native()})
        u = Unit('', h(ld), functions=['MP_system.MP_system.' + f for f in fns], **k)
        u.need_covers = need
        return u
    return build


def units(tier):
    out = []
    for lt in (False, True):
        t = ' (lifetime)' if lt else ''
        out.append(('clean_small_MPs' + t, U(lambda ld, lt=lt: mp.h_clean(ld, lt), ['clean_small_MPs', 'set_nel_mp_ref'])))
        out.append(('add_new_MPs' + t, U(lambda ld, lt=lt: mp.h_add_new(ld, lt), ['add_new_MPs'])))
        for src in ('n', 't'):
            out.append(('add_from_file %s' % src + t, U(lambda ld, lt=lt, src=src: mp.h_from_dict(ld, lt, src, False), ['add_from_file'])))
            out.append(('init_from_dict %s' % src + t, U(lambda ld, lt=lt, src=src: mp.h_from_dict(ld, lt, src, True), ['init_from_dict', 'add_from_file'])))
    out.append(('extract_dict', U(lambda ld: mp.h_extract(ld), ['extract_dict'])))
    out.append(('get_positions', U(lambda ld: mp.h_positions(ld), ['get_positions'])))
    return out


ASSUMPTIONS = ['the container capacity is large enough for the macroparticles added (precondition of the adding operations)']
