from . import mp
from .c06 import U


def units(tier):
    out = []
    for lt in (False, True):
        t = ' (lifetime)' if lt else ''
        for via in ('direct', 'check'):
            out.append(('soft regeneration %s%s' % (via, t), U(lambda ld, lt=lt, via=via: mp.h_soft(ld, lt, via),
                        ['perform_soft_regeneration', 'check_for_soft_regeneration', 'set_nel_mp_ref'], covers=('untouched', 'regenerated'))))
    out.append(('asynchronous regeneration', U(lambda ld: mp.h_async(ld), ['check_for_async_regeneration'], covers=())))
    return out


ASSUMPTIONS = ['total charge is stated for runs in which at least one macroparticle survives the random selection']
