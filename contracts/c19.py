from .c05 import U
from . import saver as G

S = 'pyecloud_saver.pyecloud_saver.'
B = 'buildup_simulation.BuildupSimulation.'


def units(tier):
    out = []
    for o, copy in [((), False), (('det', 'cos', 'life'), True), (('seg', 'cross', 'energy'), False), (('det', 'seg', 'cos', 'life', 'cross', 'energy'), True)]:
        out.append(('record restored%s%s' % (''.join(', ' + x for x in o), ', from the copy' if copy else ''), U(lambda ld, a=(o, copy): G.h_reload(ld, *a), [S + 'load_from_output'])))
    for n in (1, 2):
        for life in (False, True):
            out.append(('restart from a checkpoint, %d clouds%s' % (n, ', lifetimes' if life else ''), U(lambda ld, a=(n, life): G.h_restart(ld, *a), [
                B + 'load_checkpoint', B + 'load_state', B + '_MP_cleaning_and_regenerations'])))
    out.append(('pending sums', U(G.h_accum, [S + 'get_last_step_group', S + 'set_last_step_group'])))
    for a in ((True, False), (True, True), (False, True)):
        out.append(('saving a checkpoint%s%s' % (', last cloud' if a[0] else '', ', copy of the output' if a[1] else ''), U(lambda ld, a=a: G.h_checkpoint(ld, *a), [
            S + '_checkpoint_save', S + '_checkpoint_is_due', S + '_copy_main_outp_to_safety'], need=('returns', 'not due'))))
    # the record goes on where it stopped: step after the restart
    out.append(('step record', U(lambda ld: G.h_sbs(ld, False, False, False, 0, False), [S + '_stepbystep_data_save', S + '_stepbystep_check_for_data_resize'], need=('returns', 'thinned'))))
    return out
