from pv.unit import Unit
from .common import Loader
from . import sey


def U(h, fns, need=('returns',), **k):
    def build():
        ld = Loader({})
        u = Unit('', h(ld), functions=fns, **k)
        u.need_covers = need
        return u
    return build


def F(name, *fs):
    mod, cl = sey.MODELS[name]
    return ['%s.%s' % (mod, f) for f in fs] + ['%s.%s.%s' % (mod, cl, f) for f in ('__init__', 'SEY_process')]


def units(tier):
    out = []
    for sc in (True, False):
        for sh in (True, False):
            out.append(('ECLOUD yield, angle scaling %s, energy shift %s' % (sc, sh), U(lambda ld, sc=sc, sh=sh: sey.h_yield(ld, 'ECLOUD', sc, sh),
                                                                                 F('ECLOUD', 'yield_fun2'))))
            out.append(('yield from table, angle scaling %s, energy shift %s' % (sc, sh), U(
                lambda ld, sc=sc, sh=sh: sey.h_table(ld, sc, sh), F('from_file') + ['sec_emission_model_from_file.SEY_model_from_file.SEY_values'], ('returns', 'table accepted'))))
    out.append(('table interpolation', U(sey.h_interp, ['sec_emission_model_from_file.SEY_model_from_file.__init__',
                                                        'sec_emission_model_from_file.SEY_model_from_file.interp'])))
    for nm, fs in (('ACC_LOW', 'yield_fun3'), ('cos_low_ene', 'yield_fun2'), ('flat_low_ene', 'yield_fun2')):
        out.append((nm + ' yield', U(lambda ld, nm=nm: sey.h_yield(ld, nm), F(nm, fs))))
    for nm in ('ECLOUD', 'ACC_LOW', 'cos_low_ene', 'flat_low_ene'):
        out.append((nm + ' does not evolve', U(lambda ld, nm=nm: sey.h_evol_noop(ld, nm), ['sec_emission_model_ECLOUD.SEY_model_ECLOUD.SEY_model_evol'])))
    for seg in (False, True):
        out.append(('perfect absorber segments=%s' % seg, U(lambda ld, seg=seg: sey.h_absorber(ld, seg),
                                                          ['sec_emission_model_perfect_absorber.SEY_model_perfect_absorber.impacts_on_surface'])))
    return out


ASSUMPTIONS = ['impact energies non-negative (positive for the accurate, cosine and flat low-energy models, whose elastic fraction is 0/0 at zero yield), angle cosine in [0,1]',
               'parameters: Emax, del_max, E0 > 0, 0 <= R0 < 1, s > 1',
               'table energies equally spaced by at least 0.01 eV; impact energies (and shifted energies) not below the first table energy']
