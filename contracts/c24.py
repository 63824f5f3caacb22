from .c05 import U
from . import fp

C = 'sec_emission_model_furman_pivi.SEY_model_furman_pivi.'


def F(*a):
    return [C + k for k in a]


def units(tier):
    out = []
    conf = [dict(), dict(clip=True), dict(ecl_theta=True), dict(scale=False), dict(shift=False)]
    if tier != 'quick':
        conf += [dict(scale=False, shift=False), dict(ecl_theta=True, shift=False), dict(ecl_theta=True, scale=False), dict(clip=True, shift=False)]
    for k in conf:
        out.append(('component yields %s' % (', '.join(sorted(k)) or 'default'), U(lambda ld, k=k: fp.h_yields(ld, **k), F(
            '__init__', 'yield_fun_furman_pivi', 'delta_e', 'delta_r', 'delta_ts', '_D'))))
    for ex in (False, True):
        out.append(('event types, rediffused excluded=%s' % ex, U(lambda ld, ex=ex: fp.h_process(ld, ex), F('SEY_process'))))
    for md in (False, True):
        out.append(('elastic energies, modified sigma=%s' % md, U(lambda ld, md=md: fp.h_backscattered(ld, md), F('get_energy_backscattered'))))
    out.append(('rediffused energies', U(fp.h_rediffused, F('get_energy_rediffused'))))
    out.append(('true secondary energies', U(fp.h_true, F('get_energy_true_sec', '_true_sec_energy_CDF'), ('returns', 'none'))))
    for sw in (0, 2):
        out.append(('true secondary energies from ECLOUD, switch %d' % sw, U(lambda ld, sw=sw: fp.h_true_ecloud(ld, sw), F('get_energy_true_sec'))))
    for ex, ec, cons, seg in ((False, False, False, True), (True, True, False, False)) if tier == 'quick' else [
            (a, b, d, s) for a in (False, True) for b in (False, True) for d in (False,) for s in (False, True)]:
        out.append(('impacts, rediffused excluded=%s ECLOUD energy=%s conserve energy=%s segments=%s' % (ex, ec, cons, seg), U(
            lambda ld, a=(ex, ec, cons, seg): fp.h_impacts(ld, *a), F('impacts_on_surface', 'inverse_repeat'), ('returns', 'several emitted', 'true secondaries'))))
    return out


ASSUMPTIONS = ['impact energies positive, angle cosine in [0,1], surface parameters in their documented signs (p1Ehat >= p1EInf, s > 1, exponents and amplitudes non-negative; sigmaE >= 1.88 eV with the modified sigma)',
               'scipy.special erf/erfinv/gammainc/gammaincinv: monotone inverse pairs (trusted)',
               'the event energy condition of conserve_energy is not claimed']
