from .c05 import U
from . import boris as B

D = 'dynamics_Boris_f2py.'
K = 'dynamics_Boris_multipole.pusher_Boris_multipole.'


def units(tier):
    out = [
        ('Boris map', U(B.h_spec, [])),
        ('Fortran kernel', U(B.h_fortran, ['boris_step.f:boris_step'], invariants=[('boris_step:*', B.inv_f)], hard_inv=40, auto_inv=False, inv_timeout=300)),
    ]
    for cu in (False, True):
        out.append(('C kernel, custom field %s' % cu, U(lambda ld, cu=cu: B.h_c(ld, cu), ['boris_c_function.c:boris_c'], invariants=[('boris_c:*', B.inv_c)], hard_inv=40, auto_inv=False, inv_timeout=300)))
    for cd in (False, True):
        out.append(('Boris driver, custom time step %s' % cd, U(lambda ld, cd=cd: B.h_driver(ld, cd), [D + 'pusher_Boris.__init__', D + 'pusher_Boris.stepcustomDt' if cd else D + 'pusher_Boris.step'],
                                                          invariants=[('dynamics_Boris_f2py:*', B.inv_driver)])))
    out.append(('magnetic fields', U(B.h_fields, [D + k for k in ('B_none.get_B', 'B_quad.get_B', 'B_file.__init__', 'B_file.get_B')])))
    for b0, bn, sk in ((False, False, False), (True, False, True), (True, True, False), (False, True, True)):
        out.append(('multipole driver, external field %s, field arrays %s, skew %s' % (b0, bn, sk), U(lambda ld, a=(b0, bn, sk): B.h_multi(ld, *a), [
            K + '__init__', K + 'step', K + 'stepcustomDt', 'boris_cython.pyx:boris_step_multipole'])))
    return out


ASSUMPTIONS = ['masses positive; particle, field and multipole arrays are distinct contiguous double arrays of matching length (f2py / Cython buffers)',
               'floating-point arithmetic treated as real arithmetic']
