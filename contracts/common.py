"""Shared specification vocabulary: abstract chamber, abstract native kernels, MP container invariant."""
import types
import z3
from pv import engine as E
from pv.engine import S, SArr, W, Z, fn, I, R, B, lift
from pv.unit import inp_real, inp_int, inp_bool, inp_arr, obj
from pv.loader import Loader, NPSHIM as np

ATTRS = ('x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp', 'nel_mp')


class AbstractChamber(object):
    """Interface contract of a chamber object (what the chamber classes are checked against):
    is_outside(x, y) is elementwise; strictly interior points stay |x|<x_aper, |y|<y_aper."""
    chamb_type = 'any'

    def __init__(self, name='chamb'):
        self.out = fn(name + '_out', R, R, B)
        self.x_aper = inp_real('x_aper', lambda v: v > 0)
        self.y_aper = inp_real('y_aper', lambda v: v > 0)
        self.N_mp_impact = 0
        self.N_mp_corrected = 0

    def outz(self, x, y):
        c = E.CTX
        o = self.out(x, y)
        xa, ya = Z(self.x_aper), Z(self.y_aper)
        c.fact_once(('chambout', x, y), lambda: [z3.Implies(z3.Not(o), z3.And(x < xa, x > -xa, y < ya, y > -ya))])
        return o

    def is_outside(self, x, y):
        if not isinstance(x, SArr):
            return W(self.outz(E.as_real(Z(x)), E.as_real(Z(y))))
        return E.ew(self.outz, x, y)


def hist_native(log=True):
    """compute_hist(x, w, bias, D, hist): requires every bin index in bounds; adds total weight sum(w)"""
    m = types.SimpleNamespace()

    def compute_hist(x, w, bias, D, hist):
        c = E.CTX
        x, w = lift(x), lift(w)
        E.same_len(x.n, w.n, 'compute_hist arguments')
        rec = dict(kernel='compute_hist', x=x.copy(), w=w.copy(), bias=bias, D=D, hist=hist.buf)
        c.log.append(rec)
        hist.buf.ghost.setdefault('added', []).append(w.copy())
        hist._assign_all(E.fresh_arr('hist', hist.shape_, 'r'))
    m.compute_hist = compute_hist
    return m


def seg_native():
    m = types.SimpleNamespace()

    def update_seg_impact(i, w, hist):
        c = E.CTX
        w = lift(w)
        c.log.append(dict(kernel='update_seg_impact', i=i, w=w.copy(), hist=hist.buf))
        hist.buf.ghost.setdefault('added', []).append(w.copy())
        hist._assign_all(E.fresh_arr('segh', hist.shape_, 'r'))
    m.update_seg_impact = update_seg_impact
    return m


def mp_container(mod, c, lifetime=False, name='e', chamb=None, wf=True):
    """MP_e satisfying the representation invariant:
       0 <= N_mp <= len; charges of the live particles > 0 ... tail of nel_mp is zero;
       thresholds consistent with the reference size."""
    n_max = inp_int('N_mp_max', lambda v: v >= 0)
    N = inp_int('N_mp', lambda v: v >= 0, lambda v: v <= n_max.z)
    o = obj(mod.MP_system)
    for a in ATTRS:
        facts = None
        if a == 'nel_mp' and wf:
            facts = lambda e, i: [z3.If(i < N.z, e > 0, e == 0)]
        setattr(o, a, inp_arr(a, n_max, 'r', facts))
    o.flag_lifetime_hist = lifetime
    if lifetime:
        o.t_last_impact = inp_arr('t_last_impact', n_max)
    o.N_mp = N
    o.nel_mp_ref = inp_real('nel_mp_ref', lambda v: v > 0)
    o.nel_mp_ref_0 = inp_real('nel_mp_ref_0', lambda v: v > 0)
    o.fact_split = inp_real('fact_split', lambda v: v > 0)
    o.fact_clean = inp_real('fact_clean', lambda v: v > 0)
    o.nel_mp_split = o.fact_split * o.nel_mp_ref
    o.nel_mp_cl_th = o.fact_clean * o.nel_mp_ref
    o.charge = inp_real('charge', lambda v: v != 0)
    o.mass = inp_real('mass', lambda v: v > 0)
    o.chamb = chamb
    o.name = name
    return o


def snapshot(o, names):
    """old values of the arrays / scalars"""
    d = {}
    for a in names:
        v = getattr(o, a)
        d[a] = v.snap() if isinstance(v, SArr) else v
    return d


def cur(o, a):
    return getattr(o, a).snap()
