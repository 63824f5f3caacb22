"""Contracts of the macroparticle container."""
from .common import *


def live_attrs(o):
    return ATTRS + (('t_last_impact',) if o.flag_lifetime_hist else ())


def wf_post(c, o, old_n=None):
    """representation invariant re-established"""
    c.prove('N_mp stays within the container', z3.And(Z(o.N_mp) >= 0, Z(o.N_mp) <= o.x_mp.nz))
    nel = cur(o, 'nel_mp')
    c.prove_forall('slots beyond N_mp carry no charge', o.nel_mp.nz, lambda i: z3.Implies(i >= Z(o.N_mp), nel(i) == 0))


def h_clean(ld, lifetime):
    def h(c):
        M = ld.get('MP_system')
        o = mp_container(M, c, lifetime)
        old = snapshot(o, live_attrs(o))
        N0, th, ref0 = Z(o.N_mp), Z(o.nel_mp_cl_th), o.nel_mp_ref_0
        ref = o.nel_mp_ref
        lens = {a: getattr(o, a).nz for a in live_attrs(o)}
        mask = SArr(E.Buf(E.Fn(lambda i: z3.And(i >= 0, i < N0, old['nel_mp'](i) >= th)), (W(o.x_mp.nz),), 'b'))
        o.clean_small_MPs()
        sel = E.selection(mask)
        c.unit.cover('returns')
        c.prove('number kept = number of live MPs at or above threshold', Z(o.N_mp) == sel.countz)
        for a in live_attrs(o):
            n = cur(o, a)
            c.prove('length of %s kept' % a, getattr(o, a).nz == lens[a])
            c.prove_forall('%s of kept MPs preserved, in order' % a, sel.countz, lambda k: n(k) == old[a](sel.sel_at(k)))
        wf_post(c, o)
        nel = cur(o, 'nel_mp')
        c.prove_forall('live charges positive', Z(o.N_mp), lambda i: nel(i) > 0)
        c.prove('reference size: reset only when empty',
                z3.And(Z(o.nel_mp_ref) == z3.If(sel.countz == 0, Z(ref0), Z(ref)),
                       Z(o.nel_mp_split) == Z(o.fact_split) * Z(o.nel_mp_ref),
                       Z(o.nel_mp_cl_th) == Z(o.fact_clean) * Z(o.nel_mp_ref)))
    return h


def witness_selection(c, o):
    """the selection whose size is the new N_mp (survivor map of a regeneration)"""
    for s in reversed(c.selections):
        if Z(o.N_mp).eq(s.countz) or c.entails(Z(o.N_mp) == s.countz):
            return s
    raise E.Unsupported('no survivor selection')


def live_sum(c, o, rd, N):
    """sum of rd(i) over 0 <= i < N"""
    return c.sum_atom(Z(N), rd(E.PB))


def h_soft(ld, lifetime, via):
    def h(c):
        M = ld.get('MP_system')
        o = mp_container(M, c, lifetime)
        tgt = inp_int('target', lambda v: v > 0)
        old = snapshot(o, live_attrs(o))
        N0, ref, ref0 = Z(o.N_mp), Z(o.nel_mp_ref), Z(o.nel_mp_ref_0)
        thr = inp_int('N_th', lambda v: v > 0)
        q0 = live_sum(c, o, old['nel_mp'], N0)
        if via == 'direct':
            trig = N0 > Z(tgt)
            o.perform_soft_regeneration(target_N_mp=tgt)
        else:
            o.flag_soft_regen = True
            o.N_mp_soft_regen, o.N_mp_after_soft_regen = thr, tgt
            trig = z3.And(N0 > Z(thr), N0 > Z(tgt))
            o.check_for_soft_regeneration()
        if Z(o.N_mp).eq(N0):
            c.unit.cover('untouched')
            c.prove('acts whenever above the trigger', z3.Not(trig))
            for a in live_attrs(o):
                n = cur(o, a)
                c.prove_forall('%s untouched below the trigger' % a, getattr(o, a).nz, lambda i: n(i) == old[a](i))
            c.prove('reference size untouched', Z(o.nel_mp_ref) == ref)
            return
        c.unit.cover('regenerated')
        c.prove('acts only above the trigger', trig)
        s = witness_selection(c, o)
        n = cur(o, 'nel_mp')
        c.prove('survivors are a subset of the live MPs', s.countz <= N0)
        k = c.skolem_int('k')
        inr = z3.And(k >= 0, k < s.countz)
        c.prove('survivor index is a live MP', z3.Implies(inr, z3.And(s.sel_at(k) >= 0, s.sel_at(k) < N0)))
        for a in live_attrs(o):
            if a == 'nel_mp':
                continue
            r = cur(o, a)
            c.prove_forall('%s of survivors preserved, in order' % a, s.countz, lambda k: r(k) == old[a](s.sel_at(k)))
        k2 = c.skolem_int('k')
        c.prove('charges rescaled by one common factor', z3.Implies(
            z3.And(inr, k2 >= 0, k2 < s.countz), n(k) * old['nel_mp'](s.sel_at(k2)) == n(k2) * old['nel_mp'](s.sel_at(k))))
        # total charge
        qs = c.sum_atom(s.countz, old['nel_mp'](s.sel_at(E.PB)))
        cf = q0 / qs
        c.prove('survivor charge = total/surviving charge x original', z3.Implies(
            z3.And(inr, s.countz > 0, qs > 0), n(k) == cf * old['nel_mp'](s.sel_at(k))))
        # sum over survivors of cf*old = cf*qs = q0
        c.prove('common factor restores the total', z3.Implies(qs > 0, cf * qs == q0))
        wf_post(c, o)
        c.prove('new reference size is max(total/target, initial reference)',
                Z(o.nel_mp_ref) == z3.If(q0 / z3.ToReal(Z(tgt)) < ref0, ref0, q0 / z3.ToReal(Z(tgt))))
        c.prove('thresholds follow the reference size', z3.And(
            Z(o.nel_mp_split) == Z(o.fact_split) * Z(o.nel_mp_ref), Z(o.nel_mp_cl_th) == Z(o.fact_clean) * Z(o.nel_mp_ref)))
    return h


def h_async(ld):
    """asynchronous regeneration: clean first, then soft regeneration of what is left"""
    def h(c):
        M = ld.get('MP_system')
        o = mp_container(M, c, False)
        calls = []
        N1 = inp_int('N_after_clean', lambda v: v >= 0)
        thr = inp_int('N_th', lambda v: v > 0)
        tgt = inp_int('target', lambda v: v > 0)
        o.flag_async_regen = True
        o.N_mp_async_regen, o.N_mp_after_async_regen = thr, tgt

        def clean():
            calls.append('clean')
            o.N_mp = N1

        def soft(target_N_mp):
            calls.append(('soft', target_N_mp))
        o.clean_small_MPs, o.perform_soft_regeneration = clean, soft
        N0 = Z(o.N_mp)
        o.check_for_async_regeneration()
        did = [x for x in calls if x != 'clean']
        c.prove('clean runs exactly when above the trigger', (N0 > Z(thr)) == z3.BoolVal('clean' in calls))
        if 'clean' in calls:
            c.prove('regeneration runs exactly when still above the trigger', (Z(N1) > Z(thr)) == z3.BoolVal(bool(did)))
        if did:
            c.prove('cleaning precedes regeneration, once, with the configured target', z3.And(
                z3.BoolVal(calls[0] == 'clean' and len(calls) == 2), Z(did[0][1]) == Z(tgt)))
    return h


def seed_post(c, o, old, N0, k, lifetime, ref0, E_init, lim, chamb):
    """k MPs appended after the N0 existing ones"""
    xmax, xmin, ymax, ymin = [E.as_real(Z(v)) for v in lim]
    c.prove('new MPs are counted', Z(o.N_mp) == N0 + k)
    for a in live_attrs(o):
        n = cur(o, a)
        c.prove_forall('%s of existing MPs untouched' % a, N0, lambda i: n(i) == old[a](i))
    x, y, nel = cur(o, 'x_mp'), cur(o, 'y_mp'), cur(o, 'nel_mp')
    c.prove_forall('new MPs lie inside the chamber', N0 + k, lambda i: z3.Not(chamb.outz(x(i), y(i))), lo=N0)
    c.prove_forall('new MPs lie inside the requested window', N0 + k, lambda i: z3.And(
        x(i) >= xmin, x(i) <= xmax, y(i) >= ymin, y(i) <= ymax), lo=N0)
    c.prove_forall('new MPs carry the reference size', N0 + k, lambda i: nel(i) == Z(o.nel_mp_ref), lo=N0)
    c.prove('reference size untouched', Z(o.nel_mp_ref) == ref0)
    c.prove_forall('slots beyond the new N_mp untouched', o.nel_mp.nz, lambda i: z3.Implies(i >= N0 + k, nel(i) == old['nel_mp'](i)))
    z = cur(o, 'z_mp')
    c.prove_forall('new MPs start at z=0', N0 + k, lambda i: z(i) == 0, lo=N0)
    vx, vy, vz = cur(o, 'vx_mp'), cur(o, 'vy_mp'), cur(o, 'vz_mp')
    v0sq = 2 * (E.as_real(Z(E_init)) / 3) * E.z_abs(Z(o.charge)) / Z(o.mass)
    for nm, v in (('vx', vx), ('vy', vy), ('vz', vz)):
        c.prove_forall('%s of new MPs bounded by the seed energy' % nm, N0 + k, lambda i: 4 * v(i) * v(i) <= v0sq, lo=N0)
    if lifetime:
        t = cur(o, 't_last_impact')
        c.prove_forall('new MPs have no previous impact time', N0 + k, lambda i: t(i) == -1, lo=N0)


def window_cand(c, a):
    """candidate loop invariant: all elements within the requested window (either axis)"""
    w = getattr(c, 'window', None)
    if w is None or a.kind != 'r':
        return None
    s = a.snap()
    return s


def win_cands():
    def mk(j):
        def f(c, a):
            w = getattr(c, 'window', None)
            if w is None or a.kind != 'r':
                return None
            hi, lo = w[j]
            s = a.snap()
            return lambda i: z3.And(s(i) >= lo, s(i) <= hi)
        return f
    return [('winx', mk(0)), ('winy', mk(1))]


def h_uniform(ld, lifetime, which, nones):
    def h(c):
        M = ld.get('MP_system')
        ch = AbstractChamber()
        o = mp_container(M, c, lifetime, chamb=ch)
        old = snapshot(o, live_attrs(o))
        N0, ref0 = Z(o.N_mp), Z(o.nel_mp_ref)
        D = inp_real('DNel' if which == 'uniform' else 'n_ele', lambda v: v >= 0)
        En = inp_real('E_init', lambda v: v >= 0)
        if nones:
            lim = (None,) * 4
            elim = (ch.x_aper, -ch.x_aper, ch.y_aper, -ch.y_aper)
        else:
            xmin, ymin = inp_real('x_min'), inp_real('y_min')
            xmax, ymax = inp_real('x_max', lambda v: v >= xmin.z), inp_real('y_max', lambda v: v >= ymin.z)
            lim = elim = (xmax, xmin, ymax, ymin)
        c.window = ((Z(elim[0]), Z(elim[1])), (Z(elim[2]), Z(elim[3])))
        Dn = Z(D) if which == 'uniform' else Z(D) * (Z(elim[0]) - Z(elim[1])) * (Z(elim[2]) - Z(elim[3]))
        # capacity: the container was sized for the simulation
        c.fact(z3.ToReal(N0) + Dn / ref0 + 1 <= z3.ToReal(o.x_mp.nz))
        c.fact(Dn >= 0)
        c.fact(Dn / ref0 >= 0)
        if which == 'uniform':
            o.add_uniform_MP_distrib(D, En, *lim)
        else:
            o.add_uniform_ele_density(D, En, *lim)
        k = Z(o.N_mp) - N0
        c.unit.cover('returns')
        if which == 'uniform':
            q = Dn / ref0
            c.prove('number of new MPs is the requested charge over the reference size, within one',
                    z3.And(z3.ToReal(k) > q - 1, z3.ToReal(k) < q + 1))
        else:
            q = Dn / ref0
            c.prove('number of new MPs at most density x area over the reference size, plus one',
                    z3.And(k >= 0, z3.ToReal(k) < q + 1))
        seed_post(c, o, old, N0, k, lifetime, ref0, En, elim, ch)
        c.prove('N_mp stays within the container', z3.And(Z(o.N_mp) >= 0, Z(o.N_mp) <= o.x_mp.nz))
    return h


def h_add_new(ld, lifetime):
    def h(c):
        M = ld.get('MP_system')
        o = mp_container(M, c, lifetime)
        old = snapshot(o, live_attrs(o))
        N0 = Z(o.N_mp)
        n = inp_int('n_new', lambda v: v >= 0)
        c.fact(N0 + n.z <= o.x_mp.nz)
        new = {a: inp_arr('new_' + a, n) for a in ATTRS}
        t = inp_real('t')
        rd = {a: new[a].snap() for a in ATTRS}
        o.add_new_MPs(n, new['nel_mp'], new['x_mp'], new['y_mp'], new['z_mp'], new['vx_mp'], new['vy_mp'], new['vz_mp'], t)
        c.unit.cover('returns')
        c.prove('N_mp grows by the number added', Z(o.N_mp) == N0 + n.z)
        for a in live_attrs(o):
            r = cur(o, a)
            c.prove_forall('%s of existing MPs untouched' % a, N0, lambda i: r(i) == old[a](i))
            if a == 't_last_impact':
                c.prove_forall('t_last_impact of added MPs', N0 + n.z, lambda i: r(i) == t.z, lo=N0)
            else:
                c.prove_forall('%s of added MPs stored at its own slot' % a, N0 + n.z, lambda i: r(i) == rd[a](i - N0), lo=N0)
            c.prove_forall('%s beyond N_mp untouched' % a, getattr(o, a).nz, lambda i: z3.Implies(i >= N0 + n.z, r(i) == old[a](i)))
    return h


def h_from_dict(ld, lifetime, src, init):
    """add_from_file / init_from_dict applied to an extracted state"""
    def h(c):
        M = ld.get('MP_system')
        o = mp_container(M, c, lifetime)
        old = snapshot(o, live_attrs(o))
        N0 = Z(o.N_mp)
        n = inp_int('n_saved', lambda v: v >= 0)
        d = {a: inp_arr('d_' + a, n, 'r', (lambda e, i: [e > 0]) if a == 'nel_mp' else None) for a in ATTRS}
        rd = {a: d[a].snap() for a in ATTRS}
        d['N_mp'] = n
        if src == 't':
            d['t_last_impact'] = inp_arr('d_t_last', n)
            rd['t_last_impact'] = d['t_last_impact'].snap()
        start = z3.IntVal(0) if init else N0
        c.fact(start + n.z <= o.x_mp.nz)
        if init:
            o.init_from_dict(d)
        else:
            o.add_from_file(d)
        c.unit.cover('returns')
        c.prove('N_mp', Z(o.N_mp) == start + n.z)
        for a in live_attrs(o):
            r = cur(o, a)
            c.prove_forall('%s of existing MPs untouched' % a, start, lambda i: r(i) == old[a](i))
            if a in rd:
                c.prove_forall('%s restored element by element' % a, start + n.z, lambda i: r(i) == rd[a](i - start), lo=start)
            else:
                c.prove_forall('%s of loaded MPs has no previous impact' % a, start + n.z, lambda i: r(i) == -1, lo=start)
        wf_post(c, o)
    return h


def h_extract(ld):
    def h(c):
        M = ld.get('MP_system')
        o = mp_container(M, c, False)
        old = snapshot(o, ATTRS)
        N0 = Z(o.N_mp)
        d = o.extract_dict()
        c.unit.cover('returns')
        c.prove('N_mp saved', Z(d['N_mp']) == N0)
        # mutate the container afterwards: the extracted state must be independent
        for a in ATTRS:
            getattr(o, a)[:] = 7.
        for a in ATTRS:
            r = d[a].snap()
            c.prove('%s saved with N_mp entries' % a, d[a].nz == N0)
            c.prove_forall('%s saved element by element' % a, N0, lambda i: r(i) == old[a](i))
        p = None
    return h


def h_positions(ld):
    def h(c):
        M = ld.get('MP_system')
        o = mp_container(M, c, False)
        old = snapshot(o, ATTRS)
        N0 = Z(o.N_mp)
        p = o.get_positions()
        for a in ('x_mp', 'y_mp', 'z_mp'):
            getattr(o, a)[:] = 7.
        c.unit.cover('returns')
        for a in ('x_mp', 'y_mp', 'z_mp'):
            r = getattr(p, a).snap()
            c.prove('%s snapshot has N_mp entries' % a, getattr(p, a).nz == N0)
            c.prove_forall('%s snapshot independent of later motion' % a, N0, lambda i: r(i) == old[a](i))
    return h
