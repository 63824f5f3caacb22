"""Contract of impact_management.backtrack_and_second_emiss against abstract chamber and emission model."""
from .common import *
from .mp import live_attrs, wf_post

QE = 1.602176634e-19


class Sey(object):
    """abstract emission model: any model; records its arguments"""
    def __init__(self, seg):
        self.calls = []
        self.seg = seg

    def impacts_on_surface(self, mass, nel_impact, x_impact, y_impact, z_impact, vx_impact, vy_impact, vz_impact,
                           Norm_x, Norm_y, i_found, v_impact_n, E_impact_eV, costheta_impact, nel_mp_th, flag_seg):
        c = E.CTX
        n = nel_impact.n
        a = dict(mass=mass, nel=nel_impact, x=x_impact, y=y_impact, z=z_impact, vx=vx_impact, vy=vy_impact, vz=vz_impact,
                 Nx=Norm_x, Ny=Norm_y, i_found=i_found, v_n=v_impact_n, E=E_impact_eV, cos=costheta_impact, th=nel_mp_th, seg=flag_seg)
        self.args = {k: (v.copy() if isinstance(v, SArr) else v) for k, v in a.items()}
        self.calls.append(self.args)
        nn = inp_int('n_emitted_new', lambda v: v >= 0)
        if hasattr(self, 'cap'):
            c.fact(self.cap(nn.z))
        mk = lambda nm, n, f=None: E.fresh_arr(nm, (n,), 'r', f)
        self.tot = mk('nel_emit_tot', n)
        self.rep = {k: mk('rep_' + k, n) for k in ('nel', 'x', 'y', 'z', 'vx', 'vy', 'vz')}
        self.rep['seg'] = E.fresh_arr('rep_seg', (n,), 'i') if self.seg else None
        self.new = {k: mk('new_' + k, nn) for k in ('nel', 'x', 'y', 'z', 'vx', 'vy', 'vz')}
        self.new['seg'] = E.fresh_arr('new_seg', (nn,), 'i') if self.seg else None
        for d in (self.rep, self.new):
            d['x'] = E.fresh_arr('exitx', d['x'].shape_, 'r', lambda e, i: [e >= self.lo, e <= self.hi])
        R_, N_ = self.rep, self.new
        self.snapR = {k: v.snap() for k, v in R_.items() if v is not None}
        self.snapN = {k: v.snap() for k, v in N_.items() if v is not None}
        self.nn = nn
        return (self.tot, E.fresh_arr('etype', (n,), 'i'), {}, R_['nel'], R_['x'], R_['y'], R_['z'], R_['vx'], R_['vy'], R_['vz'], R_['seg'],
                N_['nel'], N_['x'], N_['y'], N_['z'], N_['vx'], N_['vy'], N_['vz'], N_['seg'])


class Wall(AbstractChamber):
    """chamber with the contract of impact_point_and_normal: same number of entries, impact x within the aperture"""
    def __init__(self, seg):
        AbstractChamber.__init__(self)
        self.seg = seg
        self.calls = []

    def impact_point_and_normal(self, x_in, y_in, z_in, x_out, y_out, z_out, *a, **k):
        d = dict(x_in=x_in, y_in=y_in, z_in=z_in, x_out=x_out, y_out=y_out, z_out=z_out)
        self.calls.append({k: v.copy() for k, v in d.items()})
        n = x_in.n
        xa, ya = Z(self.x_aper), Z(self.y_aper)
        X = E.fresh_arr('imp_x', (n,), 'r', lambda e, i: [e <= xa, e >= -xa])
        Y = E.fresh_arr('imp_y', (n,), 'r', lambda e, i: [e <= ya, e >= -ya])
        Zz = E.fresh_arr('imp_z', (n,), 'r')
        NX, NY = E.fresh_arr('Nx', (n,), 'r'), E.fresh_arr('Ny', (n,), 'r')
        seg = None
        if self.seg:
            nv = Z(self.N_vert)
            seg = E.fresh_arr('i_found', (n,), 'i', lambda e, i: [e >= 0, e < nv])
        self.ret = dict(x=X.copy(), y=Y.copy(), z=Zz.copy(), Nx=NX.copy(), Ny=NY.copy(), seg=seg.copy() if seg is not None else None)
        return [X, Y, Zz, NX, NY, seg]


def manager(M, c, ch, sey, lifetime, seg, cosang):
    o = obj(M.impact_management)
    o.chamb, o.sey_mod = ch, sey
    o.flag_lifetime_hist, o.flag_seg, o.flag_En_hist_seg, o.flag_cos_angle_hist = lifetime, seg, False, cosang
    o.Dx_hist = inp_real('Dx_hist', lambda v: v > 0)
    o.bias_x_hist = inp_real('bias_x_hist', lambda v: v <= -Z(ch.x_aper))
    o.Nxg_hist = inp_int('Nxg', lambda v: v >= 2)
    o.scrub_en_th = inp_real('scrub_en_th', lambda v: v >= 0)
    o.En_hist_max = inp_real('En_hist_max', lambda v: v > 0)
    o.DEn_hist = inp_real('DEn', lambda v: v > 0)
    o.Nbin_En_hist = inp_int('NbE', lambda v: v >= 2)
    o.cos_angle_width = inp_real('cosw', lambda v: v > 0)
    o.Dt_lifetime_hist = inp_real('Dt_lt', lambda v: v > 0)
    H = {}
    for nm, n in (('nel_impact_hist_tot', o.Nxg_hist), ('nel_impact_hist_scrub', o.Nxg_hist), ('energ_eV_impact_hist', o.Nxg_hist),
                  ('En_hist_line', o.Nbin_En_hist)):
        H[nm] = inp_arr(nm, n)
    if cosang:
        H['cos_angle_hist'] = inp_arr('cos_angle_hist', inp_int('Ncos', lambda v: v >= 2))
    if lifetime:
        H['lifetime_hist_line'] = inp_arr('lifetime_hist_line', inp_int('Nlt', lambda v: v >= 2))
    if seg:
        ch.N_vert = inp_int('N_vert', lambda v: v >= 3)
        for nm in ('nel_hist_impact_seg', 'energ_eV_impact_seg', 'nel_hist_emit_seg'):
            H[nm] = inp_arr(nm, ch.N_vert)
    for k, v in H.items():
        setattr(o, k, v)
    o.Nel_impact_last_step = o.Nel_emit_last_step = o.En_imp_last_step_eV = o.En_emit_last_step_eV = inp_real('stale')
    return o, H


def setup(ld, c, lifetime, seg, cosang):
    M, MI = ld.get('MP_system'), ld.get('impact_management_class')
    ch = Wall(seg)
    sey = Sey(seg)
    o, H = manager(MI, c, ch, sey, lifetime, seg, cosang)
    sey.lo, sey.hi = Z(o.bias_x_hist), Z(ch.x_aper)
    mp = mp_container(M, c, lifetime, chamb=ch)
    N0 = Z(mp.N_mp)
    sey.cap = lambda nn: N0 + nn <= mp.x_mp.nz
    t = inp_real('tt_curr', lambda v: v >= 0)
    if lifetime:
        tz = t.z
        tl = E.fresh_arr('t_last_impact', mp.t_last_impact.shape_, 'r', lambda e, i: [e <= tz])
        mp.t_last_impact = tl
        c.inputs['t_last_impact'] = tl
    old = snapshot(mp, live_attrs(mp))
    pos = types.SimpleNamespace()
    n_old = W(N0)
    for a in ('x_mp', 'y_mp', 'z_mp'):
        setattr(pos, a, inp_arr('old_' + a, n_old))
    pold = {a: getattr(pos, a).snap() for a in ('x_mp', 'y_mp', 'z_mp')}
    # a particle that hits the wall has moved
    vx, vy, vz = old['vx_mp'], old['vy_mp'], old['vz_mp']
    c.instantiators.append(lambda i: z3.Implies(z3.And(i >= 0, i < N0, ch.outz(old['x_mp'](i), old['y_mp'](i))),
                                                vx(i) * vx(i) + vy(i) * vy(i) + vz(i) * vz(i) > 0))
    hit = lambda i: z3.And(i >= 0, i < N0, ch.outz(old['x_mp'](i), old['y_mp'](i)))
    mask = SArr(E.Buf(E.Fn(hit), (W(mp.x_mp.nz),), 'b'))
    return o, H, mp, ch, sey, t, old, pos, pold, N0, hit, mask


AT = (('x_mp', 'x'), ('y_mp', 'y'), ('z_mp', 'z'), ('vx_mp', 'vx'), ('vy_mp', 'vy'), ('vz_mp', 'vz'), ('nel_mp', 'nel'))


def h_step(ld, lifetime, seg):
    """C01"""
    def h(c):
        o, H, mp, ch, sey, t, old, pos, pold, N0, hit, mask = setup(ld, c, lifetime, seg, True)
        cap0 = mp.x_mp.nz
        hold = {k: v.snap() for k, v in H.items()}
        r = o.backtrack_and_second_emiss(pos, mp, t)
        c.prove('returns the cloud', z3.BoolVal(r is mp))
        if not sey.calls:
            # nothing hit
            c.unit.cover('no impact')
            c.prove_forall('the emission model is called whenever something hits', N0, lambda i: z3.Not(hit(i)))
            c.prove('number of MPs unchanged', Z(mp.N_mp) == N0)
            for a in live_attrs(mp):
                n = cur(mp, a)
                c.prove_forall('%s unchanged when nothing hits' % a, cap0, lambda i: n(i) == old[a](i))
            for k, v in H.items():
                n = getattr(o, k).snap()
                c.prove_forall('%s unchanged when nothing hits' % k, v.nz, lambda i: n(i) == hold[k](i))
            return
        c.unit.cover('impacts')
        s = E.selection(mask)
        A = sey.args
        c.prove('emission model called once', z3.BoolVal(len(sey.calls) == 1))
        c.prove('one impact per particle that is outside', A['nel'].nz == s.countz)
        # the impact handed to the emission model is that of the particle itself
        W1 = ch.calls[0]
        for k in ('x', 'y', 'z'):
            a, b = W1[k + '_in'].snap(), W1[k + '_out'].snap()
            c.prove_forall('impact segment starts at the old %s of the same MP' % k, s.countz, lambda j: a(j) == pold[k + '_mp'](s.sel_at(j)))
            c.prove_forall('impact segment ends at the new %s of the same MP' % k, s.countz, lambda j: b(j) == old[k + '_mp'](s.sel_at(j)))
            g, w = A[k].snap(), ch.ret[k].snap()
            c.prove_forall('impact %s passed to the emission model' % k, s.countz, lambda j: g(j) == w(j))
        for k in ('Nx', 'Ny'):
            g, w = A[k].snap(), ch.ret[k].snap()
            c.prove_forall('%s passed to the emission model' % k, s.countz, lambda j: g(j) == w(j))
        if seg:
            g, w = A['i_found'].snap(), ch.ret['seg'].snap()
            c.prove_forall('segment passed to the emission model', s.countz, lambda j: g(j) == w(j))
        for a, k in (('nel_mp', 'nel'), ('vx_mp', 'vx'), ('vy_mp', 'vy'), ('vz_mp', 'vz')):
            g = A[k].snap()
            c.prove_forall('impact %s passed to the emission model' % k, s.countz, lambda j: g(j) == old[a](s.sel_at(j)))
        gE, gv, gc = A['E'].snap(), A['v_n'].snap(), A['cos'].snap()
        nx, ny = ch.ret['Nx'].snap(), ch.ret['Ny'].snap()
        vx, vy, vz = [(lambda j, a=a: old[a](s.sel_at(j))) for a in ('vx_mp', 'vy_mp', 'vz_mp')]
        v2 = lambda j: vx(j) * vx(j) + vy(j) * vy(j) + vz(j) * vz(j)
        c.prove_forall('normal impact velocity', s.countz, lambda j: gv(j) == vx(j) * nx(j) + vy(j) * ny(j))
        c.prove('mass and split size passed', z3.And(Z(A['mass']) == Z(mp.mass), Z(A['th']) == Z(mp.nel_mp_split)))
        c.prove('segment flag passed', z3.BoolVal(bool(A['seg']) == bool(seg)))
        c.prove_forall('impact energy is kinetic energy', s.countz, lambda j: gE(j) == Z(mp.mass) / (2 * Z(QE_())) * v2(j))
        c.prove_forall('impact angle', s.countz, lambda j: z3.And(gc(j) >= 0, gc(j) * gc(j) * v2(j) == gv(j) * gv(j)))
        # effect on the cloud
        nn = sey.nn.z
        N1 = Z(mp.N_mp)
        c.prove('new MPs are appended', N1 == N0 + nn)
        for a, k in AT:
            n = cur(mp, a)
            rp, nw = sey.snapR[k], sey.snapN[k]
            c.prove_forall('%s of particles inside untouched' % a, N0, lambda i: z3.Implies(z3.Not(hit(i)), n(i) == old[a](i)))
            c.prove_forall('%s of particles outside replaced at its slot' % a, N0, lambda i: z3.Implies(hit(i), n(i) == rp(s.rank_at(i))))
            c.prove_forall('%s of new MPs appended in order' % a, nn, lambda j: n(N0 + j) == nw(j))
            c.prove_forall('%s beyond N_mp untouched' % a, cap0, lambda i: z3.Implies(i >= N1, n(i) == old[a](i)))
            c.prove('length of %s kept' % a, getattr(mp, a).nz == cap0)
        if lifetime:
            n = cur(mp, 't_last_impact')
            c.prove_forall('last impact time set exactly for the particles that hit', N0, lambda i: n(i) == z3.If(hit(i), t.z, old['t_last_impact'](i)))
            c.prove_forall('last impact time of new MPs', nn, lambda j: n(N0 + j) == t.z)
        # charge balance: total over the old slots = before - impinging + replaced; appended slots carry the new charge
        n = cur(mp, 'nel_mp')
        one = z3.RealVal(1)
        c.lemma_sums('charge balance over the existing slots', [(one, N0, n)],
                     [(one, N0, old['nel_mp']), (-one, s.countz, lambda j: old['nel_mp'](s.sel_at(j))), (one, s.countz, lambda j: sey.snapR['nel'](j))])
    return h


def QE_():
    import sys
    return E.num(QE) if False else W(E.num(QE))


def records(c, buf):
    return [r for r in c.log if isinstance(r, dict) and r.get('hist') is buf]


def match(c, what, recs, expect):
    """the kernel calls on one histogram are, in some order, the expected (positions, weights) deposits"""
    c.prove('%s: number of deposits' % what, z3.BoolVal(len(recs) == len(expect)))
    left = list(recs)
    for j, (label, n, key, xf, wf) in enumerate(expect):
        r = left[0]
        if len(left) > 1:
            for cand in left:
                if c.entails(cand['w'].nz == n, 500) and (cand[key].nz.eq(n) or c.entails(cand[key].nz == n, 500)):
                    k = c.skolem_int('m')
                    cw = cand['w'].snap()
                    c.fact(z3.And(k >= 0, k < n))
                    g = cw(k) == wf(k)
                    c.instantiate()
                    ok = c.entails(g, 1500)
                    c.forget(k)
                    if ok:
                        r = cand
                        break
        left.remove(r)
        rx, rw = r[key].snap(), r['w'].snap()
        c.prove('%s: one entry per %s' % (what, label), z3.And(r[key].nz == n, r['w'].nz == n))
        c.prove_forall('%s: bin coordinate of each %s' % (what, label), n, lambda k: rx(k) == xf(k))
        c.prove_forall('%s: weight of each %s' % (what, label), n, lambda k: rw(k) == wf(k))


def h_diag(ld, lifetime, seg, cosang=True, totals=True):
    """C13"""
    def h(c):
        o, H, mp, ch, sey, t, old, pos, pold, N0, hit, mask = setup(ld, c, lifetime, seg, cosang)
        bufs = {k: v.buf for k, v in H.items()}
        geom = (Z(o.Dx_hist), Z(o.bias_x_hist))
        hold = {k: v.snap() for k, v in H.items()}
        o.backtrack_and_second_emiss(pos, mp, t)
        tot = lambda: [Z(getattr(o, a)) for a in ('Nel_impact_last_step', 'En_imp_last_step_eV', 'Nel_emit_last_step', 'En_emit_last_step_eV')]
        for k in H:
            c.prove('%s is the same histogram object' % k, z3.BoolVal(getattr(o, k).buf is bufs[k]))
        if not sey.calls:
            c.unit.cover('no impact')
            for nm, v in zip(('impinging charge', 'impinging energy', 'emitted charge', 'emitted energy'), tot()):
                c.prove('%s is zero without impacts' % nm, v == 0)
            for k in H:
                c.prove('%s receives nothing without impacts' % k, z3.BoolVal(not records(c, bufs[k])))
                n = getattr(o, k).snap()
                c.prove_forall('%s unchanged without impacts' % k, H[k].nz, lambda i: n(i) == hold[k](i))
            return
        c.unit.cover('impacts')
        s = E.selection(mask)
        cnt, nn = s.countz, sey.nn.z
        has_new = c.entails(nn > 0)
        if has_new:
            c.unit.cover('new particles')
        m2q = Z(mp.mass) / (2 * Z(QE_()))
        nel = lambda k: old['nel_mp'](s.sel_at(k))
        vx, vy, vz = [(lambda j, a=a: old[a](s.sel_at(j))) for a in ('vx_mp', 'vy_mp', 'vz_mp')]
        v2 = lambda j: vx(j) * vx(j) + vy(j) * vy(j) + vz(j) * vz(j)
        A = sey.args
        Ei, cosi = A['E'].snap(), A['cos'].snap()
        # E and cos are the kinetic energy and |v.n|/|v| of the impact (also obligations of C01)
        c.prove_forall('impact energy is the kinetic energy', cnt, lambda j: Ei(j) == m2q * v2(j))
        xi = ch.ret['x'].snap()
        R_, N_ = sey.snapR, sey.snapN
        en = lambda D: (lambda k: m2q * (D['vx'](k) * D['vx'](k) + D['vy'](k) * D['vy'](k) + D['vz'](k) * D['vz'](k)))
        Er, En = en(R_), en(N_)
        neg = lambda D, f: (lambda k: -(D['nel'](k) * f(k)))
        imp = 'impact'
        X = lambda f: f
        match(c, 'impact charge histogram', records(c, bufs['nel_impact_hist_tot']), [(imp, cnt, 'x', xi, nel)])
        match(c, 'scrubbing histogram', records(c, bufs['nel_impact_hist_scrub']),
              [(imp, cnt, 'x', xi, lambda k: z3.If(Ei(k) > Z(o.scrub_en_th), nel(k), z3.RealVal(0)))])
        exp = [(imp, cnt, 'x', xi, lambda k: nel(k) * Ei(k)), ('replaced particle', cnt, 'x', R_['x'], neg(R_, Er))]
        if has_new:
            exp.append(('new particle', nn, 'x', N_['x'], neg(N_, En)))
        match(c, 'deposited energy histogram', records(c, bufs['energ_eV_impact_hist']), exp)
        Em = Z(o.En_hist_max)
        match(c, 'impact energy histogram', records(c, bufs['En_hist_line']), [(imp, cnt, 'x', lambda k: z3.If(Ei(k) > Em, Em, Ei(k)), nel)])
        if cosang:
            match(c, 'angle histogram', records(c, bufs['cos_angle_hist']), [(imp, cnt, 'x', cosi, nel)])
        if seg:
            sg = ch.ret['seg'].snap()
            match(c, 'impact charge per segment', records(c, bufs['nel_hist_impact_seg']), [(imp, cnt, 'i', sg, nel)])
            exp = [(imp, cnt, 'i', sg, lambda k: nel(k) * Ei(k)), ('replaced particle', cnt, 'i', R_['seg'], neg(R_, Er))]
            if has_new:
                exp.append(('new particle', nn, 'i', N_['seg'], neg(N_, En)))
            match(c, 'energy per segment', records(c, bufs['energ_eV_impact_seg']), exp)
            exp = [('replaced particle', cnt, 'i', R_['seg'], R_['nel'])]
            if has_new:
                exp.append(('new particle', nn, 'i', N_['seg'], N_['nel']))
            match(c, 'emitted charge per segment', records(c, bufs['nel_hist_emit_seg']), exp)
        # binning geometry: grids consistent and bins within the histogram (the kernel saturates above)
        want = {'nel_impact_hist_tot': geom, 'nel_impact_hist_scrub': geom, 'energ_eV_impact_hist': geom,
                'En_hist_line': (Z(o.DEn_hist), z3.RealVal(0))}
        if cosang:
            want['cos_angle_hist'] = (Z(o.cos_angle_width), z3.RealVal(0))
        if lifetime:
            want['lifetime_hist_line'] = (Z(o.Dt_lifetime_hist), z3.RealVal(0))
        for k, (D, b) in want.items():
            for r in records(c, bufs[k]):
                c.prove('%s: bin width and origin' % k, z3.And(E.as_real(Z(r['D'])) == D, E.as_real(Z(r['bias'])) == b))
                rx = r['x'].snap()
                if r['w'] is not None:
                    c.prove_forall('%s: no bin below the histogram' % k, r['x'].nz, lambda j: rx(j) >= b)
        if lifetime:
            tl = old['t_last_impact']
            rec = records(c, bufs['lifetime_hist_line'])
            good = lambda i: z3.And(hit(i), tl(i) > 0)
            mk = SArr(E.Buf(E.Fn(lambda k: z3.And(k >= 0, k < cnt, tl(s.sel_at(k)) > 0)), (W(cnt),), 'b'))
            s2 = E.selection(mk)
            c.prove('lifetime histogram: at most one deposit', z3.BoolVal(len(rec) <= 1))
            if not rec:
                c.prove_forall('lifetime recorded whenever an impact has a previous one', cnt, lambda k: z3.Not(tl(s.sel_at(k)) > 0))
            else:
                c.unit.cover('lifetime')
                match(c, 'lifetime histogram', rec, [('impact with a previous one', s2.countz, 'x',
                      lambda k: t.z - tl(s.sel_at(s2.sel_at(k))), lambda k: nel(s2.sel_at(k)))])
            n = cur(mp, 't_last_impact')
            c.prove_forall('last impact times set exactly for the particles that hit', N0, lambda i: n(i) == z3.If(hit(i), t.z, tl(i)))
        if not totals:
            return
        # totals
        c.hard_sums = True
        sm = lambda n, f: c.sum_atom(n, f(E.PB))
        Ti, Tei, Te, Tee = tot()
        c.prove('impinging charge of the step', Ti == sm(cnt, nel))
        c.prove('impinging energy of the step', Tei == sm(cnt, lambda k: nel(k) * Ei(k)))
        c.prove('emitted charge of the step', Te == sm(cnt, sey.tot.snap()))
        want = sm(cnt, lambda k: R_['nel'](k) * Er(k))
        if has_new:
            want = want + sm(nn, lambda k: N_['nel'](k) * En(k))
        c.prove('emitted energy of the step', Tee == want)
    return h
