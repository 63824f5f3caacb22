"""Contracts of the output saver: step-by-step record, passage record, energy histograms, reload."""
import types
from .common import *
from .steps import stub_natives

MPV = ('vx_mp', 'vy_mp', 'vz_mp')
SBS = ('t', 'lam_t_array', 'Nel_timep', 'Nel_imp_time', 'Nel_emit_time', 'En_imp_eV_time', 'En_emit_eV_time', 'En_kin_eV_time', 'cen_density')
ACC = (('Nel_imp_time', 'Nel_impact_last_step_group', 'Nel_impact_last_step'), ('Nel_emit_time', 'Nel_emit_last_step_group', 'Nel_emit_last_step'),
       ('En_imp_eV_time', 'En_imp_last_step_group_eV', 'En_imp_last_step_eV'), ('En_emit_eV_time', 'En_emit_last_step_group_eV', 'En_emit_last_step_eV'))
import scipy.constants
QE = scipy.constants.e
PI = 3.141592653589793


def new_saver(M, c, det, cross, energy, probes, custom):
    """a saver in the middle of a run: i_last_save + 1 samples recorded, arrays with room or full"""
    s = obj(M.pyecloud_saver)
    n = inp_int('size', lambda v: v >= 1)
    i = inp_int('i_last_save', lambda v: v >= -1, lambda v: v < n.z)
    s.i_last_save = i
    names = list(SBS)
    s.flag_detailed_MP_info = 1 if det else 0
    if det:
        names += ['N_mp_time', 'nel_mp_ref_time']
    s.flag_cross_ion = cross
    if cross:
        names += ['Nel_cross_ion', 'N_mp_cross_ion', 'DN_cross_ion']
    s.flag_electric_energy = energy
    if energy:
        names += ['En_electric_eV_time']
    for a in names:
        setattr(s, a, inp_arr(a, n))
    s.sbs_custom_data = {}
    s.step_by_step_custom_observables = None
    if custom:
        s.step_by_step_custom_observables = {'obs': lambda sim: sim.value}
        s.sbs_custom_data = {'obs': inp_arr('obs', n)}
    s.flag_el_dens_probes = probes > 0
    if probes:
        s.N_el_dens_probes = probes
        for a in ('x', 'y', 'r'):
            setattr(s, a + '_el_dens_probes', [inp_real('%sp%d' % (a, k), *([lambda v: v > 0] if a == 'r' else [])) for k in range(probes)])
        s.el_dens_at_probes = Rows([inp_arr('probe%d' % k, n) for k in range(probes)])
    for _, g, _2 in ACC:
        setattr(s, g, inp_real(g))
    s.Dt_save = inp_real('Dt_save', lambda v: v > 0)
    s.t_last_save = inp_real('t_last_save')
    s.r_center = inp_real('r_center', lambda v: v > 0)
    s.cloud_name = 'cl'
    return s, names, n.z, i.z


class Rows(object):
    """table with a fixed number of rows of symbolic length"""
    def __init__(self, rows):
        self.rows = rows

    @property
    def shape(self):
        return (len(self.rows), self.rows[0].n)

    def __setitem__(self, ij, v):
        self.rows[ij[0]][ij[1]] = v

    def __getitem__(self, ij):
        if isinstance(ij, int):
            return self.rows[ij]
        r, k = ij
        if isinstance(r, slice):
            assert r == slice(None)
            return Rows([x[k] for x in self.rows])
        return self.rows[r][k]

    def __rmul__(self, f):
        return Rows([f * x for x in self.rows])
    __mul__ = __rmul__


def concatenate_rows(E_np, M):
    """numpy.concatenate on tables: row by row along axis 1"""
    real = M.np.concatenate

    def cat(arrs, axis=0):
        if isinstance(arrs[0], Rows):
            if axis != 1:
                raise E.Unsupported('concatenate of tables along axis 0')
            return Rows([real([a.rows[k] for a in arrs]) for k in range(len(arrs[0].rows))])
        return real(arrs, axis=axis) if axis else real(arrs)
    return cat


def step_inputs(c, mpmod, custom, cross, energy):
    mp = mp_container(mpmod, c)
    im = types.SimpleNamespace(**{k: inp_real(k) for k in ('Nel_impact_last_step', 'Nel_emit_last_step', 'En_imp_last_step_eV', 'En_emit_last_step_eV')})
    beam = types.SimpleNamespace(tt_curr=inp_real('tt_curr'), lam_t_curr=inp_real('lam_t_curr'))
    sim = types.SimpleNamespace(value=inp_real('observable'))
    U = inp_real('U')
    sim.spacech_ele = types.SimpleNamespace(get_potential_electric_energy=lambda: U)
    cr = tuple(inp_real('cross%d' % k) for k in range(3))
    ci = types.SimpleNamespace(save_cross_ion_data=lambda name: cr if name == 'cl' else None)
    return mp, im, beam, sim, U, cr, ci


def density(c, mp, x0, y0, r):
    """charge inside a circle / its area"""
    N, x, y, q = Z(mp.N_mp), cur(mp, 'x_mp'), cur(mp, 'y_mp'), cur(mp, 'nel_mp')
    mask = SArr(E.Buf(E.Fn(lambda i: z3.And(i >= 0, i < N, (x(i) - x0) * (x(i) - x0) + (y(i) - y0) * (y(i) - y0) < r * r)), (W(mp.x_mp.nz),), 'b'))
    return Z(M_sum(mp.nel_mp[mask])) / (E.num(PI) * r * r)


def M_sum(a):
    return np.sum(a)


def h_sbs(ld, det, cross, energy, probes, custom):
    stub_natives(ld)
    ld.natives['seg_impact'] = seg_native()
    M = ld.get('pyecloud_saver')
    mpmod = ld.get('MP_system')

    def run(c):
        s, names, n, i0 = new_saver(M, c, det, cross, energy, probes, custom)
        mp, im, beam, sim, U, cr, ci = step_inputs(c, mpmod, custom, cross, energy)
        if probes:
            M.np = types.SimpleNamespace(**{k: getattr(np, k) for k in dir(np) if not k.startswith('__')})
            M.np.concatenate = concatenate_rows(np, types.SimpleNamespace(np=np))
        oldmp = snapshot(mp, ATTRS)
        old = {a: getattr(s, a).snap() for a in names}
        if custom:
            old['obs'] = s.sbs_custom_data['obs'].snap()
        oldp = [r.snap() for r in s.el_dens_at_probes.rows] if probes else []
        acc0 = {g: Z(getattr(s, g)) for _, g, _2 in ACC}
        t0, tt = Z(s.t_last_save), Z(beam.tt_curr)
        rec = tt - t0 >= Z(s.Dt_save)
        s._stepbystep_data_save(im, mp, beam, sim, ci)
        i1 = Z(s.i_last_save)
        arrs = {a: getattr(s, a) for a in names}
        if custom:
            arrs['obs'] = s.sbs_custom_data['obs']
        for a, v in arrs.items():
            now = v.snap()
            c.prove_forall('samples of %s already recorded are kept' % a, i0 + 1, lambda k: now(k) == old[a](k))
            c.prove('room for the samples of %s' % a, v.nz > i1)
            c.prove('%s has the length of the time axis' % a, v.nz == s.t.nz)
        for k in range(probes):
            now = s.el_dens_at_probes.rows[k].snap()
            c.prove_forall('densities already recorded at a probe are kept', i0 + 1, lambda j: now(j) == oldp[k](j))
            c.prove('room for the densities', s.el_dens_at_probes.rows[k].nz > i1)
        for a in ATTRS:
            now = cur(mp, a)
            c.prove_forall('recording leaves the particles alone (%s)' % a, mp.x_mp.nz, lambda k: now(k) == oldmp[a](k))
        for a, g, l in ACC:
            # recorded or still accumulated: every step counted once
            new = z3.If(rec, arrs[a].at(i1), z3.RealVal(0))
            c.prove('%s: what is recorded plus what is pending grows by the contribution of the step' % a, new + Z(getattr(s, g)) == acc0[g] + Z(getattr(im, l)))
        if not c.entails(rec):
            c.prove('recorded when the interval has elapsed', z3.Not(rec))
            c.prove('nothing recorded before', z3.And(i1 == i0, Z(s.t_last_save) == t0))
            c.unit.cover('thinned')
            return
        c.unit.cover('returns')
        c.prove('one sample is added', z3.And(i1 == i0 + 1, Z(s.t_last_save) == tt))
        at = lambda a: arrs[a].at(i1)
        c.prove('time and beam profile of the step', z3.And(at('t') == tt, at('lam_t_array') == Z(beam.lam_t_curr)))
        for a, g, l in ACC:
            c.prove('%s restarts from zero after a record' % a, Z(getattr(s, g)) == 0)
        N, q, m = Z(mp.N_mp), oldmp['nel_mp'], Z(mp.mass)
        c.prove('total charge of the step', at('Nel_timep') == c.sum_atom(N, q(E.PB)))
        v2 = sum(oldmp[a](E.PB) * oldmp[a](E.PB) for a in MPV)
        c.prove('kinetic energy of the step', at('En_kin_eV_time') == c.sum_atom(N, E.num(0.5) * m / E.num(QE) * q(E.PB) * v2))
        c.prove('central density', at('cen_density') == density(c, mp, E.num(0), E.num(0), Z(s.r_center)))
        if det:
            c.prove('number of macroparticles and reference size', z3.And(at('N_mp_time') == z3.ToReal(N), at('nel_mp_ref_time') == Z(mp.nel_mp_ref)))
        if cross:
            c.prove('cross-ionization data', z3.And(*[at(a) == Z(v) for a, v in zip(('Nel_cross_ion', 'N_mp_cross_ion', 'DN_cross_ion'), cr)]))
        if energy:
            c.prove('electric energy', at('En_electric_eV_time') == Z(U))
        if custom:
            c.prove('custom observable', at('obs') == Z(sim.value))
        for k in range(probes):
            c.prove('density at a probe', s.el_dens_at_probes.rows[k].at(i1) == density(
                c, mp, Z(s.x_el_dens_probes[k]), Z(s.y_el_dens_probes[k]), Z(s.r_el_dens_probes[k])))
    return run


def h_dict(ld, det, cross, energy, probes, custom):
    """what goes to the output file is the record, up to the last recorded step"""
    stub_natives(ld)
    ld.natives['seg_impact'] = seg_native()
    M = ld.get('pyecloud_saver')

    def run(c):
        s, names, n, i0 = new_saver(M, c, det, cross, energy, probes, custom)
        old = {a: getattr(s, a).snap() for a in names}
        if custom:
            old['obs'] = s.sbs_custom_data['obs'].snap()
        out = s._stepbystep_get_dict()
        c.prove('exactly the recorded quantities are written', z3.BoolVal(set(out) == set(old) | ({'el_dens_at_probes'} if probes else set())))
        for a in old:
            now = out[a].snap()
            c.prove('%s written up to the last recorded step' % a, out[a].nz == i0 + 1)
            c.prove_forall('%s written as recorded' % a, i0 + 1, lambda k: now(k) == old[a](k))
        for k in range(probes):
            r = out['el_dens_at_probes'].rows[k]
            now, was = r.snap(), s.el_dens_at_probes.rows[k].snap()
            c.prove('densities at the probes written up to the last recorded step', r.nz == i0 + 1)
            c.prove_forall('densities at the probes written as recorded', i0 + 1, lambda j: now(j) == was(j))
        c.unit.cover('returns')
    return run


# ------------------------------------------------------------------ record of a passage
class Hist(object):
    """contract of the histogram kernel (proved in C12): adds the weight of each value to the two bins around it.
    Here: which values, weights, bins and histogram the caller gives"""
    def __init__(self, c):
        self.calls = []

    def compute_hist(self, x, w, bias, D, hist):
        x, w = lift(x), lift(w)
        E.same_len(x.n, w.n, 'compute_hist arguments')
        before = hist.snap()
        r = dict(x=x.snap(), w=w.snap(), n=x.nz, bias=bias, D=D, before=before, size=hist.nz)
        hist._assign_all(E.fresh_arr('hist', hist.shape_, 'r'))
        r['after'] = hist.snap()
        self.calls.append(r)


def impact_man(ld, c, seg):
    I_ = ld.get('impact_management_class').impact_management
    im = obj(I_)
    n, ne, nv = inp_int('Nxg_hist', lambda v: v >= 1), inp_int('Nbin_En', lambda v: v >= 1), inp_int('N_vert', lambda v: v >= 1)
    for a in ('nel_impact_hist_tot', 'nel_impact_hist_scrub', 'energ_eV_impact_hist'):
        setattr(im, a, inp_arr(a, n))
    for a in ('nel_hist_impact_seg', 'nel_hist_emit_seg', 'energ_eV_impact_seg'):
        setattr(im, a, inp_arr(a, nv))
    for a in ('En_hist_line', 'cos_angle_hist', 'lifetime_hist_line'):
        setattr(im, a, inp_arr(a, ne))
    im.Nbin_En_hist = ne
    im.Nxg_hist = n
    im.DEn_hist = inp_real('DEn_hist', lambda v: v > 0)
    im.bias_x_hist, im.Dx_hist = inp_real('bias_x'), inp_real('Dx_hist', lambda v: v > 0)
    im.flag_seg = seg
    im.flag_En_hist_seg = seg
    im.chamb = types.SimpleNamespace(N_mp_impact=inp_int('N_impact'), N_mp_corrected=inp_int('N_corrected'), N_vert=3)
    im.seg_En_hist_lines = [inp_arr('segE%d' % k, ne) for k in range(3)]
    return im


def same_hist(c, what, kept, was, n):
    now = kept.snap()
    c.prove('%s has its size' % what, kept.nz == n)
    c.prove_forall('%s is the one accumulated' % what, n, lambda k: now(k) == was(k))


def zeroed(c, what, a):
    now = a.snap()
    c.prove_forall('%s starts again from zero' % what, a.nz, lambda k: now(k) == 0)


PASS = ('nel_impact_hist_tot', 'nel_impact_hist_scrub', 'energ_eV_impact_hist')
SEG = ('nel_hist_impact_seg', 'nel_hist_emit_seg', 'energ_eV_impact_seg')


def h_pass(ld, seg, det, custom):
    stub_natives(ld)
    ld.natives['seg_impact'] = seg_native()
    M = ld.get('pyecloud_saver')
    mpmod = ld.get('MP_system')

    def run(c):
        s = obj(M.pyecloud_saver)
        hk = M.histf = Hist(c)
        mp = mp_container(mpmod, c)
        im = impact_man(ld, c, seg)
        beam = types.SimpleNamespace(tt_curr=inp_real('tt_curr'))
        sim = types.SimpleNamespace(value=inp_real('observable'))
        s.flag_hist_det = det
        s.nel_hist_line = inp_arr('nel_hist_line', im.Nxg_hist)
        lists = ['nel_hist', 't_hist', 'N_mp_impact_pass', 'N_mp_corrected_pass', 'N_mp_pass', 'N_mp_ref_pass'] + list(PASS)
        s.nel_hist_impact_seg = s.nel_hist_emit_seg = s.energ_eV_impact_seg = -1
        if seg:
            lists += list(SEG)
        if det:
            lists.append('nel_hist_det')
            nd = inp_int('Nxg_hist_det', lambda v: v >= 1)
            s.nel_hist_det_line = inp_arr('nel_hist_det_line', nd)
            for a in ('x_min', 'x_max', 'y_min', 'y_max', 'bias_x'):
                setattr(s, a + '_hist_det', inp_real(a + '_hist_det'))
            s.Dx_hist_det = inp_real('Dx_hist_det', lambda v: v > 0)
        first = object()
        for a in lists:
            setattr(s, a, [first])
        s.pass_by_pass_custom_observables = None
        s.pbp_custom_data = {}
        if custom:
            s.pass_by_pass_custom_observables = {'obs': lambda sm: sm.value}
            s.pbp_custom_data = {'obs': [first]}
        oldmp = snapshot(mp, ATTRS)
        oldh = {a: getattr(im, a).snap() for a in PASS + SEG}
        N = Z(mp.N_mp)
        s._pass_by_pass_data_save(mp, im, beam, sim)
        for a in lists:
            l = getattr(s, a)
            c.prove('%s: one entry more for the passage' % a, z3.BoolVal(len(l) == 2 and l[0] is first))
        # impacts of the passage: handed over and started again
        for a in PASS + (SEG if seg else ()):
            same_hist(c, '%s of the passage' % a, getattr(s, a)[1], oldh[a], getattr(im, a).nz)
            c.prove('%s: the record is no view of the accumulator' % a, z3.BoolVal(getattr(s, a)[1].buf is not getattr(im, a).buf))
            zeroed(c, a, getattr(im, a))
        c.prove('time and macroparticle counts of the passage', z3.And(
            Z(s.t_hist[1]) == Z(beam.tt_curr), Z(s.N_mp_impact_pass[1]) == Z(im.chamb.N_mp_impact), Z(s.N_mp_corrected_pass[1]) == Z(im.chamb.N_mp_corrected),
            Z(s.N_mp_pass[1]) == N, Z(s.N_mp_ref_pass[1]) == Z(mp.nel_mp_ref)))
        for a in ATTRS:
            now = cur(mp, a)
            c.prove_forall('recording leaves the particles alone (%s)' % a, mp.x_mp.nz, lambda k: now(k) == oldmp[a](k))
        # charge distribution
        i = c.skolem_int('i')
        if c.entails(N > 0):
            r = hk.calls[0]
            c.prove('the histogram of the charge starts from zero', z3.Implies(z3.And(i >= 0, i < r['size']), r['before'](i) == 0))
            c.prove('all macroparticles are histogrammed with their charges', z3.And(r['n'] == N, z3.Implies(z3.And(i >= 0, i < N), z3.And(
                r['x'](i) == oldmp['x_mp'](i), r['w'](i) == oldmp['nel_mp'](i)))))
            c.prove('bins of the histogram', z3.And(Z(r['bias']) == Z(im.bias_x_hist), Z(r['D']) == Z(im.Dx_hist)))
            same_hist(c, 'charge histogram of the passage', s.nel_hist[1], r['after'], Z(im.Nxg_hist))
            c.unit.cover('returns')
        else:
            c.prove('no macroparticle', N <= 0)
            c.prove('nothing histogrammed', z3.BoolVal(not hk.calls))
            zeroed(c, 'charge histogram of an empty passage', s.nel_hist[1])
            c.unit.cover('empty')
        c.prove('the charge histogram is no view of the working array', z3.BoolVal(s.nel_hist[1].buf is not s.nel_hist_line.buf))
        if det:
            c.prove('the detailed histogram is no view of the working array', z3.BoolVal(s.nel_hist_det[1].buf is not s.nel_hist_det_line.buf))
            if len(hk.calls) == 2:
                r = hk.calls[1]
                x, y, q = oldmp['x_mp'], oldmp['y_mp'], oldmp['nel_mp']
                mask = SArr(E.Buf(E.Fn(lambda k: z3.And(k >= 0, k < N, x(k) > Z(s.x_min_hist_det), x(k) < Z(s.x_max_hist_det), y(k) > Z(s.y_min_hist_det),
                                                        y(k) < Z(s.y_max_hist_det))), (W(N),), 'b'))
                sel = E.selection(mask)
                c.prove('the detailed histogram starts from zero', z3.Implies(z3.And(i >= 0, i < r['size']), r['before'](i) == 0))
                c.prove('macroparticles in the window are histogrammed', z3.And(r['n'] == sel.countz, z3.Implies(z3.And(i >= 0, i < sel.countz), z3.And(
                    r['x'](i) == x(sel.sel_at(i)), r['w'](i) == q(sel.sel_at(i))))))
                c.prove('bins of the detailed histogram', z3.And(Z(r['bias']) == Z(s.bias_x_hist_det), Z(r['D']) == Z(s.Dx_hist_det)))
                same_hist(c, 'detailed histogram of the passage', s.nel_hist_det[1], r['after'], nd.z)
                c.unit.cover('detailed')
            else:
                zeroed(c, 'detailed histogram of a passage with nothing in the window', s.nel_hist_det[1])
                x, y = oldmp['x_mp'], oldmp['y_mp']
                k = c.skolem_int('k')
                c.prove('nothing in the window', z3.Implies(z3.And(k >= 0, k < N), z3.Not(z3.And(
                    x(k) > Z(s.x_min_hist_det), x(k) < Z(s.x_max_hist_det), y(k) > Z(s.y_min_hist_det), y(k) < Z(s.y_max_hist_det)))))
        if custom:
            c.prove('custom observable of the passage', z3.And(z3.BoolVal(len(s.pbp_custom_data['obs']) == 2 and s.pbp_custom_data['obs'][0] is first),
                                                              Z(s.pbp_custom_data['obs'][1]) == Z(sim.value)))
    return run


def h_energy(ld, cos, life, seg):
    """histograms of energies, angles and lifetimes"""
    stub_natives(ld)
    ld.natives['seg_impact'] = seg_native()
    M = ld.get('pyecloud_saver')
    mpmod = ld.get('MP_system')

    def run(c):
        s = obj(M.pyecloud_saver)
        hk = M.histf = Hist(c)
        mp = mp_container(mpmod, c)
        im = impact_man(ld, c, seg)
        beam = types.SimpleNamespace(tt_curr=inp_real('tt_curr'))
        first = object()
        s.t_last_En_hist, s.Dt_En_hist = inp_real('t_last'), inp_real('Dt_En_hist', lambda v: v > 0)
        s.En_hist, s.t_En_hist, s.all_Ekin_hist = [first], [first], [first]
        s.flag_cos_angle_hist, s.flag_lifetime_hist = cos, life
        s.cos_angle_hist = [first] if cos else -1
        s.En_hist_seg = [[first] for _ in range(3)] if seg else -1
        if life:
            s.t_last_lifetime_hist, s.Dt_lifetime_hist = inp_real('t_last_lf'), inp_real('Dt_lf', lambda v: v > 0)
            s.lifetime_hist, s.t_lifetime_hist = [first], [first]
        names = ['En_hist_line', 'cos_angle_hist', 'lifetime_hist_line']
        old = {a: getattr(im, a).snap() for a in names}
        osg = [h.snap() for h in im.seg_En_hist_lines]
        oldmp = snapshot(mp, ATTRS)
        tl, tt, N = Z(s.t_last_En_hist), Z(beam.tt_curr), Z(mp.N_mp)
        due = tt >= tl + Z(s.Dt_En_hist)
        s._energy_cos_and_lifetime_angle_hist_save(beam, im, mp)
        saved = len(s.En_hist) == 2
        if not saved:
            c.prove('recorded when the interval has elapsed', z3.Not(due))
            c.prove('nothing recorded before', z3.And(Z(s.t_last_En_hist) == tl, z3.BoolVal(
                s.En_hist == [first] and s.t_En_hist == [first] and s.all_Ekin_hist == [first] and (not cos or s.cos_angle_hist == [first]) and (not seg or all(h == [first] for h in s.En_hist_seg)))))
            for a in ('En_hist_line',) + (('cos_angle_hist',) if cos else ()):
                now = getattr(im, a).snap()
                c.prove_forall('%s keeps accumulating' % a, getattr(im, a).nz, lambda k: now(k) == old[a](k))
            for k in range(3):
                now = im.seg_En_hist_lines[k].snap()
                c.prove_forall('energy histogram of a segment keeps accumulating', im.seg_En_hist_lines[k].nz, lambda j: now(j) == osg[k](j))
            c.unit.cover('thinned')
        else:
            c.unit.cover('returns')
            # at the latest one part in 1e10 before the interval has elapsed
            c.prove('not recorded before the interval has elapsed', z3.Or(due, tl + Z(s.Dt_En_hist) - tt <= E.num(1e-10) * E.z_abs(tl + Z(s.Dt_En_hist))))
            c.prove('time of the record', z3.And(Z(s.t_last_En_hist) == tt, z3.BoolVal(len(s.t_En_hist) == 2 and s.t_En_hist[0] is first), Z(s.t_En_hist[-1]) == tt))
            for a, lst in [('En_hist_line', s.En_hist)] + ([('cos_angle_hist', s.cos_angle_hist)] if cos else []):
                c.prove('%s: one record more' % a, z3.BoolVal(len(lst) == 2 and lst[0] is first))
                same_hist(c, 'record of %s' % a, lst[1], old[a], getattr(im, a).nz)
                c.prove('%s: the record is no view of the accumulator' % a, z3.BoolVal(lst[1].buf is not getattr(im, a).buf))
                zeroed(c, a, getattr(im, a))
            if seg:
                for k in range(3):
                    c.prove('segment: one record more', z3.BoolVal(len(s.En_hist_seg[k]) == 2 and s.En_hist_seg[k][0] is first))
                    same_hist(c, 'energy histogram of a segment', s.En_hist_seg[k][1], osg[k], Z(im.Nbin_En_hist))
                    zeroed(c, 'energy histogram of a segment', im.seg_En_hist_lines[k])
            c.prove('one record more of the kinetic energies', z3.BoolVal(len(s.all_Ekin_hist) == 2 and s.all_Ekin_hist[0] is first and len(hk.calls) <= 1))
            i = c.skolem_int('i')
            if hk.calls:
                r = hk.calls[0]
                v2 = sum(oldmp[a](i) * oldmp[a](i) for a in MPV)
                c.prove('the histogram of the kinetic energies starts from zero', z3.Implies(z3.And(i >= 0, i < r['size']), r['before'](i) == 0))
                c.prove('kinetic energies of all macroparticles with their charges', z3.And(r['n'] == N, z3.Implies(z3.And(i >= 0, i < N), z3.And(
                    r['x'](i) == E.num(0.5) * Z(mp.mass) / E.num(QE) * v2, r['w'](i) == oldmp['nel_mp'](i)))))
                c.prove('energy bins', z3.And(E.as_real(Z(r['bias'])) == 0, Z(r['D']) == Z(im.DEn_hist)))
                same_hist(c, 'record of the kinetic energies', s.all_Ekin_hist[1], r['after'], Z(im.Nbin_En_hist))
            else:
                c.prove('no macroparticle', N <= 0)
                zeroed(c, 'histogram of the kinetic energies without macroparticles', s.all_Ekin_hist[1])
        if life:
            tlf = z3.Real('t_last_lf')
            if len(s.lifetime_hist) == 2:
                same_hist(c, 'record of the lifetimes', s.lifetime_hist[1], old['lifetime_hist_line'], im.lifetime_hist_line.nz)
                c.prove('time of the record of the lifetimes', z3.And(Z(s.t_last_lifetime_hist) == tt, z3.BoolVal(len(s.t_lifetime_hist) == 2), Z(s.t_lifetime_hist[-1]) == tt))
                zeroed(c, 'lifetimes', im.lifetime_hist_line)
            else:
                now = im.lifetime_hist_line.snap()
                c.prove_forall('lifetimes keep accumulating', im.lifetime_hist_line.nz, lambda k: now(k) == old['lifetime_hist_line'](k))
                c.prove('lifetimes are recorded when their interval has elapsed', z3.Not(tt >= Z(s.t_last_lifetime_hist) + Z(s.Dt_lifetime_hist)))
    return run


# ------------------------------------------------------------------ reload
class Kept(object):
    """the first n rows of a recorded table"""
    def __init__(self, name, n):
        self.name, self.n = name, n

    def tolist(self):
        return self

    def __len__(self):
        return Z(self.n) if not isinstance(self.n, int) else self.n

    def __iter__(self):
        return iter([self])

    def __getitem__(self, s):
        if isinstance(s, slice) and s.start is None and s.step is None:
            return Kept(self.name, ('min', self.n, s.stop))
        raise E.Unsupported('row of a table')


class Table(object):
    """a recorded quantity with one row per sample of its time axis (rows of any shape)"""
    def __init__(self, name, n):
        self.name, self.n = name, n
        self.shape = (n, 2)
        self.ndim = 2

    def __getitem__(self, s):
        if isinstance(s, slice) and s.start is None and s.step is None:
            return Kept(self.name, s.stop)
        raise E.Unsupported('row of a table')


AX = {'t_hist': ('N_mp_corrected_pass', 'N_mp_impact_pass', 'N_mp_pass', 'N_mp_ref_pass', 'energ_eV_impact_hist', 'nel_hist', 'nel_impact_hist_scrub', 'nel_impact_hist_tot'),
      't_En_hist': ('En_hist', 'all_Ekin_hist'), 't_sc_video': ('U_sc_eV',)}
AXO = {'t_hist': {'seg': ('energ_eV_impact_seg', 'nel_hist_impact_seg', 'nel_hist_emit_seg'), 'det': ('nel_hist_det',)}, 't_En_hist': {'cos': ('cos_angle_hist',)}}
FIXED = ('xg_hist', 'xg_hist_det', 'En_g_hist', 'b_spac', 't_sec_beams', 'sec_beam_profiles', 'xg_hist_cos_angle', 'dec_fact_out', 'chamber_area')


def h_reload(ld, opts, copy):
    """what is restored: of each recorded quantity the samples up to the restart time, on its own time axis"""
    stub_natives(ld)
    ld.natives['seg_impact'] = seg_native()
    M = ld.get('pyecloud_saver')

    def run(c):
        s = obj(M.pyecloud_saver)
        lf = 'life' in opts
        s.step_by_step_custom_observables = None
        s.copy_main_outp_folder = '/copies' if copy else None
        s.folder_outp, s.fname_only_main_outp = '/out', 'file.mat'
        s.flag_lifetime_hist = lf
        s.flag_el_dens_probes = False
        s.En_hist_seg = -1
        s.pbp_custom_data = {}
        last = inp_real('last_t')
        axes = {a: inp_arr(a, inp_int('n_' + a, lambda v: v >= 2)) for a in ('t', 't_hist', 't_En_hist', 't_sc_video') + (('t_lifetime_hist',) if lf else ())}
        hist = dict(axes)
        # the first step is recorded, before any checkpoint
        c.note_index((z3.IntVal(0),))
        c.fact(axes['t'].at(z3.IntVal(0)) <= last.z)
        sel = E.selection(axes['t'] <= last)
        sel.inst(z3.IntVal(0))
        names = list(SBS) + (['N_mp_time', 'nel_mp_ref_time'] if 'det' in opts else []) + (['Nel_cross_ion', 'N_mp_cross_ion', 'DN_cross_ion'] if 'cross' in opts else []) + (
            ['En_electric_eV_time'] if 'energy' in opts else [])
        for a in names[1:]:
            hist[a] = inp_arr(a, axes['t'].n)
        for o, ns in (('det', ('N_mp_time', 'nel_mp_ref_time')), ('cross', ('Nel_cross_ion', 'N_mp_cross_ion', 'DN_cross_ion')), ('energy', ('En_electric_eV_time',))):
            for a in ns:
                if a not in names:
                    setattr(s, a, -1)
        tabs = {t: list(v) for t, v in AX.items()}
        for t, d in AXO.items():
            for o, ns in d.items():
                if o in opts:
                    tabs[t] += ns
                else:
                    for a in ns:
                        setattr(s, a, -1)
                        hist[a] = np.array(-1)
        if lf:
            tabs['t_lifetime_hist'] = ['lifetime_hist']
        for t, ns in tabs.items():
            for a in ns:
                hist[a] = Table(a, axes[t].n)
                setattr(s, a, [])
            setattr(s, t, [])
        for a in names:
            setattr(s, a, inp_arr('fresh_' + a, inp_int('fresh', lambda v: v >= 1)))
        for a in FIXED:
            hist[a] = object()
        opened = []
        M.mlm = types.SimpleNamespace(myloadmat_to_obj=lambda p: opened.append(p) or p, obj_to_dict=lambda ob: hist)
        # time axes are kept as lists
        keep_list = {}
        orig = M.np.sum
        old = {a: hist[a].snap() for a in names}
        olda = {a: v.snap() for a, v in axes.items()}
        E.SArr.tolist, tl = (lambda v: v), E.SArr.tolist
        try:
            s.load_from_output(last_t=last)
        finally:
            E.SArr.tolist = tl
        c.prove('the output is read from where it was saved', z3.BoolVal(opened == [('/copies' if copy else '/out') + '/file.mat']))
        T = Z(last)
        cnt = {}
        for a, v in axes.items():
            n, f = v.nz, olda[a]
            cnt[a] = E.count_of(SArr(E.Buf(E.Fn(lambda i, f=f, n=n: z3.And(i >= 0, i < n, f(i) <= T)), (W(n),), 'b'))).z
        for a in names:
            v = getattr(s, a)
            now = v.snap()
            c.prove('%s: the samples up to the restart time, that of the restart included' % a, v.nz == cnt['t'])
            c.prove_forall('%s restored as recorded' % a, cnt['t'], lambda k: now(k) == old[a](k))
        c.prove('recording goes on after the last sample', Z(s.i_last_save) == cnt['t'] - 1)
        c.prove('thinning goes on from the last sample', Z(s.t_last_save) == old['t'](cnt['t'] - 1))
        for t, ns in tabs.items():
            v = getattr(s, t)
            now = v.snap()
            c.prove('%s: the records up to the restart time' % t, v.nz == cnt[t])
            c.prove_forall('%s restored as recorded' % t, cnt[t], lambda k: now(k) == olda[t](k))
            for a in ns:
                v = getattr(s, a)
                c.prove('%s restored from its own record' % a, z3.BoolVal(isinstance(v, Kept) and v.name == a))
                c.prove('%s: as many records as %s' % (a, t), Z(v.n) == cnt[t])
        for a in FIXED:
            c.prove('%s restored' % a, z3.BoolVal(getattr(s, a) is hist[a]))
        c.unit.cover('returns')
    return run


def h_restart(ld, ncl, life):
    """order of a restart from a checkpoint"""
    stub_natives(ld)
    M = ld.get('buildup_simulation')

    def run(c):
        sim = obj(M.BuildupSimulation)
        ev = []
        tt = inp_real('tt_checkpoint')
        tE, tl = inp_real('t_last_En'), inp_real('t_last_lf')
        groups = [object() for _ in range(ncl)]
        ref = dict(beamtim=types.SimpleNamespace(tt_curr=tt, flag_new_bunch_pass=True), spacech_ele=types.SimpleNamespace(
            PyPICobj=types.SimpleNamespace(build_sparse_solver=lambda: ev.append('solver')), flag_em_tracking=False), t_sc_ON=inp_real('t_sc_ON'), flag_presence_sec_beams=object(),
            sec_beams_list=object(), flag_multiple_clouds=ncl > 1, t_last_En_hist=tE, last_step_group_list=groups)
        if life:
            ref['t_last_lifetime_hist'] = tl

        class Saver(object):
            def __init__(self, i):
                self.i = i
                self.flag_lifetime_hist = life
                self.t_last_En_hist = self.t_last_lifetime_hist = self.t_last_checkp = None
                self.flag_save_simulation_state = 'as configured'
                self.filen_main_outp = 'out%d.mat' % i

            def load_from_output(self, last_t=None):
                ev.append(('output', self.i, last_t))

            def set_last_step_group(self, g):
                self.group = g

        class MP(object):
            def __init__(self, i):
                self.i = i

            def __getattr__(self, a):
                if a.startswith('__'):
                    raise AttributeError(a)
                return lambda *k: ev.append((a, self.i))
        saved = [types.SimpleNamespace(pyeclsaver='removed', MP_e=MP(i)) for i in range(ncl)]
        ref['cloud_list'] = list(saved)
        svs = [Saver(i) for i in range(ncl)]
        sim.cloud_list = [types.SimpleNamespace(pyeclsaver=svs[i], MP_e=None) for i in range(ncl)]
        sim.beamtim = types.SimpleNamespace(tt_curr=inp_real('tt_fresh'), flag_new_bunch_pass=False)

        class Fid(object):
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False
        opened = []
        M.open = lambda p, m='r': opened.append((p, m)) or Fid()
        M.pickle = types.SimpleNamespace(load=lambda f: ref)
        sim.load_checkpoint('simulation_checkpoint_12.pkl', load_from_folder='/chk/')
        c.prove('the checkpoint is read', z3.BoolVal(opened == [('/chk/simulation_checkpoint_12.pkl', 'rb')]))
        for k in ('beamtim', 'spacech_ele', 't_sc_ON', 'flag_presence_sec_beams', 'sec_beams_list'):
            c.prove('%s is the one of the checkpoint' % k, z3.BoolVal(getattr(sim, k) is ref[k]))
        for i in range(ncl):
            sv = svs[i]
            c.prove('cloud %d is the one of the checkpoint, with its own saver' % i, z3.BoolVal(sim.cloud_list[i] is saved[i] and saved[i].pyeclsaver is sv))
            c.prove('saver %d goes on saving to the same file' % i, z3.BoolVal(sv.filen_main_outp == 'out%d.mat' % i and sv.flag_save_simulation_state == 'as configured'))
            loads = [e for e in ev if e[0] == 'output' and e[1] == i]
            c.prove('record %d reloaded once' % i, z3.BoolVal(len(loads) == 1))
            c.prove('record %d reloaded up to the time of the checkpoint' % i, Z(loads[0][2]) == Z(tt))
            c.prove('what was pending in record %d is pending again' % i, z3.BoolVal(getattr(sv, 'group', None) is groups[i]))
            c.prove('schedules of record %d go on' % i, z3.And(Z(sv.t_last_En_hist) == Z(tE), Z(sv.t_last_checkp) == Z(tt), z3.BoolVal(sv.i_checkp == 13),
                                                              Z(sv.t_last_lifetime_hist) == Z(tl) if life else z3.BoolVal(True)))
            mine = [e[0] for e in ev if e[0] != 'solver' and e[0] != 'output' and e[1] == i]
            c.prove('cleaning and regenerations of the passage of the checkpoint are done, once', z3.BoolVal(
                mine == ['clean_small_MPs', 'check_for_regeneration', 'check_for_soft_regeneration', 'check_for_async_regeneration']))
        c.prove('the factorisation of the solver is rebuilt', z3.BoolVal(ev.count('solver') == 1))
        c.unit.cover('returns')
    return run


def h_accum(ld):
    M0 = stub_natives(ld)
    ld.natives['seg_impact'] = seg_native()
    M = ld.get('pyecloud_saver')

    def run(c):
        a, b = obj(M.pyecloud_saver), obj(M.pyecloud_saver)
        for _, g, _2 in ACC:
            setattr(a, g, inp_real(g))
            setattr(b, g, inp_real('other_' + g))
        b.set_last_step_group(a.get_last_step_group())
        for _, g, _2 in ACC:
            c.prove('%s survives a checkpoint' % g, Z(getattr(b, g)) == z3.Real(g))
        c.unit.cover('returns')
    return run


def h_checkpoint(ld, last_cloud, copy):
    """when and in which order a checkpoint is saved"""
    stub_natives(ld)
    ld.natives['seg_impact'] = seg_native()
    M = ld.get('pyecloud_saver')

    def run(c):
        s = obj(M.pyecloud_saver)
        ev = []
        s.flag_save_checkpoint = c.branch(z3.Bool('configured'))
        s.checkpoint_DT = inp_real('checkpoint_DT', lambda v: v > 0)
        t0 = s.t_last_checkp = inp_real('t_last_checkp')
        n = c.choose(3, 'n_checkp')
        s.i_checkp = n
        s.checkpoint_folder = '/chk/'
        s.flag_last_cloud = last_cloud
        s.copy_main_outp_folder = '/copies' if copy else None
        s.filen_main_outp = '/out/f.mat'
        beam = types.SimpleNamespace(tt_curr=inp_real('tt_curr'))
        s._sim_state_single_save = lambda *a: ev.append(('state', a[-1]))
        M.shutil = types.SimpleNamespace(copy=lambda a, b: ev.append(('copy', a, b)))
        M.os = types.SimpleNamespace(remove=lambda p: ev.append(('remove', p)), path=M.os.path)
        due = z3.And(z3.BoolVal(s.flag_save_checkpoint), Z(beam.tt_curr) - Z(t0) >= Z(s.checkpoint_DT))
        s._checkpoint_save(beam, None, None, None, None, None, None)
        if not ev:
            c.prove('saved when the interval has elapsed', z3.Not(due))
            c.prove('schedule kept', z3.And(Z(s.t_last_checkp) == Z(t0), z3.BoolVal(s.i_checkp == n)))
            c.unit.cover('not due')
            return
        c.prove('saved only when the interval has elapsed', due)
        ref = [('state', '/chk/simulation_checkpoint_%d.pkl' % n)]
        c.prove('the state is saved first', z3.BoolVal(ev[0] == ref[0]))
        c.prove('the output recorded so far is kept with the checkpoint', z3.BoolVal(ev.count(('copy', '/out/f.mat', '/copies')) == int(copy)))
        rem = [('remove', '/chk/simulation_checkpoint_%d.pkl' % (n - 1))] if n > 0 and last_cloud else []
        c.prove('the previous checkpoint goes only after the new one is there', z3.BoolVal([e for e in ev if e[0] == 'remove'] == rem and (not rem or ev[-1] == rem[0])))
        c.prove('schedule of the checkpoints', z3.And(Z(s.t_last_checkp) == Z(beam.tt_curr), z3.BoolVal(s.i_checkp == n + 1)))
        c.unit.cover('returns')
    return run
