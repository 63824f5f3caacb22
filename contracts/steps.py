"""Contracts of the simulation step: motion over the time of the step, order of the physics, space charge."""
from .common import *

X = ('x', 'y', 'z')


def stub_natives(ld):
    ld.natives['init'] = types.SimpleNamespace()
    ld.natives['int_field_for'] = types.SimpleNamespace(int_field=None)
    ld.natives['hist_for'] = hist_native()


class Beam(object):
    """interface contract of a beam: field proportional to the density of the current step at given positions, or 0."""

    def __init__(self, c, name):
        self.c = c
        self.f = [fn('%s_field_%s' % (name, a), R, R, R) for a in 'xy']
        self.on = inp_bool(name + '_above_threshold')
        for a in ('lam_t_curr', 'Dt_curr', 'sigmax', 'sigmay', 'x_beam_pos', 'y_beam_pos', 'tt_curr'):
            setattr(self, a, inp_real('%s_%s' % (name, a)))
        self.calls = []
        self.pass_numb, self.N_pass_tot = 0, 1

    def at(self, x, y):
        return [z3.If(self.on.z, f(x, y), z3.RealVal(0)) for f in self.f]

    def get_beam_eletric_field(self, mp):
        self.calls.append(mp)
        if not self.c.branch(self.on.z):
            return 0., 0.
        x, y = mp.x_mp[:mp.N_mp], mp.y_mp[:mp.N_mp]
        return tuple(E.ew(lambda p, q, f=f: f(p, q), x, y) for f in self.f)


class Solver(object):
    """space-charge object: field at given positions"""

    def __init__(self, em):
        self.flag_em_tracking = em
        self.f = [fn('sc_%s' % a, R, R, R) for a in ('Ex', 'Ey', 'Bx', 'By', 'Bz')]

    def get_sc_eletric_field(self, mp):
        x, y = mp.x_mp[:mp.N_mp], mp.y_mp[:mp.N_mp]
        return tuple(E.ew(lambda p, q, f=f: f(p, q), x, y) for f in self.f[:2])

    def get_sc_em_field(self, mp):
        x, y = mp.x_mp[:mp.N_mp], mp.y_mp[:mp.N_mp]
        return tuple(E.ew(lambda p, q, f=f: f(p, q), x, y) for f in self.f)


def val(a, k):
    if isinstance(a, SArr):
        n = z3.simplify(a.nz)
        if z3.is_int_value(n) and n.as_long() == 1:
            return a.at(z3.IntVal(0))
        return a.at(k)
    return E.as_real(Z(a)) if not hasattr(a, 'shape') or a.shape == () else E.as_real(Z(float(a[0])))


class Dynamics(object):
    """interface contract of a tracker (C10, C11): step advances by its Dt, stepcustomDt by N_sub_steps * Dt_substep,
    with the fields given at the live macroparticles; verified here: what it is given, and the time covered"""

    def __init__(self, c, mp, beams, sc, kick, clock):
        self.__dict__.update(c=c, mp=mp, beams=beams, sc=sc, kick=kick, clock=clock)

    def given(self, mp, Ex, Ey, Ez, B):
        c = self.c
        c.prove('the macroparticles of this cloud are moved', z3.BoolVal(mp is self.mp))
        k = c.skolem_int('particle')
        c.fact(z3.And(k >= 0, k < Z(mp.N_mp)))
        c.note_index((k,))
        x, y = mp.x_mp.at(k), mp.y_mp.at(k)
        for j, e in enumerate((Ex, Ey)):
            ref = self.sc.f[j](x, y)
            if not self.kick:
                for b in self.beams:
                    ref = ref + b.at(x, y)[j]
            c.prove('E%s at the macroparticle: clouds plus beams at its position' % 'xy'[j], val(e, k) == ref)
        c.prove('no longitudinal field', val(Ez, k) == 0)
        for j, b in enumerate(B):
            c.prove('B%s at the macroparticle' % 'xyz'[j], val(b, k) == (self.sc.f[2 + j](x, y) if self.sc.flag_em_tracking else 0))

    def move(self, dt):
        mp, n = self.mp, self.mp.N_mp
        for a in ATTRS[:6]:
            getattr(mp, a)[:n] = E.fresh_arr('moved_' + a, (n,), 'r')
        self.clock[0] = W(self.clock.at(z3.IntVal(0)) + dt)

    def step(self, MP_e, Ex_n, Ey_n, Ez_n=0., Bx_n=0., By_n=0., Bz_n=0.):
        self.given(MP_e, Ex_n, Ey_n, Ez_n, (Bx_n, By_n, Bz_n))
        self.move(Z(self.Dt))
        return MP_e


class SubDynamics(Dynamics):
    def stepcustomDt(self, MP_e, Ex_n, Ey_n, Ez_n=0., Bx_n=0., By_n=0., Bz_n=0., Dt_substep=None, N_sub_steps=None):
        self.given(MP_e, Ex_n, Ey_n, Ez_n, (Bx_n, By_n, Bz_n))
        c = self.c
        n, d = Z(N_sub_steps), E.as_real(Z(Dt_substep))
        c.prove('number of substeps is a positive integer', z3.And(z3.BoolVal(n.sort() == I), n >= 1))
        self.move(E.z_mul(E.as_real(n), d))
        return MP_e


def inv_substeps(c, loc, loop):
    g = getattr(c, 'mot', None)
    if not g:
        return []
    clk = g['clock'].at(z3.IntVal(0))
    lo, hi = E.as_real(loop.lo), E.as_real(loop.hi)
    ix = E.as_real(loop.index)
    out = [('time covered so far', 's', lambda: E.z_mul(clk, hi - lo) == E.z_mul(ix - lo, g['T']))]
    k = g['K']
    out.append(('charges kept', 's', lambda: g['mp'].nel_mp.at(k) == g['q'](k)))
    return out


def h_motion(ld, mode, reinterp, kick, nsec, em):
    """mode: 'plain' (tracker without substeps), 'dynamics' (substeps of the tracker), 'custom', 'nonuniform'"""
    stub_natives(ld)
    M = ld.get('buildup_simulation')
    mpm = ld.get('MP_system')

    def run(c):
        mp = mp_container(mpm, c)
        mp.charge, mp.mass = inp_real('charge'), inp_real('mass', lambda v: v > 0)
        old = snapshot(mp, ATTRS)
        N = mp.N_mp.z
        clock = np.zeros(1)
        clock = clock if isinstance(clock, SArr) else lift(clock)
        sim = obj(M.BuildupSimulation)
        beam = Beam(c, 'beam')
        secs = [Beam(c, 'sec%d' % i) for i in range(nsec)]
        sc = Solver(em)
        custom = mode == 'custom'
        dy = (Dynamics if mode == 'plain' else SubDynamics)(c, mp, [beam] + secs, sc, kick, clock)
        dy.Dt = inp_real('Dt', lambda v: v > 0)
        if mode != 'plain':
            dy.N_sub_steps = inp_int('N_sub_steps', lambda v: v >= 1)
            if mode == 'custom' and c.branch(z3.Bool('tracker_without_own_substeps')):
                dy.N_sub_steps = None
        beam.Dt_curr = inp_real('Dt_curr', lambda v: v > 0)
        beam.flag_unif_Dt = mode != 'nonuniform'
        if mode in ('plain', 'dynamics'):
            # uniform time axis: the tracker is built with the time step of the axis (init.py)
            c.fact(beam.Dt_curr.z == dy.Dt.z)
        T = beam.Dt_curr.z
        dtc = nc = None
        if custom:
            dtc, nc = inp_real('Dt_substep', lambda v: v > 0), inp_int('N_custom', lambda v: v >= 1)
            # the caller chooses substeps covering its step
            T = E.z_mul(dtc.z, z3.ToReal(nc.z))
        sim.config_dict = {'track_method': 'Boris'}
        sim.flag_reinterp_fields_at_substeps = False
        sim.flag_em_tracking = em
        sim.flag_presence_sec_beams = nsec > 0
        sim.sec_beams_list = secs
        sim.spacech_ele = sc
        forced = reinterp and c.branch(z3.Bool('forced'))
        if reinterp and not forced:
            sim.flag_reinterp_fields_at_substeps = True
        cloud = types.SimpleNamespace(MP_e=mp, dynamics=dy)
        K = inp_int('particle', lambda v: v >= 0)
        c.note_index((K.z,))
        c.mot = dict(clock=clock, T=T, mp=mp, K=K.z, q=old['nel_mp'])
        if kick:
            # velocity seen by the first call of the tracker
            base = dy.given

            def given(*a):
                if not getattr(c, 'kicked', False) and not reinterp:
                    c.kicked = True
                    for j, a_ in enumerate(('vx_mp', 'vy_mp')):
                        dv = sum([b.at(old['x_mp'](K.z), old['y_mp'](K.z))[j] for b in [beam] + secs])
                        ref = z3.If(K.z < N, old[a_](K.z) + dv * T * mp.charge.z / mp.mass.z, old[a_](K.z))
                        c.prove('beam kick over the time of the step on %s' % a_, z3.Implies(K.z < Z(mp.nel_mp.n), getattr(mp, a_).at(K.z) == ref))
                base(*a)
            dy.given = given
        try:
            sim._cloud_motion(cloud, beam, dtc, nc, kick, forced)
        except ValueError:
            c.prove('motion refused only when substeps are needed and not configured', z3.BoolVal(
                (reinterp and mode == 'plain') or (kick and not custom)))
            c.unit.cover('refused')
            return
        c.prove('not refused', z3.BoolVal(not ((reinterp and mode == 'plain') or (kick and not custom))))
        c.prove('the motion covers exactly the time of the step', clock.at(z3.IntVal(0)) == T)
        c.prove('charges and their number kept', z3.And(mp.nel_mp.at(K.z) == old['nel_mp'](K.z), Z(mp.N_mp) == N, z3.BoolVal(cloud.MP_e is mp)))
        c.unit.cover('returns')
    return run


def h_tracks(ld):
    """trackers without substeps are refused where substeps are needed"""
    stub_natives(ld)
    M = ld.get('buildup_simulation')

    def run(c):
        sim = obj(M.BuildupSimulation)
        sim.flag_reinterp_fields_at_substeps = False
        i = c.choose(4, 'method')
        sim.config_dict = {'track_method': ['StrongBdip', 'StrongBgen', 'Boris', 'BorisMultipole'][i]}
        custom = c.branch(z3.Bool('custom'))
        beam = types.SimpleNamespace(flag_unif_Dt=custom)
        stop = []

        class Stop(Exception):
            pass

        def field(mp):
            raise Stop()
        sim._get_field_from_clouds_at_particles = sim._get_field_from_beams_at_particles = field
        dy = types.SimpleNamespace(Dt=inp_real('Dt', lambda v: v > 0), N_sub_steps=inp_int('N', lambda v: v >= 1))
        beam.Dt_curr = inp_real('Dt_curr', lambda v: v > 0)
        try:
            sim._cloud_motion(types.SimpleNamespace(MP_e=None, dynamics=dy), beam, inp_real('d') if custom else None, inp_int('n', lambda v: v >= 1) if custom else None, False, False)
            r = True
        except Stop:
            r = True
        except ValueError:
            r = False
        c.prove('substeps are accepted exactly for the Boris trackers', z3.BoolVal(r == (i >= 2)))
        c.unit.cover('returns')
    return run


# ------------------------------------------------------------------ order of a simulation step
class Log(object):
    def __init__(self):
        self.ev = []

    def __call__(self, *a):
        self.ev.append(a)


def h_order(ld, ncl, nsec, cross):
    stub_natives(ld)
    M = ld.get('buildup_simulation')

    def run(c):
        L = Log()
        sim = obj(M.BuildupSimulation)
        beam = types.SimpleNamespace()
        for a in ('lam_t_curr', 'Dt_curr', 'sigmax', 'sigmay', 'x_beam_pos', 'y_beam_pos', 'tt_curr'):
            setattr(beam, a, inp_real('beam_' + a))
        beam.flag_unif_Dt = True
        beam.flag_new_bunch_pass = c.branch(z3.Bool('new_passage'))
        secs = []
        for s in range(nsec):
            b = types.SimpleNamespace()
            for a in ('lam_t_curr', 'Dt_curr', 'sigmax', 'sigmay', 'x_beam_pos', 'y_beam_pos', 'tt_curr'):
                setattr(b, a, inp_real('sec%d_%s' % (s, a)))
            b.get_beam_eletric_field = lambda mp, s=s: (L('secfield', s, mp), (0., 0.))[1]
            secs.append(b)
        beam.get_beam_eletric_field = lambda mp: (L('beamfield', mp), (0., 0.))[1]
        sc = types.SimpleNamespace(flag_em_tracking=False)
        recheck = c.branch(z3.Bool('interval_elapsed'))

        def check(t_curr=None):
            L('check', t_curr)
            return recheck
        sc.check_for_recomputation = check
        sc.get_sc_eletric_field = lambda mp: (L('scfield', mp), (E.fresh('ex', 'r'), E.fresh('ey', 'r')))[1]
        A = inp_int('node', lambda v: v >= 0)
        c.note_index((A.z,))
        ng = inp_int('N_nodes', lambda v: v > A.z)
        dep = [fn('charge_of_cloud_%d' % i, I, R) for i in range(ncl)]
        rho0 = E.fresh_arr('rho_old', (ng,), 'r')
        sc.rho = rho0
        clouds = []

        def recompute(mp, flag_solve=True, flag_reset=True):
            i = [k for k in range(ncl) if clouds[k].MP_e is mp]
            L('scatter', mp, flag_solve, flag_reset)
            f = dep[i[0]]
            b = sc.rho.snap()
            if c.branch(E.as_bool(Z(flag_reset))):
                sc.rho = SArr(E.Buf(E.Fn(lambda k: f(k)), (ng,), 'r'))
            else:
                sc.rho = SArr(E.Buf(E.Fn(lambda k: b(k) + f(k)), (ng,), 'r'))
        sc.recompute_spchg_efield = recompute
        for i in range(ncl):
            mp = types.SimpleNamespace(N_mp=1)
            mp.get_positions = lambda i=i: (L('positions', i), 'old%d' % i)[1]
            for nm in ('clean_small_MPs', 'check_for_regeneration', 'check_for_soft_regeneration', 'check_for_async_regeneration'):
                setattr(mp, nm, lambda i=i, nm=nm: L(nm, i))
            cl = types.SimpleNamespace(MP_e=mp, rho=SArr(E.Buf(E.Fn(lambda k, i=i: fn('rho_before_%d' % i, I, R)(k)), (ng,), 'r')))
            dy = types.SimpleNamespace(Dt=beam.Dt_curr)

            def step(m, ex, ey, Ez_n=0., Bx_n=0., By_n=0., Bz_n=0., i=i):
                L('step', i, m)
                return m
            dy.step = step
            cl.dynamics = dy
            im = types.SimpleNamespace()

            def impacts(old, m, tt, i=i):
                L('impacts', i, old, m, tt)
                return m
            im.backtrack_and_second_emiss = impacts
            im.sey_mod = types.SimpleNamespace(SEY_model_evol=lambda Dt=None, i=i: L('evol', i, Dt))
            cl.impact_man = im
            cl.t_ion = inp_real('t_ion_%d' % i)
            cl.gas_ion_flag = 1 if c.branch(z3.Bool('gas_%d' % i)) else 0
            cl.photoem_flag = 1 if c.branch(z3.Bool('photo_%d' % i)) else 0

            def gas(m, lam, Dt, sx, sy, x_beam_pos=0., y_beam_pos=0., i=i):
                L('gas', i, m, lam, Dt, sx, sy, x_beam_pos, y_beam_pos)
                return m
            cl.resgasion = types.SimpleNamespace(generate=gas)
            cl.phemiss = types.SimpleNamespace(generate=lambda m, lam, Dt, i=i: L('photo', i, m, lam, Dt))
            cl.pyeclsaver = None
            if c.branch(z3.Bool('saver')):
                cl.pyeclsaver = types.SimpleNamespace(witness=lambda m, *a, i=i, im=im, **k: (L('witness', i, m), im)[1])
            clouds.append(cl)
        sim.cloud_list = clouds
        sim.spacech_ele = sc
        sim.flag_em_tracking = False
        sim.flag_presence_sec_beams = nsec > 0
        sim.sec_beams_list = secs
        sim.t_sc_ON = inp_real('t_sc_ON')
        sim.config_dict = {'track_method': 'StrongBdip'}
        sim.flag_reinterp_fields_at_substeps = False
        sim.cross_ion = types.SimpleNamespace(generate=lambda Dt=None, cloud_list=None: L('cross', Dt, cloud_list)) if cross else None
        sim.beamtim = beam
        force = c.branch(z3.Bool('force_recompute'))
        skc, skr = c.branch(z3.Bool('skip_cleaning')), c.branch(z3.Bool('skip_regen'))
        if c.branch(z3.Bool('beam_passed_in')):
            sim.beamtim = None
            sim.sim_time_step(beamtim_obj=beam, force_recompute_space_charge=force, skip_MP_cleaning=skc, skip_MP_regen=skr)
        else:
            sim.sim_time_step(force_recompute_space_charge=force, skip_MP_cleaning=skc, skip_MP_regen=skr)
        ev = L.ev
        # expected sequence
        P = lambda what, b: c.prove(what, b if z3.is_expr(b) else z3.BoolVal(bool(b)))
        P('recomputation of the space charge is decided once per step, at the time of the step',
          len([e for e in ev if e[0] == 'check']) == 1)
        P('time of the decision', Z([e for e in ev if e[0] == 'check'][0][1]) == beam.tt_curr.z)
        order = [e[0] for e in ev if e[0] not in ('check',)]
        stage = {'positions': 0, 'scfield': 0, 'beamfield': 0, 'secfield': 0, 'step': 1, 'impacts': 2, 'evol': 3, 'gas': 4, 'photo': 5,
                 'cross': 6, 'scatter': 7, 'witness': 8, 'clean_small_MPs': 9, 'check_for_regeneration': 10,
                 'check_for_soft_regeneration': 11, 'check_for_async_regeneration': 12}
        for i, cl in enumerate(clouds):
            mp = cl.MP_e
            mine = [e for e in ev if (len(e) > 1 and (e[1] == i if isinstance(e[1], int) and e[0] not in ('secfield', 'check') else False)) or
                    (e[0] in ('scfield', 'beamfield', 'secfield', 'scatter') and mp in e)]
            st = [stage[e[0]] for e in mine]
            P('cloud %d: positions, motion, impacts, surface evolution, sources, solution, output, cleaning, regeneration in this order' % i, st == sorted(st))
            n = lambda k: [e for e in mine if e[0] == k]
            for k in ('positions', 'step', 'impacts', 'evol', 'scfield', 'beamfield'):
                P('cloud %d: %s once per step' % (i, k), len(n(k)) == 1)
            P('cloud %d: field of every secondary beam' % i, sorted(e[1] for e in n('secfield')) == list(range(nsec)))
            e = n('impacts')[0]
            P('cloud %d: impacts use the positions before the motion' % i, e[2] == 'old%d' % i and e[3] is mp)
            P('cloud %d: time of the impacts' % i, Z(e[4]) == beam.tt_curr.z)
            P('cloud %d: surface evolves over the step' % i, Z(n('evol')[0][2]) == beam.Dt_curr.z)
            g = n('gas')
            on = z3.And(beam.tt_curr.z < cl.t_ion.z, z3.BoolVal(cl.gas_ion_flag == 1))
            P('cloud %d: gas ionization while configured' % i, on == z3.BoolVal(len(g) > 0))
            if g:
                P('cloud %d: gas ionization once per beam' % i, len(g) == 1 + nsec)
                for e, b in zip(g, [beam] + secs):
                    P('cloud %d: gas ionization by that beam' % i, z3.And(*[Z(u) == Z(getattr(b, a)) for u, a in zip(e[3:], (
                        'lam_t_curr', 'Dt_curr', 'sigmax', 'sigmay', 'x_beam_pos', 'y_beam_pos'))] + [z3.BoolVal(e[2] is mp)]))
            p = n('photo')
            P('cloud %d: photoemission while configured' % i, len(p) == (1 if cl.photoem_flag else 0))
            if p:
                P('cloud %d: photoemission by the density of all beams' % i, z3.And(
                    Z(p[0][3]) == sum([b.lam_t_curr.z for b in secs], beam.lam_t_curr.z), Z(p[0][4]) == beam.Dt_curr.z, z3.BoolVal(p[0][2] is mp)))
            P('cloud %d: output once per step' % i, len(n('witness')) == (1 if cl.pyeclsaver else 0))
            np_ = beam.flag_new_bunch_pass
            P('cloud %d: cleaning at passages' % i, len(n('clean_small_MPs')) == (1 if np_ and not skc else 0))
            for k in ('check_for_regeneration', 'check_for_soft_regeneration'):
                P('cloud %d: %s at passages' % (i, k), len(n(k)) == (1 if np_ and not skr else 0))
            P('cloud %d: asynchronous regeneration checked at every step' % i, len(n('check_for_async_regeneration')) == 1)
        # global order: sources of all clouds before cross ionization before the solution before output before cleaning
        gl = [0 if stage[k] <= 5 else stage[k] if stage[k] < 9 else 9 for k in order]
        P('all clouds pass each stage before the next', gl == sorted(gl))
        cr = [e for e in ev if e[0] == 'cross']
        P('cross ionization once per step', len(cr) == (1 if cross else 0))
        if cr:
            P('cross ionization of all clouds over the step', z3.And(Z(cr[0][1]) == beam.Dt_curr.z, z3.BoolVal(cr[0][2] is clouds)))
        s = [e for e in ev if e[0] == 'scatter']
        do = z3.Or(z3.And(beam.tt_curr.z > sim.t_sc_ON.z, z3.BoolVal(recheck)), z3.BoolVal(force))
        P('field recomputed exactly when the interval has elapsed after the start time, or forced', do == z3.BoolVal(len(s) > 0))
        if s:
            P('every cloud deposits once', [e[1] for e in s] == [cl.MP_e for cl in clouds])
            P('density of the solution is the sum over the clouds', sc.rho.at(A.z) == sum([f(A.z) for f in dep]))
            for i, cl in enumerate(clouds):
                P('density kept for cloud %d is its own' % i, cl.rho.at(A.z) == dep[i](A.z))
            sol = [bool(e[2]) for e in s]
            P('solved once, after all clouds', sol == [False] * (ncl - 1) + [True])
        else:
            P('density held', sc.rho.at(A.z) == rho0.at(A.z))
        c.unit.cover('returns')
        c.unit.cover('solved' if s else 'held')
    return run


def h_run(ld, nsec):
    stub_natives(ld)
    M = ld.get('buildup_simulation')

    def run(c):
        sim = obj(M.BuildupSimulation)
        # ghost counters: steps started by each beam, steps simulated
        cnt = lift(np.zeros(2 + nsec, int))
        NT = inp_int('N_steps', lambda v: v >= 0)
        inc = lambda k: cnt.__setitem__(k, W(cnt.at(z3.IntVal(k)) + 1))
        tt = fn('time', I, R)

        class B(object):
            def end_simulation(self):
                return W(cnt.at(z3.IntVal(0)) >= NT.z)

            def next_time_step(self):
                c.prove('a step is started only when the previous one is done', z3.And(*[cnt.at(z3.IntVal(0)) == cnt.at(z3.IntVal(k)) for k in range(2 + nsec)]))
                inc(0)

            @property
            def tt_curr(self):
                return W(tt(cnt.at(z3.IntVal(0))))
            flag_new_bunch_pass = False
            pass_numb = N_pass_tot = 0

        class SB(object):
            def __init__(self, k):
                self.k = k

            def next_time_step(self):
                inc(self.k)
        sim.beamtim = B()
        sim.flag_presence_sec_beams = nsec > 0
        sim.sec_beams_list = [SB(2 + k) for k in range(nsec)]

        def step(*a, **k):
            c.prove('all beams are at the same step', z3.And(*[cnt.at(z3.IntVal(0)) == cnt.at(z3.IntVal(2 + k)) for k in range(nsec)] + [
                cnt.at(z3.IntVal(0)) == cnt.at(z3.IntVal(1)) + 1]))
            inc(1)
        sim.sim_time_step = step
        c.run = dict(cnt=cnt, n=2 + nsec, NT=NT.z)
        tend = inp_real('t_end_sim') if c.branch(z3.Bool('until_given_time')) else None
        sim.run(tend) if tend is not None else sim.run()
        n = cnt.at(z3.IntVal(0))
        c.prove('one simulated step per time step', z3.And(*[n == cnt.at(z3.IntVal(k)) for k in range(2 + nsec)]))
        if tend is None:
            c.prove('all steps of the profile are simulated', n == NT.z)
        else:
            c.prove('ends with the profile, or once the requested time is reached', z3.Or(n == NT.z, tt(n) >= tend.z))
        c.unit.cover('returns')
    return run


def inv_run(c, loc, loop):
    g = getattr(c, 'run', None)
    if not g:
        return []
    at = lambda k: g['cnt'].at(z3.IntVal(k))
    v = [at(k) for k in range(g['n'])]
    out = [('counter %d in step' % k, 's', lambda k=k: v[k] == v[0]) for k in range(1, g['n'])]
    out.append(('not beyond the end', 's', lambda: v[0] <= g['NT']))
    return out


def h_recheck(ld):
    ld.natives['int_field_for'] = types.SimpleNamespace(int_field=None)
    ld.natives['hist_for'] = hist_native()
    M = ld.get('space_charge_class')

    def run(c):
        o = obj(M.space_charge)
        o.flag_decimate = c.branch(z3.Bool('interval configured'))
        o.Dt_sc = inp_real('Dt_sc', lambda v: v > 0) if o.flag_decimate else None
        o.t_last_recom = inp_real('t_last')
        o.last_recomputation_check = False
        t0, t = o.t_last_recom.z, inp_real('t')
        r = o.check_for_recomputation(t_curr=t)
        due = z3.Or(z3.BoolVal(not o.flag_decimate), t.z - t0 >= (Z(o.Dt_sc) if o.flag_decimate else 0))
        c.prove('due exactly when the interval has elapsed since the last time it was due', E.as_bool(Z(r)) == due)
        c.prove('the interval restarts when due, otherwise it goes on', E.as_real(Z(o.t_last_recom)) == z3.If(due, t.z, t0))
        c.prove('decision kept for the output', E.as_bool(Z(o.last_recomputation_check)) == due)
        c.unit.cover('returns')
    return run


# ------------------------------------------------------------------ deposit and interpolation of one cloud (C16)
def h_cloud(ld, em):
    ld.natives['int_field_for'] = types.SimpleNamespace(int_field=None)
    ld.natives['hist_for'] = hist_native()
    ld.natives['rhocompute'] = types.SimpleNamespace()
    M = ld.get('space_charge_class')
    mpm = ld.get('MP_system')

    def run(c):
        mp = mp_container(mpm, c)
        mp.charge, mp.mass = inp_real('charge'), inp_real('mass', lambda v: v > 0)
        old = snapshot(mp, ATTRS)
        N = mp.N_mp.z
        o = obj(M.space_charge)
        o.comm = None
        ev = []
        K = inp_int('particle', lambda v: v >= 0, lambda v: v < N)
        c.note_index((K.z,))
        ga = [fn('E_%s' % a, R, R, R) for a in 'xy']

        def same(a, ref, what):
            c.prove('%s: live macroparticles only' % what, Z(a.n) == N)
            c.prove(what, a.at(K.z) == ref)

        def scatter(x, y, nel, charge=None, flag_add=False):
            ev.append('scatter')
            same(x, old['x_mp'](K.z), 'x of the deposited charges')
            same(y, old['y_mp'](K.z), 'y of the deposited charges')
            same(nel, old['nel_mp'](K.z), 'charge of each macroparticle')
            c.prove('particle charge of this cloud', Z(charge) == mp.charge.z)
            c.prove('added to the other clouds unless it is the first', E.as_bool(Z(flag_add)) == z3.Not(reset.z))

        def solve(*a, **k):
            ev.append('solve')

        def gather(x, y):
            same(x, old['x_mp'](K.z), 'x of the interpolation')
            same(y, old['y_mp'](K.z), 'y of the interpolation')
            return tuple(E.ew(lambda p, q, f=f: f(p, q), x, y) for f in ga)
        o.PyPICobj = types.SimpleNamespace(scatter=scatter, solve=solve, gather=gather, rho=None)
        reset, sol = inp_bool('first'), inp_bool('last')
        o.recompute_spchg_efield(mp, flag_solve=sol, flag_reset=reset)
        c.prove('deposited once', z3.BoolVal(ev.count('scatter') == 1 and ev[0] == 'scatter'))
        c.prove('solved exactly when asked, after the deposit', z3.BoolVal(ev.count('solve') <= 1))
        c.prove('solved exactly when asked', sol.z == z3.BoolVal('solve' in ev))
        ex, ey = o.get_sc_eletric_field(mp)
        for e, f, a in zip((ex, ey), ga, 'xy'):
            c.prove('E%s: solution interpolated at the macroparticle' % a, z3.And(Z(e.n) == N, e.at(K.z) == f(old['x_mp'](K.z), old['y_mp'](K.z))))
        for a in ATTRS:
            c.prove('cloud not changed: ' + a, getattr(mp, a).at(K.z) == old[a](K.z))
        c.unit.cover('returns')
    return run


def h_em(ld):
    ld.natives['int_field_for'] = types.SimpleNamespace(int_field=None)
    ld.natives['hist_for'] = hist_native()
    ld.natives['rhocompute'] = types.SimpleNamespace()
    M = ld.get('space_charge_class_electromagnetic')
    mpm = ld.get('MP_system')
    from scipy.constants import epsilon_0, mu_0, c as CL

    def run(c):
        mp = mp_container(mpm, c)
        mp.charge, mp.mass = inp_real('charge'), inp_real('mass', lambda v: v > 0)
        old = snapshot(mp, ATTRS)
        N = mp.N_mp.z
        o = obj(M.space_charge_electromagnetic)
        o.Dt_sc = inp_real('Dt_sc', lambda v: v > 0)
        o.beta = inp_real('beta', lambda v: v > 0, lambda v: v < 1)
        o.comm = None
        K = inp_int('particle', lambda v: v >= 0, lambda v: v < N)
        k = K.z
        c.note_index((k,))
        x, y, q = old['x_mp'](k), old['y_mp'](k), old['nel_mp'](k)
        reset, sol = inp_bool('first'), inp_bool('last')
        ev = []
        em = E.num(epsilon_0 * mu_0)

        class St(object):
            def __init__(self, name, w, gen=0):
                self.name, self.w, self.gen = name, w, gen
                self.f = [fn('%s_%s_%d' % (name, a, gen), R, R, R) for a in ('gx', 'gy', 'phi')]

            def get_state_object(self):
                return St(self.name, self.w, self.gen + 1)

            def scatter(self, xs, ys, n, charge=None, flag_add=False):
                ev.append(self.name)
                for a, r in ((xs, x), (ys, y), (n, self.w)):
                    c.prove('%s: deposit of the live macroparticles' % self.name, z3.And(Z(a.n) == N, a.at(k) == r))
                c.prove('%s: particle charge' % self.name, Z(charge) == mp.charge.z)
                c.prove('%s: added to the other clouds unless it is the first' % self.name, E.as_bool(Z(flag_add)) == z3.Not(reset.z))

            def _at(self, f, xs, ys):
                for a, r in ((xs, x), (ys, y)):
                    c.prove('%s: interpolated at the live macroparticles' % self.name, z3.And(Z(a.n) == N, a.at(k) == r))
                return E.ew(lambda p, r: f(p, r), xs, ys)

            def gather(self, xs, ys):
                return self._at(self.f[0], xs, ys), self._at(self.f[1], xs, ys)

            def gather_phi(self, xs, ys):
                return self._at(self.f[2], xs, ys)

            def solve(self):
                ev.append('solve')

            def solve_states(self, l):
                c.prove('both vector potentials solved', z3.BoolVal(len(l) == 2 and l[0] is o.state_Ax and l[1] is o.state_Ay))
                ev.append('solve states')
        o.PyPICobj = St('phi', q)
        o.state_Ax = St('Ax', em * q * old['vx_mp'](k))
        o.state_Ay = St('Ay', em * q * old['vy_mp'](k))
        o.state_Ax_old = o.state_Ay_old = None
        first = c.branch(z3.Bool('before the first solution'))
        if not first:
            o.recompute_spchg_emfield(mp, flag_solve=sol, flag_reset=reset)
            c.prove('charge and currents deposited once', z3.BoolVal(sorted(e for e in ev if 'solve' not in e) == ['Ax', 'Ay', 'phi']))
            c.prove('solved exactly when asked', sol.z == z3.BoolVal('solve' in ev))
            c.prove('solved once, after the deposit', z3.BoolVal(ev[3:] in ([], ['solve', 'solve states'], ['solve states', 'solve'])))
            c.prove('potentials of the previous solution kept', z3.BoolVal(o.state_Ax_old.name == 'Ax' and o.state_Ay_old.name == 'Ay'))
        r = o.get_sc_em_field(mp)
        g = lambda s, j: s.f[j](x, y)
        dt = [z3.RealVal(0)] * 2
        if not first:
            dt = [(g(s, 2) - g(t, 2)) / o.Dt_sc.z for s, t in ((o.state_Ax, o.state_Ax_old), (o.state_Ay, o.state_Ay_old))]
        bc = o.beta.z * E.num(CL)
        ref = [g(o.PyPICobj, 0) - dt[0], g(o.PyPICobj, 1) - dt[1], dt[1] / bc, -dt[0] / bc, -g(o.state_Ay, 0) + g(o.state_Ax, 1)]
        for a, e, v in zip(('Ex', 'Ey', 'Bx', 'By', 'Bz'), r, ref):
            c.prove('%s from the potentials at the macroparticle' % a, z3.And(Z(e.n) == N, e.at(k) == v))
        for a in ATTRS:
            c.prove('cloud not changed: ' + a, getattr(mp, a).at(k) == old[a](k))
        c.unit.cover('returns')
    return run
