"""Contracts of the Furman-Pivi emission model."""
from .common import *
from . import sey

num = E.num
REALS = dict(p1EInf=lambda v: v >= 0, p1Ehat=None, eEHat=None, w=lambda v: v > 0, p=lambda v: v > 0, e1=lambda v: v >= 0, e2=lambda v: v >= 0,
             p1RInf=lambda v: v >= 0, eR=lambda v: v > 0, r=lambda v: v > 0, q=lambda v: v >= 0, r1=lambda v: v >= 0, r2=lambda v: v >= 0,
             deltaTSHat=lambda v: v >= 0, eHat0=lambda v: v > 0, s=lambda v: v > 1, t1=lambda v: v >= 0, t2=lambda v: v >= 0,
             t3=lambda v: v >= 0, t4=lambda v: v >= 0)


class Model(object):
    def __init__(self, ld, c, scale=True, shift=True, ecl_theta=False, ecl_energy=False, conserve=False, excl=False, modif=False, clip=False, switch=0):
        M = ld.get('sec_emission_model_furman_pivi')
        self.P = P = {k: (inp_real(k, f) if f else inp_real(k)) for k, f in REALS.items()}
        c.fact(Z(P['p1Ehat']) >= Z(P['p1EInf']))
        P['sigmaE'] = inp_real('sigmaE', lambda v: v >= num(1.88)) if modif else inp_real('sigmaE', lambda v: v > 0)
        self.M_cut = inp_int('M_cut', lambda v: v >= 1)
        pos = lambda e, i: [e > 0]
        self.p_n, self.eps_n = inp_arr('p_n', self.M_cut, 'r', pos), inp_arr('eps_n', self.M_cut, 'r', pos)
        d = dict(P)
        d.update(use_modified_sigmaE=modif, use_ECLOUD_theta0_dependence=ecl_theta, use_ECLOUD_energy=ecl_energy, conserve_energy=conserve,
                 exclude_rediffused=excl, choice='poisson', M_cut=self.M_cut, p_n=self.p_n, eps_n=self.eps_n)
        self.ce = self.cr = z3.RealVal(0)
        if clip:
            for k, a in (('theta_e_max', 'ce'), ('theta_r_max', 'cr')):
                d[k] = inp_real(k, lambda v: v > 0, lambda v: v < num(1.5707963267948966))
                setattr(self, a, E.z_cos(d[k].z))
                c.fact(z3.And(getattr(self, a) > 0, getattr(self, a) < 1))
        self.K = {k: inp_real(v[0], *v[1:]) for k, v in sey.PAR.items()}
        self.o = M.SEY_model_furman_pivi(d, switch_no_increase_energy=switch, secondary_angle_distribution='cosine_3D',
                                         flag_costheta_delta_scale=scale, flag_costheta_Emax_shift=shift, **self.K)
        c.obj_id(self.o)
        self.f = (scale, shift, ecl_theta)

    def __getattr__(self, k):
        return Z(self.P[k])

    # documented component yields (eqs. 25, 28, 31, 32 of the Furman-Pivi paper)
    def de(self, e, c):
        scale, shift, ect = self.f
        x = e - self.eEHat
        d = self.p1EInf + (self.p1Ehat - self.p1EInf) * E.z_exp(-(E.z_pow(z3.If(x >= 0, x, -x) / self.w, self.p) / self.p_))
        a = 1 + self.e1 * (1 - E.z_pow(E.z_max(c, self.ce), self.e2)) if scale and not ect else z3.RealVal(1)
        return d * a

    def dr(self, e, c):
        scale, shift, ect = self.f
        d = self.p1RInf * (1 - E.z_exp(-E.z_pow(e / self.eR, self.r)))
        a = 1 + self.r1 * (1 - E.z_pow(E.z_max(c, self.cr), self.r2)) if scale else z3.RealVal(1)
        return d * a

    def ts(self, e, c):
        scale, shift, ect = self.f
        t3, t4 = (num(0.7), num(1.)) if ect else (self.t3, self.t4)
        eh = self.eHat0 * (1 + t3 * (1 - E.z_pow(c, t4))) if shift else self.eHat0
        x = e / eh
        d = self.deltaTSHat * (self.s * x / (self.s - 1 + E.z_pow(x, self.s)))
        if not scale:
            a = z3.RealVal(1)
        elif ect:
            a = E.z_exp(num(0.5) * (1 - c))
        else:
            a = 1 + self.t1 * (1 - E.z_pow(c, self.t2))
        return d * a

    @property
    def p_(self):
        return Z(self.P['p'])


class Imp(object):
    def __init__(self, c, emin=False):
        self.n = inp_int('n_impacts', lambda v: v >= 0)
        self.E = inp_arr('E_impact_eV', self.n, 'r', lambda e, i: [e > 0])
        self.cos = inp_arr('costheta', self.n, 'r', lambda e, i: [e >= 0, e <= 1])
        self.e, self.c = self.E.snap(), self.cos.snap()


def h_yields(ld, **k):
    def h(c):
        m = Model(ld, c, **k)
        I_ = Imp(c)
        r = m.o.yield_fun_furman_pivi(I_.E, I_.cos, check=False)
        c.unit.cover('returns')
        for nm, a, spec in zip(('elastic', 'rediffused', 'true secondary'), r, (m.de, m.dr, m.ts)):
            g = a.snap()
            c.prove('one %s yield per impact' % nm, a.nz == I_.n.z)
            c.prove_forall('%s yield follows its formula' % nm, I_.n, lambda i: g(i) == spec(I_.e(i), I_.c(i)))
            c.prove_forall('%s yield is non-negative' % nm, I_.n, lambda i: g(i) >= 0)
    return h


def h_process(ld, excl):
    def h(c):
        m = Model(ld, c, excl=excl)
        I_ = Imp(c)
        n = I_.n
        D = [E.fresh_arr(k, (n,), 'r', lambda e, i: [e >= 0]) for k in ('delta_e', 'delta_r', 'delta_ts')]
        de, dr, dt = [a.snap() for a in D]

        def yields(En, costheta, check=True):
            c.prove('yields are evaluated for these impacts', z3.BoolVal(En is I_.E and costheta is I_.cos and bool(check)))
            c.instantiators.append(lambda i: z3.Implies(z3.And(i >= 0, i < n.z), de(i) + dr(i) < 1))
            return tuple(D)
        m.o.yield_fun_furman_pivi = yields
        r = m.o.SEY_process(I_.E, I_.cos, None)
        c.unit.cover('returns')
        u = sey.uni(c)
        B = lambda a: (lambda i, s=a.snap(): E.as_bool(s(i)))
        b, t = B(r[0]), B(r[2])
        f = (lambda i: z3.BoolVal(False)) if excl else B(r[1])
        c.prove_forall('every impact has exactly one type', n, lambda i: z3.And(
            z3.Or(b(i), f(i), t(i)), z3.Not(z3.And(b(i), f(i))), z3.Not(z3.And(b(i), t(i))), z3.Not(z3.And(f(i), t(i)))))
        lim = de if excl else (lambda i: de(i) + dr(i))
        c.prove_forall('true secondary with the remaining probability', n, lambda i: z3.And(
            z3.Implies(u(i) > lim(i), t(i)), z3.Implies(u(i) < lim(i), z3.Not(t(i)))))
        c.prove_forall('elastic with the probability of the elastic yield', n, lambda i: z3.And(
            z3.Implies(u(i) < de(i), b(i)), z3.Implies(u(i) > de(i), z3.Not(b(i)))))
        for a, d in ((r[3], de), (r[5], dt)) + (() if excl else ((r[4], dr),)):
            g = a.snap()
            c.prove_forall('the component yields are returned', n, lambda i: g(i) == d(i))
    return h


def h_check(ld):
    """a total of elastic and rediffused above one is refused"""
    def h(c):
        m = Model(ld, c)
        I_ = Imp(c)
        n = I_.n
        try:
            r = m.o.yield_fun_furman_pivi(I_.E, I_.cos)
        except ValueError:
            c.unit.cover('refused')
            raise E.PathEnd()
        c.unit.cover('returns')
        a, b = r[0].snap(), r[1].snap()
        c.prove_forall('elastic and rediffused probabilities sum to less than one', n, lambda i: a(i) + b(i) < 1)
    return h


def h_backscattered(ld, modif):
    def h(c):
        m = Model(ld, c, modif=modif)
        I_ = Imp(c)
        r = m.o.get_energy_backscattered(I_.E)
        c.unit.cover('returns')
        g = r.snap()
        c.prove('one energy per electron', r.nz == I_.n.z)
        c.prove_forall('elastic energy within [0, impact energy]', I_.n, lambda i: z3.And(g(i) >= 0, g(i) <= I_.e(i)))
    return h


def h_rediffused(ld):
    def h(c):
        m = Model(ld, c)
        I_ = Imp(c)
        r = m.o.get_energy_rediffused(I_.E)
        c.unit.cover('returns')
        g = r.snap()
        c.prove('one energy per electron', r.nz == I_.n.z)
        c.prove_forall('rediffused energy within [0, impact energy]', I_.n, lambda i: z3.And(g(i) >= 0, g(i) <= I_.e(i)))
    return h


def h_true(ld):
    def h(c):
        m = Model(ld, c)
        I_ = Imp(c)
        nn = inp_arr('n_emitted', I_.n, 'i', lambda e, i: [e >= 1, e <= m.M_cut.z])
        r = m.o.get_energy_true_sec(nn, I_.E)
        c.unit.cover('returns')
        if not isinstance(r, SArr):
            c.unit.cover('none')
            c.prove('no energy is drawn only for no electron', z3.And(I_.n.z == 0, z3.BoolVal(len(r) == 0)))
            return
        g = r.snap()
        c.prove('one energy per electron', r.nz == I_.n.z)
        c.prove_forall('true secondary energy is not negative', I_.n, lambda i: g(i) >= 0)
        c.prove_forall('true secondary energy is at most the impact energy', I_.n, lambda i: g(i) <= I_.e(i))
    return h


def h_true_ecloud(ld, switch):
    def h(c):
        em = sey.Emission(ld, c)
        m = Model(ld, c, ecl_energy=True, switch=switch)
        I_ = Imp(c)
        nn = inp_arr('n_emitted', I_.n, 'i', lambda e, i: [e >= 1, e <= m.M_cut.z])
        r = m.o.get_energy_true_sec(nn, I_.E)
        c.unit.cover('returns')
        c.prove('the ECLOUD energy distribution is used with the configured parameters', z3.And(
            z3.BoolVal(len(em.en) == 1), *[z3.And(z3.BoolVal(e['sw'] == switch), Z(e['sig']) == Z(m.K['sigmafit']), Z(e['mu']) == Z(m.K['mufit']),
                                                  Z(e['th']) == Z(m.K['E_th']), Z(e['thr']) == Z(m.K['thresh_low_energy'])) for e in em.en]))
        g, w, q = r.snap(), em.en[0]['out'].snap(), em.en[0]['imp'].snap()
        c.prove_forall('drawn for the impact energies', I_.n, lambda i: z3.And(g(i) == w(i), q(i) == I_.e(i)))
    return h


def h_impacts(ld, excl, ecl_energy, conserve, seg):
    def h(c):
        em = sey.Emission(ld, c)
        m = Model(ld, c, excl=excl, ecl_energy=ecl_energy, conserve=conserve)
        o = m.o
        o.angle_dist_func = em.angle
        I_ = Imp(c)
        n, ei = I_.n, I_.e
        NEL = inp_arr('nel_impact', n, 'r', lambda e, i: [e > 0])
        nel = NEL.snap()
        names = ('x', 'y', 'z', 'vx', 'vy', 'vz')
        A = {k: inp_arr(k + '_impact', n) for k in names}
        NX, NY = inp_arr('Norm_x', n), inp_arr('Norm_y', n)
        old = {k: v.snap() for k, v in A.items()}
        nx, ny = NX.snap(), NY.snap()
        vn = SArr(E.Buf(E.Fn(lambda i: old['vx'](i) * nx(i) + old['vy'](i) * ny(i)), (n,), 'r'))
        c.instantiators.append(lambda i: z3.Implies(z3.And(i >= 0, i < n.z), nx(i) * nx(i) + ny(i) * ny(i) == 1))
        ifound = inp_arr('i_found', n, 'i') if seg else None
        sg = ifound.snap() if seg else None
        th, mass = inp_real('nel_mp_th', lambda v: v > 0), inp_real('mass', lambda v: v > 0)
        # contract of SEY_process
        kind = E.fresh_arr('event', (n,), 'i', lambda e, i: [z3.Or(e == 0, e == 1) if excl else z3.Or(e == 0, e == 1, e == 2)])
        kd = kind.snap()
        DE = E.fresh_arr('delta_e', (n,), 'r', lambda e, i: [e >= 0])
        DR = None if excl else E.fresh_arr('delta_r', (n,), 'r', lambda e, i: [e >= 0])
        DT = E.fresh_arr('delta_ts', (n,), 'r', lambda e, i: [e >= 0])
        de, dr = DE.snap(), (lambda i: z3.RealVal(0)) if excl else DR.snap()
        c.instantiators.append(lambda i: z3.Implies(z3.And(i >= 0, i < n.z), de(i) + dr(i) < 1))
        mk = lambda v: SArr(E.Buf(E.Fn(lambda i: kd(i) == v), (n,), 'b'))
        calls = []

        def proc(E_impact_eV, costheta_impact, i_impact):
            calls.append((E_impact_eV, costheta_impact, i_impact))
            return mk(0), (None if excl else mk(2)), mk(1), DE, DR, DT
        o.SEY_process = proc
        # contracts of the energy draws
        draws = []

        def draw(tag, need_nn):
            def f(*a, **k):
                E0 = k.get('E_0', k.get('E0', a[-1] if a else None))
                nn = k.get('nn', a[0] if need_nn and a else None)
                q = E0.snap()
                g = E.fresh_arr('En_' + tag, (E0.n,), 'r', lambda e, i: [e >= 0] + ([e <= q(i)] if not (ecl_energy and need_nn) else []))
                if need_nn:
                    c.prove('one multiplicity per drawn energy', nn.nz == E0.nz)
                    w = nn.snap()
                    c.prove_forall('multiplicities are between 1 and the cut', E0.n, lambda i: z3.And(w(i) >= 1, w(i) <= m.M_cut.z))
                draws.append((tag, E0.copy(), g.copy()))
                return g
            return f
        o.get_energy_backscattered = draw('elastic', False)
        o.get_energy_rediffused = draw('rediffused', False)
        o.get_energy_true_sec = draw('true', True)
        r = o.impacts_on_surface(mass, NEL, A['x'], A['y'], A['z'], A['vx'], A['vy'], A['vz'], NX, NY, ifound, vn, I_.E, I_.cos, th, seg)
        c.unit.cover('returns')
        c.prove('events are decided once, for these impacts', z3.BoolVal(
            len(calls) == 1 and calls[0][0] is I_.E and calls[0][1] is I_.cos and calls[0][2] is ifound))
        tot, etype, info = r[:3]
        R_ = dict(zip(('nel',) + names + ('seg',), r[3:11]))
        N_ = dict(zip(('nel',) + names + ('seg',), r[11:19]))
        g, ev = tot.snap(), etype.snap()
        mm = Z(E.sym_len(N_['nel']))
        for k, v in N_.items():
            if k == 'seg' and not seg:
                continue
            c.prove('one %s per new MP' % k, Z(E.sym_len(v)) == mm)
        for k, v in R_.items():
            if k == 'seg' and not seg:
                continue
            c.prove('one replaced %s per impact' % k, v.nz == n.z)
        if c.repeats:
            rp = c.repeats[0]
            c.unit.cover('several emitted')
            cnt = lambda i: rp.counts(i)
            c.prove('number of new MPs', mm == rp.total)
        else:
            rp = None
            cnt = lambda i: z3.IntVal(0)
            c.prove('no new MPs', mm == 0)
        RI = lambda x: z3.ToReal(x) if z3.is_int(x) else x
        nrep = R_['nel'].snap()
        c.prove_forall('one event type per impact: elastic, true, rediffused or absorbed', n, lambda i: z3.And(
            z3.Or(ev(i) == 0, ev(i) == 1, ev(i) == 2, ev(i) == 3),
            z3.Implies(kd(i) == 0, ev(i) == 0), z3.Implies(kd(i) == 2, ev(i) == 2), z3.Implies(kd(i) == 1, z3.Or(ev(i) == 1, ev(i) == 3))))
        c.prove_forall('absorbed events emit nothing', n, lambda i: z3.Implies(ev(i) == 3, z3.And(g(i) == 0, nrep(i) == 0, cnt(i) == 0)))
        c.prove_forall('the other events replace the MP by one of the same charge', n, lambda i: z3.Implies(ev(i) != 3, nrep(i) == nel(i)))
        c.prove_forall('elastic and rediffused events emit one electron', n, lambda i: z3.Implies(z3.Or(ev(i) == 0, ev(i) == 2), z3.And(
            cnt(i) == 0, g(i) == nel(i))))
        c.prove_forall('true secondary events emit at least one and at most M_cut electrons', n, lambda i: z3.Implies(ev(i) == 1, z3.And(
            cnt(i) >= 0, cnt(i) + 1 <= m.M_cut.z)))
        c.prove_forall('reported charge is that of the emitted MPs', n, lambda i: g(i) == nrep(i) * (1 + RI(cnt(i))))
        for k in ('x', 'y', 'z'):
            f = R_[k].snap()
            c.prove_forall('replaced MP starts at the impact %s' % k, n, lambda i: z3.Implies(ev(i) != 3, f(i) == old[k](i)))
        if seg:
            f = R_['seg'].snap()
            c.prove_forall('replaced MP belongs to the segment hit', n, lambda i: f(i) == sg(i))
        for k, v in list(A.items()) + [('nel', NEL)]:
            f = v.snap()
            w = old.get(k, nel)
            c.prove_forall('impact %s is not modified' % k, n, lambda i: f(i) == w(i))
        if rp is not None:
            f = E.lift(N_['nel']).snap()
            c.prove_forall('new MPs carry the charge of the impact', mm, lambda j: f(j) == nel(rp.at(j)))
            for k in ('x', 'y', 'z'):
                f = N_[k].snap()
                c.prove_forall('new MPs start at the impact %s of their owner' % k, mm, lambda j: f(j) == old[k](rp.at(j)))
            if seg:
                f = N_['seg'].snap()
                c.prove_forall('new MPs belong to the segment of their owner', mm, lambda j: f(j) == sg(rp.at(j)))
        # the velocities come from drawn energies, with the right normals
        for a in em.an:
            c.prove('emitting mass', Z(a['mass']) == mass.z)
        k = 0

        def sel(nm, cnt, pred):
            for s in c.selections:
                if isinstance(s, E.Selection) and s.countz.eq(z3.simplify(cnt)):
                    c.prove_forall('velocities are drawn for the %s events' % nm, n, lambda i: s.pred(i) == pred(i))
                    return s
            raise E.Unsupported('draw for an unknown set of events')

        rv = [R_[q].snap() for q in ('vx', 'vy', 'vz')]

        def emitted(nm, d, pred, cap=True):
            s = sel(nm, d['En'].nz, pred)
            q, gx, gy, ge = d['q'], d['nx'].snap(), d['ny'].snap(), d['En'].snap()
            c.prove('one energy per %s electron' % nm, d['En'].nz == s.countz)
            c.prove_forall('%s electron emitted along the normal of its impact' % nm, s.countz, lambda k: z3.And(
                gx(k) == nx(s.sel_at(k)), gy(k) == ny(s.sel_at(k))))
            c.prove_forall('%s electron has at most the impact energy' % nm if cap else '%s electron has a non-negative energy' % nm, s.countz,
                           lambda k: z3.And(ge(k) >= 0, ge(k) <= ei(s.sel_at(k))) if cap else ge(k) >= 0)
            for a, w in zip(rv, d['v']):
                w = w.snap()
                c.prove_forall('%s electron takes the drawn velocity' % nm, n, lambda i: z3.Implies(pred(i), a(i) == w(s.rank_at(i))))
        an = list(em.an)
        for d in an:
            d['q'] = None
        if ecl_energy:
            dot = lambda v, i: v[0](i) * nx(i) + v[1](i) * ny(i)
            ov = [old[q] for q in ('vx', 'vy', 'vz')]
            c.prove_forall('elastic: normal velocity reversed', n, lambda i: z3.Implies(kd(i) == 0, dot(rv, i) == -dot(ov, i)))
            c.prove_forall('elastic: speed kept', n, lambda i: z3.Implies(kd(i) == 0, sum(v(i) * v(i) for v in rv) == sum(v(i) * v(i) for v in ov)))
        else:
            emitted('elastic', an.pop(0), lambda i: kd(i) == 0)
        if not excl:
            emitted('rediffused', an.pop(0), lambda i: kd(i) == 2)
        if an:
            c.unit.cover('true secondaries')
            new = an.pop(0) if rp is not None else None
            emitted('first true secondary', an.pop(0), lambda i: ev(i) == 1, cap=not ecl_energy)
            if new:
                gx, gy, ge = [w.snap() for w in (new['nx'], new['ny'], new['En'])]
                c.prove('one energy per new MP', new['En'].nz == mm)
                c.prove_forall('new MP: normal of its owner used', mm, lambda j: z3.And(gx(j) == nx(rp.at(j)), gy(j) == ny(rp.at(j))))
                c.prove_forall('new MP: energy bounded by the impact energy of its owner' if not ecl_energy else 'new MP: energy not negative', mm,
                               lambda j: z3.And(ge(j) >= 0, ge(j) <= ei(rp.at(j))) if not ecl_energy else ge(j) >= 0)
                for q, w in zip(('vx', 'vy', 'vz'), new['v']):
                    f, w = N_[q].snap(), w.snap()
                    c.prove_forall('new MP takes the drawn velocity', mm, lambda j: f(j) == w(j))
        # the bookkeeping used for the energy distributions
        x = info['extended_event_type']
        gx = x.snap()
        c.prove('one extended event type per emitted MP', x.nz == n.z + mm)
        c.prove_forall('extended types start with the events', n, lambda i: gx(i) == ev(i))
        if rp is not None:
            c.prove_forall('extended types of the new MPs', mm, lambda j: gx(n.z + j) == ev(rp.at(j)))
    return h
