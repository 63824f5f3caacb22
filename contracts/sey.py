"""Contracts of the yield-based secondary emission models."""
from .common import *
from scipy.constants import e as QE

MODELS = {
    'ECLOUD': ('sec_emission_model_ECLOUD', 'SEY_model_ECLOUD'),
    'ACC_LOW': ('sec_emission_model_accurate_low_ene', 'SEY_model_acc_low_ene'),
    'cos_low_ene': ('sec_emission_model_cos_low_ener', 'SEY_model_cos_le'),
    'flat_low_ene': ('sec_emission_model_flat_low_ener', 'SEY_model_flat_le'),
    'from_file': ('sec_emission_model_from_file', 'SEY_model_from_file'),
    'ECLOUD_nunif': ('sec_emission_model_ECLOUD_nunif', 'SEY_model_ECLOUD_non_unif'),
    'ECLOUD_nunif_charging': ('sec_emission_model_ECLOUD_nunif', 'SEY_model_ECLOUD_non_unif_charging'),
}
num = E.num


# ------------------------------------------------------------------ documented laws
def true_law(e, c, Emax, dmax, s, scale=True, shift=True, sm1=None):
    d = E.z_mul(dmax, E.z_exp(num(0.5) * (1 - c))) if scale else dmax
    em = Emax * (1 + num(0.7) * (1 - c)) if shift else Emax
    x = e / em
    return d * (s * x) / ((s - 1 if sm1 is None else sm1) + E.z_pow(x, s))


def elastic_law(e, R0, E0):
    a, b = E.z_sqrt(e), E.z_sqrt(e + E0)
    q = (a - b) / (a + b)
    return R0 * (q * q)


class Impacts(object):
    def __init__(self, c, emin=0, strict=False):
        self.n = inp_int('n_impacts', lambda v: v >= 0)
        self.nel = inp_arr('nel_impact', self.n, 'r', lambda e, i: [e > 0])
        self.E = inp_arr('E_impact_eV', self.n, 'r', lambda e, i: [e > 0 if strict else e >= 0])
        self.cos = inp_arr('costheta', self.n, 'r', lambda e, i: [e >= 0, e <= 1])
        self.s = [a.snap() for a in (self.nel, self.E, self.cos)]


def uni(c):
    """the uniform draw that decides between elastic and true secondary"""
    d = [a for n, a in c.rng_draws if n == 'rand']
    if len(d) != 1:
        raise E.Unsupported('the classification is not made by one uniform draw')
    return d[0].snap()


def classify_post(c, n, r, nel, true, refl, prob, nel_spec=None):
    """r = SEY_process(...): documented yield, elastic probability, one class per impact"""
    emit, el, ts = r
    ge, gl, gt = emit.snap(), el.snap(), ts.snap()
    c.prove('one entry per impact', z3.And(emit.nz == Z(n), el.nz == Z(n), ts.nz == Z(n)))
    c.prove_forall('true secondary yield is non-negative', n, lambda i: true(i) >= 0)
    c.prove_forall('elastic yield is non-negative', n, lambda i: refl(i) >= 0)
    if nel_spec is None:
        c.prove_forall('emitted charge is charge x documented yield', n, lambda i: ge(i) == nel(i) * (true(i) + refl(i)))
    c.prove_forall('emitted charge is non-negative', n, lambda i: ge(i) >= 0)
    u = uni(c)
    c.prove_forall('elastic with the documented probability', n, lambda i: E.as_bool(gl(i)) == (u(i) < prob(i)))
    c.prove_forall('elastic probability within [0,1]', n, lambda i: z3.And(prob(i) >= 0, prob(i) <= 1))
    c.prove_forall('either elastic or true secondary', n, lambda i: E.as_bool(gt(i)) == z3.Not(E.as_bool(gl(i))))
    if nel_spec is not None:
        c.prove_forall('emitted charge per class', n, lambda i: ge(i) == nel_spec(i, E.as_bool(gl(i))))


def frac(true, refl):
    return lambda i: z3.If(true(i) + refl(i) > 0, refl(i) / (true(i) + refl(i)), z3.RealVal(0))


PAR = dict(E_th=('E_th', lambda v: v > 0), sigmafit=('sigmafit', lambda v: v > 0), mufit=('mufit',), thresh_low_energy=('thresh', lambda v: v >= 0))


def make(ld, name, c, extra=None, switch=0, **kw):
    mod, cl = MODELS[name]
    M = ld.get(mod)
    K = getattr(M, cl)
    P = {k: inp_real(v[0], *v[1:]) for k, v in PAR.items()}
    a = dict(P)
    if name != 'from_file':
        a.update(Emax=inp_real('Emax', lambda v: v > 0), del_max=inp_real('del_max', lambda v: v > 0),
                 R0=inp_real('R0', lambda v: v >= 0, lambda v: v < 1), E0=inp_real('E0', lambda v: v > 0))
    a.update(switch_no_increase_energy=switch, secondary_angle_distribution='cosine_3D')
    a.update(extra or {})
    a.update(kw)
    if name == 'flat_low_ene':
        a.pop('E0', None)
    o = K(**a)
    c.obj_id(o)
    o.pars = a
    return o


def h_yield(ld, name, scale=True, shift=True):
    """C05: SEY_process of the uniform models follows the documented law"""
    def h(c):
        kw = {}
        s = num(1.35)
        if name == 'ECLOUD':
            sv = inp_real('s', lambda v: v > 1)
            s = sv.z
            kw = dict(s=sv, flag_costheta_delta_scale=scale, flag_costheta_Emax_shift=shift)
        o = make(ld, name, c, kw)
        p = o.pars
        Im = Impacts(c, strict=(name != 'ECLOUD'))
        nel, en, co = Im.s
        Emax, dmax, R0 = Z(p['Emax']), Z(p['del_max']), Z(p['R0'])
        E0 = Z(p['E0']) if 'E0' in p else None
        n = Im.n
        r = o.SEY_process(Im.nel, Im.E, Im.cos, None)
        c.unit.cover('returns')
        t = lambda i: true_law(en(i), co(i), Emax, dmax, s, scale, shift, None if name == 'ECLOUD' else num(1.35 - 1))
        if name in ('ECLOUD', 'ACC_LOW'):
            f = lambda i: elastic_law(en(i), R0, E0)
        elif name == 'cos_low_ene':
            f = lambda i: z3.If(en(i) < E0, R0 * E.z_pow(E.z_cos(num(0.5 * 3.141592653589793) * en(i) / E0), z3.IntVal(2)), z3.RealVal(0))
        else:
            f = lambda i: z3.If(z3.And(t(i) < R0, en(i) < Emax), R0 - t(i), z3.RealVal(0))
        if name == 'ACC_LOW':
            classify_post(c, n, r, nel, t, f, f, lambda i, el: z3.If(el, nel(i), nel(i) * (t(i) / (1 - f(i)))))
        else:
            classify_post(c, n, r, nel, t, f, frac(t, f))
        for a, old in zip((Im.nel, Im.E, Im.cos), Im.s):
            g = a.snap()
            c.prove_forall('the impacts are not modified', n, lambda i: g(i) == old(i))
    return h


def h_evol_noop(ld, name):
    def h(c):
        o = make(ld, name, c)
        before = dict(vars(o))
        o.SEY_model_evol(inp_real('Dt'))
        c.unit.cover('returns')
        c.prove('nothing changes', z3.BoolVal(before == vars(o)))
    return h


class Table(object):
    """squeezable table entry (as scipy.io.loadmat returns)"""
    def __init__(self, v):
        self.v = v

    def squeeze(self):
        return self.v


class TableSetup(object):
    def __init__(self, ld, c, scale, shift):
        nt = self.nt = inp_int('n_table', lambda v: v >= 2)
        e0 = self.e0 = inp_real('e_first', lambda v: v >= 0)
        d = self.d = inp_real('e_step', lambda v: v >= num(0.01))
        et = SArr(E.Buf(E.Fn(lambda k: e0.z + d.z * z3.ToReal(k)), (nt,), 'r'))
        st, se = inp_arr('sey_true', nt), inp_arr('sey_elast', nt)
        self.S = st.snap(), se.snap()
        ex = self.ex = {k: inp_real(k) for k in ('extrapolate_grad_true', 'extrapolate_const_true', 'extrapolate_grad_elast', 'extrapolate_const_elast')}
        tab = dict(energy_eV=Table(et), sey_true=Table(st), sey_elast=Table(se), **{k: Table(v) for k, v in ex.items()})
        self.o = o = make(ld, 'from_file', c, dict(sey_file=tab, flag_costheta_delta_scale=scale, flag_costheta_Emax_shift=shift))
        c.unit.cover('table accepted')
        self.emax = e0.z + d.z * z3.ToReal(nt.z - 1)
        for a, v in (('delta_e', d.z), ('energy_eV_min', e0.z), ('energy_eV_max', self.emax)):
            c.prove('%s of the table' % a, Z(getattr(o, a)) == v)
            setattr(o, a, W(v))

    def linear(self, e, k_):
        """linear interpolation between the table entries around e"""
        S_, n = self.S[k_], self.nt.z
        q = (e - self.e0.z) / self.d.z
        k = E.ifloor(q)
        f = q - z3.ToReal(k)
        return z3.If(k + 1 < n, S_(k) + f * (S_(k + 1) - S_(k)), S_(n - 1))


def h_interp(ld):
    """the interpolation routine against the linear interpolation of the table"""
    def h(c):
        T = TableSetup(ld, c, False, False)
        n = inp_int('n_energies', lambda v: v >= 0)
        en = inp_arr('energy', n)
        e = en.snap()
        c.instantiators.append(lambda i: z3.Implies(z3.And(i >= 0, i < n.z), z3.And(e(i) >= T.e0.z, e(i) <= T.emax)))
        c.lemma_forall('energies inside the table have a table index', n, lambda i: z3.And(
            (e(i) - T.e0.z) / T.d.z >= 0, (e(i) - T.e0.z) / T.d.z <= z3.ToReal(T.nt.z - 1)))
        r = T.o.interp(en)
        c.unit.cover('returns')
        for k, nm in enumerate(('true', 'elastic')):
            g = r[k].snap()
            c.prove('one %s yield per energy' % nm, r[k].nz == n.z)
            c.prove_forall('%s yield is the linear interpolation of the table' % nm, n, lambda i: g(i) == T.linear(e(i), k))
    return h


def h_table(ld, scale, shift):
    """C05: yield read from a table"""
    def h(c):
        T = TableSetup(ld, c, scale, shift)
        o, ex = T.o, T.ex
        calls = []
        tab = [fn('table_true', R, R), fn('table_elast', R, R)]

        def interp(energy_eV):
            e = energy_eV.snap()
            c.prove_forall('only energies inside the table are interpolated', energy_eV.n, lambda i: z3.And(e(i) >= T.e0.z, e(i) <= T.emax))
            calls.append(1)
            return tuple(SArr(E.Buf(E.Fn(lambda i, t=t: t(e(i))), (energy_eV.n,), 'r')) for t in tab)
        if hasattr(type(o), 'interp'):
            o.interp = interp
        Im = Impacts(c)
        nel, en, co = Im.s
        n = Im.n
        # inside the table range or above (the documented domain)
        low = lambda i: en(i) / (1 + num(0.7) * (1 - co(i))) if shift else en(i)
        c.instantiators.append(lambda i: z3.Implies(z3.And(i >= 0, i < n.z), z3.And(low(i) >= T.e0.z, en(i) >= T.e0.z)))
        r = o.SEY_process(Im.nel, Im.E, Im.cos, None)
        c.unit.cover('returns')

        def law(e, k, g, k0):
            return z3.If(e > T.emax, Z(k0) + Z(g) * e, tab[k](e) if calls else T.linear(e, k))
        cut = lambda v: z3.If(v < num(1e-10), z3.RealVal(0), v)
        sc = lambda i: E.z_exp(num(0.5) * (1 - co(i))) if scale else z3.RealVal(1)
        t = lambda i: cut(sc(i) * law(low(i), 0, ex['extrapolate_grad_true'], ex['extrapolate_const_true']))
        f = lambda i: cut(law(en(i), 1, ex['extrapolate_grad_elast'], ex['extrapolate_const_elast']))
        classify_post(c, n, r, nel, t, f, frac(t, f))
    return h


# ------------------------------------------------------------------ emission step
class Emission(object):
    """abstract contracts of the energy and angle draws, recording what they are asked for"""
    def __init__(self, ld, c):
        EE = ld.get('electron_emission')
        self.en, self.an = [], []
        EE.sec_energy_hilleret_model2 = self.energy

    def energy(self, switch_no_increase_energy, Ngen, sigmafit, mufit, E_th, En_impact_eV, thresh_low_energy):
        c = E.CTX
        c.prove('one impact energy per drawn energy', Z(Ngen) == En_impact_eV.nz)
        a = E.fresh_arr('En_drawn', (En_impact_eV.n,), 'r', lambda e, i: [e >= 0])
        self.en.append(dict(sw=switch_no_increase_energy, sig=sigmafit, mu=mufit, th=E_th, thr=thresh_low_energy, imp=En_impact_eV.copy(), out=a.copy()))
        return a

    def angle(self, N_new_MP, En_gen, Norm_x, Norm_y, mass):
        c = E.CTX
        c.prove('one normal per emission', z3.And(Z(N_new_MP) == En_gen.nz, Norm_x.nz == En_gen.nz, Norm_y.nz == En_gen.nz))
        v = [E.fresh_arr(k, (En_gen.n,), 'r') for k in ('vx_e', 'vy_e', 'vz_e')]
        self.an.append(dict(En=En_gen.copy(), nx=Norm_x.copy(), ny=Norm_y.copy(), mass=mass, v=[a.copy() for a in v]))
        return tuple(v)


def h_emit(ld, name, seg, switch=0):
    """C02 / C04: impacts_on_surface for an arbitrary yield"""
    def h(c):
        em = Emission(ld, c)
        kw = {}
        if name == 'from_file':
            kw = None
        mod, cl = MODELS[name]
        K = getattr(ld.get(mod), cl)
        o = obj(K)
        P = {k: inp_real(v[0], *v[1:]) for k, v in PAR.items()}
        for k, v in P.items():
            setattr(o, k, v)
        o.switch_no_increase_energy = switch
        o.angle_dist_func = em.angle
        Im = Impacts(c)
        n = Im.n
        names = ('x', 'y', 'z', 'vx', 'vy', 'vz')
        A = {k: inp_arr(k + '_impact', n) for k in names}
        NX, NY = inp_arr('Norm_x', n), inp_arr('Norm_y', n)
        old = {k: v.snap() for k, v in A.items()}
        nx, ny = NX.snap(), NY.snap()
        c.instantiators.append(lambda i: z3.Implies(z3.And(i >= 0, i < n.z), nx(i) * nx(i) + ny(i) * ny(i) == 1))
        vn = SArr(E.Buf(E.Fn(lambda i: old['vx'](i) * nx(i) + old['vy'](i) * ny(i)), (n,), 'r'))
        ifound = inp_arr('i_found', n, 'i') if seg else None
        sg = ifound.snap() if seg else None
        th = inp_real('nel_mp_th', lambda v: v > 0)
        mass = inp_real('mass', lambda v: v > 0)
        emit = E.fresh_arr('nel_emit', (n,), 'r', lambda e, i: [e >= 0])
        el = E.fresh_arr('flag_elast', (n,), 'b')
        q, isel = emit.snap(), (lambda i, s=el.snap(): E.as_bool(s(i)))
        calls = []

        def proc(nel_impact, E_impact_eV, costheta_impact, i_impact):
            calls.append((nel_impact, E_impact_eV, costheta_impact, i_impact))
            return emit, el, ~el
        o.SEY_process = proc
        r = o.impacts_on_surface(mass, Im.nel, A['x'], A['y'], A['z'], A['vx'], A['vy'], A['vz'], NX, NY, ifound, vn, Im.E, Im.cos, th, seg)
        c.unit.cover('returns')
        c.prove('the yield is evaluated once, for these impacts', z3.BoolVal(
            len(calls) == 1 and calls[0][0] is Im.nel and calls[0][1] is Im.E and calls[0][2] is Im.cos and calls[0][3] is ifound))
        tot, etype, info = r[:3]
        R_ = dict(zip(('nel',) + names + ('seg',), r[3:11]))
        N_ = dict(zip(('nel',) + names + ('seg',), r[11:19]))
        g = tot.snap()
        c.prove_forall('reported emitted charge is what the yield gives', n, lambda i: g(i) == q(i))
        nrep = R_['nel'].snap()
        m = Z(E.sym_len(N_['nel']))
        for k, v in N_.items():
            if k == 'seg' and not seg:
                continue
            c.prove('one %s per new MP' % k, Z(E.sym_len(v)) == m)
        for k, v in R_.items():
            if k == 'seg' and not seg:
                continue
            c.prove('one replaced %s per impact' % k, v.nz == n.z)
        # division into equal parts
        if c.repeats:
            rp = c.repeats[0]
            c.unit.cover('split')
            cnt = lambda i: rp.counts(i)
            c.prove('number of new MPs', m == rp.total)
        else:
            rp = None
            cnt = lambda i: z3.IntVal(0)
            c.prove('no new MPs', m == 0)
        c.prove_forall('charge leaving the impact point is charge x yield', n, lambda i: nrep(i) * (1 + z3.ToReal(cnt(i))) == q(i))
        c.prove_forall('elastic events create no extra MPs', n, lambda i: z3.Implies(isel(i), cnt(i) == 0))
        c.prove_forall('true secondaries are no bigger than the split size', n, lambda i: z3.Implies(z3.Not(isel(i)), nrep(i) <= th.z))
        c.prove_forall('charge is split only when it exceeds the split size', n, lambda i: z3.Implies(cnt(i) > 0, q(i) > th.z * z3.ToReal(cnt(i))))
        for k in ('x', 'y', 'z'):
            f = R_[k].snap()
            c.prove_forall('replaced MP starts at the impact %s' % k, n, lambda i: f(i) == old[k](i))
        if seg:
            f = R_['seg'].snap()
            c.prove_forall('replaced MP belongs to the segment hit', n, lambda i: f(i) == sg(i))
        for k, v in A.items():
            f = v.snap()
            c.prove_forall('impact %s is not modified' % k, n, lambda i: f(i) == old[k](i))
        if rp is not None:
            f = E.lift(N_['nel']).snap()
            c.prove_forall('new MPs carry an equal share', m, lambda j: f(j) == nrep(rp.at(j)))
            for k in ('x', 'y', 'z'):
                f = N_[k].snap()
                c.prove_forall('new MPs start at the impact %s of their owner' % k, m, lambda j: f(j) == old[k](rp.at(j)))
            if seg:
                f = N_['seg'].snap()
                c.prove_forall('new MPs belong to the segment of their owner', m, lambda j: f(j) == sg(rp.at(j)))
        # velocities
        rv = [R_[k].snap() for k in ('vx', 'vy', 'vz')]
        ov = [old[k] for k in ('vx', 'vy', 'vz')]
        dot = lambda v, i: v[0](i) * nx(i) + v[1](i) * ny(i)
        tan = lambda v, i: v[0](i) * ny(i) - v[1](i) * nx(i)
        c.prove_forall('elastic: normal velocity reversed', n, lambda i: z3.Implies(isel(i), dot(rv, i) == -dot(ov, i)))
        c.prove_forall('elastic: tangential velocity kept', n, lambda i: z3.Implies(isel(i), z3.And(tan(rv, i) == tan(ov, i), rv[2](i) == ov[2](i))))
        c.prove_forall('elastic: speed kept', n, lambda i: z3.Implies(isel(i), sum(v(i) * v(i) for v in rv) == sum(v(i) * v(i) for v in ov)))
        mk = SArr(E.Buf(E.Fn(lambda i: z3.And(i >= 0, i < n.z, z3.Not(isel(i)))), (n,), 'b'))
        s = E.selection(mk)
        c.prove('energies are drawn when something is a true secondary', z3.BoolVal(bool(em.an)) == (s.countz > 0))
        for e in em.en:
            c.prove('configured energy distribution', z3.And(Z(e['sig']) == Z(P['sigmafit']), Z(e['mu']) == Z(P['mufit']), Z(e['th']) == Z(P['E_th']),
                    Z(e['thr']) == Z(P['thresh_low_energy']), z3.BoolVal(e['sw'] == switch)))
        for a in em.an:
            c.prove('emitting mass', Z(a['mass']) == mass.z)
        if em.an:
            c.unit.cover('true secondaries')
            en0, an0 = em.en[0], em.an[0]
            go, gi, gx, gy, ge = [w.snap() for w in (en0['out'], en0['imp'], an0['nx'], an0['ny'], an0['En'])]
            c.prove('one energy per true secondary', an0['En'].nz == s.countz)
            ei = Im.s[1]
            c.prove_forall('energy drawn for the impact energy of this MP', s.countz, lambda k: gi(k) == ei(s.sel_at(k)))
            c.prove_forall('drawn energy used', s.countz, lambda k: ge(k) == go(k))
            c.prove_forall('normal of this impact used', s.countz, lambda k: z3.And(gx(k) == nx(s.sel_at(k)), gy(k) == ny(s.sel_at(k))))
            for a, w in zip(rv, an0['v']):
                w = w.snap()
                c.prove_forall('true secondary takes the drawn velocity', n, lambda i: z3.Implies(z3.Not(isel(i)), a(i) == w(s.rank_at(i))))
        if rp is not None:
            en1, an1 = em.en[-1], em.an[-1]
            go, gi, gx, gy, ge = [w.snap() for w in (en1['out'], en1['imp'], an1['nx'], an1['ny'], an1['En'])]
            c.prove('new MPs have their own draw', z3.BoolVal(len(em.an) == 2))
            c.prove('one energy per new MP', an1['En'].nz == m)
            c.prove_forall('new MP: energy drawn for the impact energy of its owner', m, lambda j: gi(j) == ei(rp.at(j)))
            c.prove_forall('new MP: drawn energy used', m, lambda j: ge(j) == go(j))
            c.prove_forall('new MP: normal of its owner used', m, lambda j: z3.And(gx(j) == nx(rp.at(j)), gy(j) == ny(rp.at(j))))
            for k, w in zip(('vx', 'vy', 'vz'), an1['v']):
                f, w = N_[k].snap(), w.snap()
                c.prove_forall('new MP takes the drawn velocity', m, lambda j: f(j) == w(j))
    return h


def h_absorber(ld, seg):
    def h(c):
        K = ld.get('sec_emission_model_perfect_absorber').SEY_model_perfect_absorber
        o = K()
        c.obj_id(o)
        Im = Impacts(c)
        n = Im.n
        A = [inp_arr(k, n) for k in ('x', 'y', 'z', 'vx', 'vy', 'vz')]
        ifound = inp_arr('i_found', n, 'i') if seg else None
        r = o.impacts_on_surface(inp_real('mass'), Im.nel, *A, inp_arr('Nx', n), inp_arr('Ny', n), ifound, inp_arr('vn', n), Im.E, Im.cos,
                                 inp_real('th', lambda v: v > 0), seg)
        c.unit.cover('returns')
        t, e = r[0].snap(), r[3].snap()
        c.prove_forall('nothing is emitted', n, lambda i: z3.And(t(i) == 0, e(i) == 0))
        c.prove('no new MPs', z3.And(*[Z(E.sym_len(v)) == 0 for v in r[11:18]]))
        for k, a in enumerate(A[:3]):
            f, g = r[4 + k].snap(), a.snap()
            c.prove_forall('absorbed MPs stay at the impact point', n, lambda i: f(i) == g(i))
    return h


def h_energy(ld, switch):
    """C04: drawn energies are non-negative and below the cut"""
    def h(c):
        EE = ld.get('electron_emission')
        n = inp_int('Ngen', lambda v: v >= 0)
        sig, mu = inp_real('sigmafit', lambda v: v > 0), inp_real('mufit')
        th, thr = inp_real('E_th', lambda v: v > 0), inp_real('thresh', lambda v: v >= 0)
        Ei = inp_arr('E_impact', n, 'r', lambda e, i: [e >= 0])
        ei = Ei.snap()
        cap = (lambda i: th.z) if switch == 0 else (lambda i: z3.If(ei(i) < thr.z, ei(i), z3.If(ei(i) > th.z, th.z, ei(i))))
        c.cap = (lambda i: th.z) if switch == 0 else (lambda i: z3.If(ei(i) > th.z, th.z, ei(i)))
        c.low = (lambda i: z3.BoolVal(False)) if switch == 0 else (lambda i: ei(i) < thr.z)
        r = EE.sec_energy_hilleret_model2(switch, n, sig, mu, th, Ei, thr)
        c.unit.cover('returns')
        g = r.snap()
        c.prove('one energy per emitted electron', r.nz == n.z)
        c.prove_forall('energies are non-negative', n, lambda i: g(i) >= 0)
        c.prove_forall('energies do not exceed the cut', n, lambda i: g(i) <= cap(i))
        k = Ei.snap()
        c.prove_forall('impact energies are not modified', n, lambda i: k(i) == ei(i))
    return h


def cap_cands():
    def f(c, m, a):
        if not hasattr(c, 'cap'):
            return None
        s, t = m.snap(), a.snap()
        return lambda i: z3.Or(E.as_bool(s(i)), c.low(i), t(i) <= c.cap(i))
    return [('capped', f)]


def h_angle(ld, which):
    """C04: emission velocity: speed from the energy, inwards"""
    def h(c):
        EE = ld.get('electron_emission')
        n = inp_int('N_new', lambda v: v >= 0)
        En = inp_arr('En_gen', n, 'r', lambda e, i: [e >= 0])
        NX, NY = inp_arr('Norm_x', n), inp_arr('Norm_y', n)
        nx, ny, en = NX.snap(), NY.snap(), En.snap()
        c.instantiators.append(lambda i: z3.Implies(z3.And(i >= 0, i < n.z), nx(i) * nx(i) + ny(i) * ny(i) == 1))
        mass = inp_real('mass', lambda v: v > 0)
        f = EE.get_angle_dist_func(which)
        v = f(n, En, NX, NY, mass)
        c.unit.cover('returns')
        vx, vy, vz = [a.snap() for a in v]
        for a in v:
            c.prove('one velocity per emission', a.nz == n.z)
        c.prove_forall('speed corresponds to the drawn energy', n, lambda i: vx(i) * vx(i) + vy(i) * vy(i) + vz(i) * vz(i) == 2 * num(QE) / mass.z * en(i))
        c.prove_forall('directed into the chamber', n, lambda i: vx(i) * nx(i) + vy(i) * ny(i) >= 0)
        if which == 'normal_emission':
            c.prove_forall('along the normal', n, lambda i: z3.And(vz(i) == 0, vx(i) * ny(i) == vy(i) * nx(i)))
    return h


def h_specular(ld):
    def h(c):
        EE = ld.get('electron_emission')
        n = inp_int('n', lambda v: v >= 0)
        vx, vy, NX, NY = [inp_arr(k, n) for k in ('vx', 'vy', 'nx', 'ny')]
        a, b, p, q = [k.snap() for k in (vx, vy, NX, NY)]
        c.instantiators.append(lambda i: z3.Implies(z3.And(i >= 0, i < n.z), p(i) * p(i) + q(i) * q(i) == 1))
        r = EE.specular_velocity(vx, vy, NX, NY, vx * NX + vy * NY)
        c.unit.cover('returns')
        x, y = r[0].snap(), r[1].snap()
        c.prove_forall('normal component reversed', n, lambda i: x(i) * p(i) + y(i) * q(i) == -(a(i) * p(i) + b(i) * q(i)))
        c.prove_forall('tangential component kept', n, lambda i: x(i) * q(i) - y(i) * p(i) == a(i) * q(i) - b(i) * p(i))
        c.prove_forall('speed kept', n, lambda i: x(i) * x(i) + y(i) * y(i) == a(i) * a(i) + b(i) * b(i))
    return h


def h_genergy(ld, kind):
    """energy distributions of the sources"""
    def h(c):
        EE = ld.get('electron_emission')
        sig = inp_real('sigma', lambda v: v > 0)
        mx = inp_real('max', lambda v: v >= 0)
        if kind == 'rect':
            c.fact(sig.z <= 2 * mx.z)
        n = inp_int('n', lambda v: v >= 0)
        g = EE.get_energy_distribution_func(kind, sig, mx)
        c.obj_id(g)
        r = g(n)
        c.unit.cover('returns')
        e = r.snap()
        c.prove('one energy per electron', r.nz == n.z)
        c.prove_forall('energies are non-negative', n, lambda i: e(i) >= 0)
        if kind == 'mono':
            c.prove_forall('the configured energy', n, lambda i: e(i) == mx.z)
        if kind == 'rect':
            c.prove_forall('within the configured window', n, lambda i: z3.And(e(i) <= mx.z + sig.z / 2, e(i) >= mx.z - sig.z / 2))
    return h


# ------------------------------------------------------------------ non-uniform surfaces
class SegChamber(object):
    chamb_type = 'polyg'

    def __init__(self, c, charging=False):
        self.N = inp_int('N_segments', lambda v: v >= 3)
        # a negative entry means: take the global value
        for a, lo in (('del_max_segments', True), ('R0_segments', False), ('Emax_segments', True)):
            setattr(self, a, inp_arr(a, self.N, 'r', (lambda e, i: [z3.Or(e < 0, e > 0)]) if lo else (lambda e, i: [e < 1])))
        self.N_vert = self.N
        if charging:
            self.flag_charging = inp_arr('flag_charging', self.N, 'i', lambda e, i: [e >= 0])
            self.Q_max_segments = inp_arr('Q_max_segments', self.N, 'r', lambda e, i: [e > 0])
            self.EQ_segments = inp_arr('EQ_segments', self.N, 'r', lambda e, i: [e > 0])
            self.tau_segments = inp_arr('tau_segments', self.N)
            self.L_edg = inp_arr('L_edg', self.N, 'r', lambda e, i: [e > 0])
        self.old = {k: v.snap() for k, v in vars(self).items() if isinstance(v, SArr)}


def nunif(ld, c, name):
    ch = SegChamber(c, 'charging' in name)
    o = make(ld, name, c, dict(chamb=ch))
    p = o.pars
    eff = {}
    for a, g in (('del_max_segments', 'del_max'), ('R0_segments', 'R0'), ('Emax_segments', 'Emax')):
        eff[a] = lambda s, a=a, g=g: z3.If(ch.old[a](s) < 0, Z(p[g]), ch.old[a](s))
        v = getattr(o, a, None)
        if isinstance(v, SArr):
            f = v.snap()
            c.prove_forall('%s: the value of the segment, the global one where it is negative' % a, ch.N, lambda s: f(s) == eff[a](s))
            c.prove_forall('%s within range' % a, ch.N, lambda s: z3.And(f(s) >= 0, f(s) < 1) if a[0] == 'R' else f(s) > 0)
            # from here on the object is known by this contract only
            new = E.fresh_arr(a, (ch.N,), 'r', (lambda e, i: [e >= 0, e < 1]) if a[0] == 'R' else (lambda e, i: [e > 0]))
            setattr(o, a, new)
            eff[a] = new.snap()
    for k, f in ch.old.items():
        g = getattr(ch, k).snap()
        c.prove_forall('the chamber parameters are not modified (%s)' % k, ch.N, lambda s: g(s) == f(s))
    return o, ch, eff


def h_nunif(ld):
    def h(c):
        o, ch, eff = nunif(ld, c, 'ECLOUD_nunif')
        Im = Impacts(c)
        nel, en, co = Im.s
        n = Im.n
        ii = inp_arr('i_impact', n, 'i', lambda e, i: [e >= 0, e < ch.N.z])
        g = ii.snap()
        E0 = Z(o.pars['E0'])
        r = o.SEY_process(Im.nel, Im.E, Im.cos, ii)
        c.unit.cover('returns')
        t = lambda i: true_law(en(i), co(i), eff['Emax_segments'](g(i)), eff['del_max_segments'](g(i)), num(1.35), sm1=num(1.35 - 1))
        f = lambda i: elastic_law(en(i), eff['R0_segments'](g(i)), E0)
        classify_post(c, n, r, nel, t, f, frac(t, f))
        k = ii.snap()
        c.prove_forall('the segment indices are not modified', n, lambda i: k(i) == g(i))
    return h


def h_charging(ld):
    """insulating segments: yield modified only there, charge balance of the segment"""
    def h(c):
        o, ch, eff = nunif(ld, c, 'ECLOUD_nunif_charging')
        q0 = o.Q_segments.snap()
        c.prove_forall('segments start without charge', ch.N, lambda s: q0(s) == 0)
        Q = E.fresh_arr('Q_segments', (ch.N,), 'r')
        o.Q_segments = Q
        q0 = Q.snap()
        Im = Impacts(c)
        nel, en, co = Im.s
        n = Im.n
        ii = inp_arr('i_impact', n, 'i', lambda e, i: [e >= 0, e < ch.N.z])
        g = ii.snap()
        E0 = Z(o.pars['E0'])
        ins = lambda s: ch.old['flag_charging'](s) > 0
        M = ld.get('sec_emission_model_ECLOUD_nunif')
        y = E.fresh_arr('yield', (n,), 'r', lambda e, i: [e >= 0])
        fr_ = E.fresh_arr('elastic_fraction', (n,), 'r', lambda e, i: [e >= 0, e <= 1])
        yv, fv = y.snap(), fr_.snap()

        def stub(*args, **kw):
            d = dict(zip(('E', 'costheta', 'Emax', 'del_max', 'R0', 'E0'), args))
            d.update(kw)
            e_, costheta, Emax, del_max, R0, E0 = [d[k] for k in ('E', 'costheta', 'Emax', 'del_max', 'R0', 'E0')]
            for nm, a, w in (('energies', e_, en), ('angles', costheta, co), ('Emax', Emax, lambda i: eff['Emax_segments'](g(i))),
                             ('del_max', del_max, lambda i: eff['del_max_segments'](g(i))), ('R0', R0, lambda i: eff['R0_segments'](g(i)))):
                v = a.snap()
                c.prove('yield law: one %s per impact' % nm, a.nz == n.z)
                c.prove_forall('yield law evaluated with the %s of the segment that was hit' % nm, n, lambda i: v(i) == w(i))
            c.prove('yield law: E0', Z(E0) == Z(o.pars['E0']))
            return y, fr_
        M.yield_fun2 = stub      # its contract: unit 'non-uniform yield'
        def frq(s):
            q, m = q0(s), ch.old['Q_max_segments'](s)
            qc = z3.If(q < 0, z3.RealVal(0), z3.If(q > m, m, q))
            return qc / m
        yq = lambda i: z3.If(ins(g(i)), yv(i) * (1 - frq(g(i))) + (1 - E.z_exp(-en(i) / ch.old['EQ_segments'](g(i)))) * frq(g(i)), yv(i))
        # an arbitrary segment
        J = z3.Int('segment')
        c.fact(z3.And(J >= 0, J < ch.N.z))
        c.note_index((J,))
        c.J, c.N = J, ch.N.z
        c.Q, c.q0 = Q, q0
        c.ins = ins
        QEz, L = num(QE), ch.old['L_edg']
        SI = z3.Real('charge_in')
        SO = z3.Real('charge_out')
        c.target = q0(J) + z3.If(ins(J), (SI - SO) * (-QEz) / L(J), z3.RealVal(0))
        emitted = []

        def sums(c, k):
            """on the iteration of segment J: the code's sums are the sums over the impacts on J"""
            if emitted:
                return
            one = lambda w: c.sum_atom(n.z, z3.If(g(E.PB) == k, w(E.PB), z3.RealVal(0)))
            emitted.append(1)
            c.hard_sums = True
            c.fact(z3.Implies(k == J, z3.And(SI == one(nel), SO == one(lambda i: nel(i) * yq(i)))))
            c.hard_sums = False
        c.sums_at = sums
        r = o.SEY_process(Im.nel, Im.E, Im.cos, ii)
        c.unit.cover('returns')
        qn = o.Q_segments.snap()
        c.prove('charge accumulated on the segment: impinging minus emitted electrons over the segment length', qn(J) == c.target)
        emit, el, ts = r
        ge, gl, gt = emit.snap(), el.snap(), ts.snap()
        c.prove_forall('emitted charge is charge x (charging-modified) yield', n, lambda i: ge(i) == nel(i) * yq(i))
        u = uni(c)
        c.prove_forall('elastic with the documented probability', n, lambda i: E.as_bool(gl(i)) == (u(i) < fv(i)))
        c.prove_forall('either elastic or true secondary', n, lambda i: E.as_bool(gt(i)) == z3.Not(E.as_bool(gl(i))))
        c.prove_forall('emitted charge is non-negative', n, lambda i: ge(i) >= 0)
    return h


def charge_inv(c, loc, loop):
    """segment J has received its charge once its iteration is over; not before"""
    q = c.Q.snap()
    k = loop.index
    if getattr(loop, 'i', None) is not None and k is not loop.i and k is not loop.lo:
        c.sums_at(c, loop.i)
    return [('must', 'segment charge', 's', lambda: q(c.J) == z3.If(k > c.J, c.target, c.q0(c.J)))]


def h_evol(ld):
    def h(c):
        o, ch, eff = nunif(ld, c, 'ECLOUD_nunif_charging')
        Q = E.fresh_arr('Q_segments', (ch.N,), 'r')
        o.Q_segments = Q
        q0 = Q.snap()
        Dt = inp_real('Dt', lambda v: v >= 0)
        o.SEY_model_evol(Dt)
        c.unit.cover('returns')
        q = o.Q_segments.snap()
        tau = ch.old['tau_segments']
        c.prove_forall('charge decays exponentially on insulating segments with a decay time, and only there', ch.N, lambda s: q(s) == z3.If(
            z3.And(ch.old['flag_charging'](s) > 0, tau(s) > 0), q0(s) * E.z_exp(-Dt.z / tau(s)), q0(s)))
    return h


def h_reject(ld, name):
    """segment models need a polygonal chamber"""
    def h(c):
        ch = SegChamber(c, True)
        ch.chamb_type = 'ellip'
        try:
            make(ld, name, c, dict(chamb=ch))
        except ValueError:
            c.unit.cover('returns')
            c.prove('rejected', z3.BoolVal(True))
            return
        c.prove('a chamber without segments is rejected', z3.BoolVal(False))
    return h
