"""Verification unit driver: explores all symbolic paths of a harness and discharges its obligations."""
import time
import traceback
import z3
from . import engine as E
from . import solve


class Unit(object):
    def __init__(self, name, harness, invariants=(), arr_cands=(), for_mode=None, budget=25.0, max_paths=400,
                 max_depth=80, expect_exc=(), functions=(), stop_on_fail=True, mask_cands=(), hard_inv=0, auto_inv=True, inv_timeout=0, hard_branch=0, try_empty=0):
        self.name, self.harness = name, harness
        self.invariants = list(invariants)
        self.arr_cands = list(arr_cands)
        self.mask_cands = list(mask_cands)
        self.for_mode = for_mode or {}
        self.budget = budget
        self.hard_inv = hard_inv
        self.hard_branch, self.try_empty = hard_branch, try_empty
        self.auto_inv, self.inv_timeout = auto_inv, inv_timeout
        self.max_paths, self.max_depth = max_paths, max_depth
        self.max_unroll = 200
        self.loops = {}
        self.expect_exc = tuple(expect_exc)
        self.functions = list(functions)
        self.cover_loops = False
        self.safety_ok = 0
        self.tsolve = 0.0
        self.obls = []
        self.paths = 0
        self.exits = {}
        self.unsupported = None
        self.error = None
        self.stop_on_fail = stop_on_fail
        self.covered = set()

    def discharge(self, c, name, goal):
        t0 = time.time()
        goals = split_goal(goal)
        ok = True
        for g in goals:
            gs = z3.simplify(g)
            o = E.Obligation(name)
            o.path = list(c.decisions[:c.pos])
            if z3.is_true(gs):
                o.status, o.backend = 'valid', 'simplifier'
                o.time = 0.
            else:
                st, be, m, why = solve.discharge(c.facts, g, self.budget)
                o.status, o.backend, o.reason = st, be, why
                o.time = time.time() - t0
                if st != 'valid':
                    ok = False
                    o.goal = str(g)[:1500]
                    if m is not None:
                        o.model = model_inputs(c, m)
            self.obls.append(o)
            self.tsolve += time.time() - t0
            t0 = time.time()
            if o.status != 'valid' and self.stop_on_fail:
                raise Stop()
        return ok

    def cover(self, label):
        """vacuity guard: this program point is reachable under the preconditions"""
        c = E.CTX
        if label in self.covered:
            return
        r, _ = solve.check_z3(c.facts, 4000)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            r2, _ = solve.check_z3([f for f in c.facts if not solve.is_nonlinear(f)], 4000)
            if r2 == z3.unsat:
                return
        self.covered.add(label)

    def run(self, deadline=None):
        t0 = time.time()
        work = [[]]
        self.expected_covers = set()
        try:
            while work:
                if self.paths > self.max_paths:
                    raise E.Unsupported('more than %d paths' % self.max_paths)
                if deadline and time.time() > deadline:
                    raise E.Unsupported('time limit')
                dec = work.pop()
                for attempt in range(60):
                    c = E.Ctx(dec, self)
                    E.CTX = c
                    nobl = len(self.obls)
                    try:
                        self.harness(c)
                        self.exits['normal'] = self.exits.get('normal', 0) + 1
                    except E.PathEnd as e:
                        k = 'end:' + (str(e) or 'cut')
                        self.exits[k] = self.exits.get(k, 0) + 1
                    except E.Restart:
                        del self.obls[nobl:]
                        continue
                    break
                else:
                    raise E.Unsupported('loop frame does not converge')
                self.paths += 1
                work.extend(c.new_alts)
        except Stop:
            pass
        except E.Unsupported as e:
            self.unsupported = str(e) or 'unsupported'
            self.unsupported_tb = traceback.format_exc()
        except RecursionError as e:
            self.unsupported = 'recursion'
        except z3.Z3Exception as e:
            self.unsupported = 'z3: %s' % e
            self.unsupported_tb = traceback.format_exc()
        except (AttributeError, KeyError, IndexError, TypeError, ValueError, NameError, ZeroDivisionError, AssertionError) as e:
            # the code (or the harness, given renamed internals) left the modelled interface
            self.unsupported = '%s: %s' % (type(e).__name__, e)
            self.unsupported_tb = traceback.format_exc()
        finally:
            E.CTX = None
        self.time = time.time() - t0
        return self

    @property
    def failed(self):
        return [o for o in self.obls if o.status != 'valid']

    @property
    def status(self):
        if self.failed:
            return 'failed'
        if self.unsupported:
            return 'unsupported'
        if not self.obls:
            return 'vacuous'
        return 'proved'


class Stop(Exception):
    pass


def split_goal(g):
    if z3.is_and(g):
        out = []
        for ch in g.children():
            out += split_goal(ch)
        return out
    if z3.is_implies(g):
        a, b = g.children()
        bs = split_goal(b)
        if len(bs) > 1:
            return [z3.Implies(a, x) for x in bs]
    return [g]


def model_inputs(c, m, cap=64):
    """values of the declared inputs in a counter-model"""
    out = {}
    for name, v in c.inputs.items():
        try:
            out[name] = conc(v, m, cap)
        except Exception:
            pass
    return out


def num_of(z):
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    if z3.is_int_value(z):
        return z.as_long()
    if z3.is_rational_value(z):
        return float(z.as_fraction())
    if z3.is_algebraic_value(z):
        return float(z.approx(20).as_fraction())
    raise ValueError


def conc(v, m, cap):
    if isinstance(v, E.S):
        return num_of(m.eval(v.z, model_completion=True))
    if isinstance(v, E.SArr):
        dims = [num_of(m.eval(Z_(n), model_completion=True)) for n in v.shape_]
        if any(d > cap or d < 0 for d in dims) or len(dims) != 1:
            raise ValueError('big')
        lay = v.buf.layer0 if hasattr(v.buf, 'layer0') else v.buf.layer
        return [num_of(m.eval(lay.f(z3.IntVal(k)), model_completion=True)) for k in range(dims[0])]
    return v


def Z_(n):
    return E.Z(n)


# ------------------------------------------------------------------ harness helpers
def inp_real(name, *conds):
    c = E.CTX
    v = E.S(z3.Real(c.fresh_name(name)))
    c.inputs[name] = v
    for k in conds:
        c.fact(k(v.z))
    return v


def inp_int(name, *conds):
    c = E.CTX
    v = E.S(z3.Int(c.fresh_name(name)))
    c.inputs[name] = v
    for k in conds:
        c.fact(k(v.z))
    return v


def inp_bool(name):
    c = E.CTX
    v = E.S(z3.Bool(c.fresh_name(name)))
    c.inputs[name] = v
    return v


def inp_arr(name, n, kind='r', facts=None):
    c = E.CTX
    a = E.fresh_arr(name, (n,), kind, facts)
    a.buf.layer0 = a.buf.layer
    c.inputs[name] = SArrView(a)
    return a


def SArrView(a):
    b = a.buf
    v = E.SArr.__new__(E.SArr)
    v.buf = type('B', (), {'layer0': b.layer, 'shape': b.shape, 'kind': b.kind, 'layer': b.layer})()
    v.shape_ = a.shape_
    v.imap = a.imap
    return v


def obj(cls, **attrs):
    o = object.__new__(cls)
    for k, v in attrs.items():
        setattr(o, k, v)
    E.CTX.obj_id(o)
    return o
