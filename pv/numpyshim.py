"""Contracts of the external functions the code calls (numpy, numpy.random, scipy bits): trusted."""
import types
import numpy as rnp
import z3
from . import engine as E
from .engine import (SArr, S, Buf, Fn, Base, Write, W, Z, lift, is_sym, is_scalar, ew, ew1, fresh, fresh_arr,
                     full, Unsupported, as_int, as_real, as_bool)


def _any_sym(*a):
    return any(is_sym(x) or isinstance(x, SArr) for x in a)


def un(f, real):
    def g(x, *a, **k):
        if isinstance(x, (list, tuple)) and is_sym(x):
            x = lift(x)
        if isinstance(x, SArr):
            return ew1(f, x)
        if isinstance(x, S):
            return W(f(x.z))
        if isinstance(x, E.RatF):
            pass
        return real(x, *a, **k)
    return g


for _f in (E.z_sqrt, E.z_exp, E.z_log, E.z_sin, E.z_cos):
    E._REALF.add(_f)
E._REALF.add(E.z_atan2)
E._REALF.add(E.z_div)


def bi(f, real):
    def g(a, b, *r, **k):
        if _any_sym(a, b):
            return ew(f, a, b)
        return real(a, b, *r, **k)
    return g


def shape_of(n):
    if isinstance(n, (tuple, list)):
        return tuple(n)
    return (n,)


def sym_shape(n):
    return any(isinstance(x, S) for x in shape_of(n))


class Linalg(object):
    norm = staticmethod(rnp.linalg.norm)


class RandomShim(object):
    """every draw is an arbitrary value of the distribution's support"""

    def _draw(self, name, size, facts, kind='r'):
        c = E.CTX
        if size is None:
            v = fresh(name, kind)
            for f in facts(v.z):
                c.fact(f)
            c.rng_draws.append((name, v))
            return v
        a = fresh_arr(name, shape_of(size), kind, lambda e, *i: facts(e))
        for n in shape_of(size):
            nz = Z(n)
            if nz.sort() != z3.IntSort():
                raise TypeError('random size must be an integer')
            c.safety('random size is non-negative', nz >= 0)
        c.rng_draws.append((name, a))
        return a

    def rand(self, *n):
        return self._draw('rand', None if not n else n, lambda e: [e >= 0, e < 1])

    def random(self, size=None):
        return self._draw('rand', size, lambda e: [e >= 0, e < 1])
    random_sample = random

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self.random(size)

    def randn(self, *n):
        return self._draw('randn', None if not n else n, lambda e: [])

    def normal(self, loc=0., scale=1., size=None):
        return loc + scale * self._draw('randn', size, lambda e: [])

    def lognormal(self, mean=0., sigma=1., size=None):
        return self._draw('lognormal', size, lambda e: [e > 0])

    def poisson(self, lam=1., size=None):
        if size is None and isinstance(lam, SArr):
            size = lam.shape_
        return self._draw('poisson', size, lambda e: [e >= 0], 'i')

    def choice(self, a, size=None, replace=True, p=None):
        n = E.sym_len(a) if not is_scalar(a) else a
        idx = self._draw('choice', size, lambda e: [e >= 0, e < Z(n)], 'i')
        if is_scalar(a):
            return idx
        return lift(a)[idx]

    def randint(self, low, high=None, size=None):
        lo, hi = (0, low) if high is None else (low, high)
        return self._draw('randint', size, lambda e: [e >= Z(lo), e < Z(hi)], 'i')

    def binomial(self, n, p, size=None):
        if isinstance(n, SArr):
            s = n.snap()
            a = fresh_arr('binom', n.shape_, 'i', lambda e, *i: [e >= 0, e <= as_int(s(*i))])
            E.CTX.rng_draws.append(('binom', a))
            return a
        return self._draw('binom', size, lambda e: [e >= 0, e <= as_int(Z(n))], 'i')

    def gamma(self, *a, **k):
        return self._draw('gamma', k.get('size', a[2] if len(a) > 2 else None), lambda e: [e >= 0])

    def beta(self, *a, **k):
        return self._draw('beta', k.get('size', a[2] if len(a) > 2 else None), lambda e: [e >= 0, e <= 1])

    def seed(self, *a):
        pass

    def shuffle(self, *a):
        raise Unsupported('shuffle')


class NP(types.ModuleType):
    """symbolic numpy; falls back to the real one on concrete data"""

    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        self.random = RandomShim()
        self.linalg = Linalg
        self.pi = rnp.pi
        self.inf = rnp.inf
        self.nan = rnp.nan
        self.newaxis = None
        self.ndarray = SArr
        self.float64 = self.double = E.np_float64
        self.int64 = self.intp = E.sym_int
        self.bool_ = self._bool_
        self.sqrt = un(E.z_sqrt, rnp.sqrt)
        self.exp = un(E.z_exp, rnp.exp)
        self.log = un(E.z_log, rnp.log)
        self.sin = un(E.z_sin, rnp.sin)
        self.cos = un(E.z_cos, rnp.cos)
        self.abs = self.absolute = self.fabs = un(E.z_abs, rnp.abs)
        self.floor = un(E.z_floor, rnp.floor)
        self.ceil = un(E.z_ceil, rnp.ceil)
        self.around = self.round = self.rint = self.round_ = un(E.z_round, rnp.around)
        self.isnan = un(E.z_isnan, rnp.isnan)
        self.isinf = un(lambda z: z3.BoolVal(False), rnp.isinf)
        self.isfinite = un(lambda z: z3.Not(E.z_isnan(z)), rnp.isfinite)
        self.sign = un(E.z_sign, rnp.sign)
        self.square = un(lambda z: E.z_mul(z, z), rnp.square)
        self.negative = un(lambda z: -z, rnp.negative)
        self.logical_not = un(E.z_not, rnp.logical_not)
        self.invert = un(E.z_not, rnp.invert)
        self.logical_and = bi(E.z_and, rnp.logical_and)
        self.logical_or = bi(E.z_or, rnp.logical_or)
        self.logical_xor = bi(E.z_ne, rnp.logical_xor)
        self.maximum = bi(E.z_max, rnp.maximum)
        self.minimum = bi(E.z_min, rnp.minimum)
        self.arctan2 = bi(E.z_atan2, rnp.arctan2)
        self.add = bi(E.z_add, rnp.add)
        self.subtract = bi(E.z_sub, rnp.subtract)
        self.multiply = bi(E.z_mul, rnp.multiply)
        self.divide = self.true_divide = bi(E.z_div, rnp.divide)
        self.power = bi(E.z_pow, rnp.power)
        self.mod = self.remainder = bi(E.z_mod, rnp.mod)
        self.hypot = bi(lambda a, b: E.z_sqrt(E.z_add(E.z_mul(a, a), E.z_mul(b, b))), rnp.hypot)
        self.less = bi(E.z_lt, rnp.less)
        self.greater = bi(E.z_gt, rnp.greater)
        self.greater_equal = bi(E.z_ge, rnp.greater_equal)
        self.less_equal = bi(E.z_le, rnp.less_equal)
        self.equal = bi(E.z_eq, rnp.equal)
        self.sum = E.np_sum
        self.max = self.amax = E.np_max
        self.min = self.amin = E.np_min
        self.array = self._array
        self.repeat = E.np_repeat

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        v = getattr(rnp, k)
        if callable(v) and not isinstance(v, type):
            def guard(*a, **kw):
                if _any_sym(*a) or _any_sym(*kw.values()):
                    raise Unsupported('numpy.%s' % k)
                return v(*a, **kw)
            return guard
        return v

    @staticmethod
    def _bool_(x=False):
        if isinstance(x, SArr):
            return x.astype('b')
        if isinstance(x, S):
            return W(as_bool(x.z))
        return rnp.bool_(x)

    @staticmethod
    def _array(v, dtype=None, copy=True, **kw):
        return E.np_array(v, dtype)

    def asarray(self, v, dtype=None, **kw):
        if isinstance(v, SArr):
            return v if dtype is None else v.astype(dtype)
        return E.np_array(v, dtype)

    ascontiguousarray = asarray
    asfortranarray = asarray
    atleast_1d = lambda self, v: v if isinstance(v, SArr) else rnp.atleast_1d(v)

    def float_(self, x):
        return E.sym_float(x)

    def int_(self, x=0):
        if isinstance(x, SArr):
            return x.astype('i')
        if isinstance(x, S):
            return W(as_int(x.z))
        return rnp.int_(x)

    def copy(self, x):
        return x.copy()

    def zeros(self, shape, dtype=float, order=None):
        k = E.dtype_kind(dtype)
        z = {'r': z3.RealVal(0), 'i': z3.IntVal(0), 'b': z3.BoolVal(False)}[k]
        self._nonneg(shape)
        return full(shape_of(shape), z, k)

    def ones(self, shape, dtype=float, order=None):
        k = E.dtype_kind(dtype)
        z = {'r': z3.RealVal(1), 'i': z3.IntVal(1), 'b': z3.BoolVal(True)}[k]
        self._nonneg(shape)
        return full(shape_of(shape), z, k)

    def empty(self, shape, dtype=float, order=None):
        self._nonneg(shape)
        return fresh_arr('empty', shape_of(shape), E.dtype_kind(dtype))

    def full(self, shape, v, dtype=None):
        z = Z(v)
        return full(shape_of(shape), z, E.result_kind(z))

    def _nonneg(self, shape):
        for n in shape_of(shape):
            z = Z(n)
            if z.sort() != z3.IntSort():
                raise TypeError('float used as array size')
            if isinstance(n, S):
                E.CTX.safety('array size is non-negative', z >= 0)

    def zeros_like(self, a, dtype=None):
        if not isinstance(a, SArr):
            if isinstance(a, S):
                return 0. if a.kind == 'r' else 0
            return lift(rnp.zeros_like(a, dtype=_nd(dtype)))
        return self.zeros(a.shape_, dtype if dtype is not None else a.kind)

    def ones_like(self, a, dtype=None):
        if not isinstance(a, SArr):
            return lift(rnp.ones_like(a, dtype=_nd(dtype)))
        return self.ones(a.shape_, dtype if dtype is not None else a.kind)

    def empty_like(self, a, dtype=None):
        a = lift(a)
        return self.empty(a.shape_, dtype if dtype is not None else a.kind)

    def any(self, a):
        if isinstance(a, SArr):
            return a.any()
        if isinstance(a, S):
            return a
        return rnp.any(a)

    def all(self, a):
        if isinstance(a, SArr):
            return a.all()
        if isinstance(a, S):
            return a
        return rnp.all(a)

    def count_nonzero(self, a):
        if isinstance(a, SArr):
            return E.count_of(E.as_mask(a))
        return rnp.count_nonzero(a)

    def where(self, c, *ab):
        if not _any_sym(c, *ab):
            return rnp.where(c, *ab)
        if ab:
            def sel(q, a, b):
                a, b = (a, b) if a.sort() == b.sort() else E.promote(a, b)
                return z3.If(as_bool(q), a, b)
            return ew(sel, c, *ab)
        m = E.as_mask(c)
        s = E.selection(m)
        return (SArr(Buf(Fn(lambda k: s.sel_at(k)), (s.count,), 'i')),)

    def nonzero(self, c):
        return self.where(c)

    flatnonzero = lambda self, c: self.where(c)[0]

    def compress(self, cond, a):
        return a[cond]

    def squeeze(self, a):
        if isinstance(a, SArr):
            if a.ndim == 1:
                return a
            raise Unsupported('squeeze nd')
        if isinstance(a, S):
            return a
        return rnp.squeeze(a)

    def ravel(self, a):
        return a if isinstance(a, SArr) and a.ndim == 1 else rnp.ravel(a)

    def shape(self, a):
        return a.shape if isinstance(a, SArr) else rnp.shape(a)

    def size(self, a):
        return a.size if isinstance(a, SArr) else rnp.size(a)

    def iscomplexobj(self, a):
        return False

    def isscalar(self, a):
        return isinstance(a, S) or rnp.isscalar(a)

    def concatenate(self, seq, axis=0):
        if not _any_sym(*seq):
            return rnp.concatenate(seq, axis)
        arrs = [lift(a) for a in seq]
        if any(a.ndim != 1 for a in arrs):
            raise Unsupported('concatenate nd')
        kinds = [a.kind for a in arrs]
        kind = 'r' if 'r' in kinds else 'i' if 'i' in kinds else 'b'
        cv = {'r': as_real, 'i': as_int, 'b': as_bool}[kind]
        rd = [a.snap() for a in arrs]
        offs = [z3.IntVal(0)]
        for a in arrs:
            offs.append(z3.simplify(E.z_add(offs[-1], a.nz)))

        def read(i):
            e = cv(rd[-1](E.z_sub(i, offs[len(rd) - 1])))
            for k in range(len(rd) - 2, -1, -1):
                c = z3.simplify(i < offs[k + 1])
                if z3.is_false(c):
                    continue
                v = cv(rd[k](E.z_sub(i, offs[k])))
                e = v if z3.is_true(c) else z3.If(c, v, e)
            return e
        return SArr(Buf(Fn(read), (W(offs[-1]),), kind))

    def append(self, a, b):
        if not _any_sym(a, b):
            return rnp.append(a, b)
        a = self._as1(a)
        b = self._as1(b)
        return self.concatenate((a, b))

    def _as1(self, a):
        if is_scalar(a):
            return lift(E.np_array([a]))
        return lift(a)

    hstack = lambda self, seq: self.concatenate(seq)

    def diff(self, a, n=1):
        if not isinstance(a, SArr):
            return rnp.diff(a, n)
        if n != 1 or a.ndim != 1:
            raise Unsupported('diff')
        s = a.snap()
        return SArr(Buf(Fn(lambda i: E.z_sub(s(E.z_add(i, z3.IntVal(1))), s(i))), (W(z3.simplify(a.nz - 1)),), a.kind))

    def arange(self, *a, **k):
        dt = k.pop('dtype', a[3] if len(a) > 3 else None)
        b = a[:3]
        if not _any_sym(*b):
            return rnp.arange(*b, dtype=_nd(dt))
        if len(b) == 1 and Z(b[0]).sort() == z3.IntSort():
            return SArr(Buf(Fn(lambda i: i), (b[0],), 'i'))
        if len(b) == 3:
            lo, hi, st = [as_real(Z(x)) for x in b]
            # length = ceil((hi-lo)/st)
            n = as_int(E.z_ceil((hi - lo) / st))
            n = z3.If(n > 0, n, z3.IntVal(0))
            nn = z3.Int(E.CTX.fresh_name('arange_n'))
            E.CTX.fact(nn == n)
            return SArr(Buf(Fn(lambda i: lo + st * z3.ToReal(i)), (S(nn),), 'r'))
        if len(b) == 2 and Z(b[0]).sort() == z3.IntSort():
            lo, hi = Z(b[0]), Z(b[1])
            return SArr(Buf(Fn(lambda i: lo + i), (W(z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))),), 'i'))
        raise Unsupported('arange')

    def linspace(self, a, b, n=50, **k):
        if not _any_sym(a, b, n):
            return rnp.linspace(a, b, n)
        az, bz, nz = as_real(Z(a)), as_real(Z(b)), Z(n)
        return SArr(Buf(Fn(lambda i: az + z3.ToReal(i) * (bz - az) / (z3.ToReal(nz) - 1)), (n,), 'r'))

    def interp(self, x, xp, fp, left=None, right=None):
        if not _any_sym(x, xp, fp):
            return rnp.interp(x, xp, fp)
        c = E.CTX
        tab = getattr(c, 'interp_tables', None)
        if tab is None:
            tab = c.interp_tables = []
        for t in tab:
            if t[0] is xp and t[1] is fp:
                f = t[2]
                break
        else:
            f = E.fn(c.fresh_name('interp'), E.R, E.R)
            tab.append((xp, fp, f))
        ax = getattr(c, 'interp_axioms', None)

        def g(z):
            z = as_real(z)
            r = f(z)
            if ax is not None:
                c.fact_once(('interp', f(z)), lambda: ax(xp, fp, z, r))
            return r
        if isinstance(x, SArr):
            return ew1(g, x)
        return W(g(Z(x)))

    def modf(self, x):
        if not _any_sym(x):
            return rnp.modf(x)
        tr = lambda z: z3.If(as_real(z) >= 0, E.z_floor(z), E.z_ceil(z))
        if isinstance(x, SArr):
            i = ew1(tr, x)
        else:
            i = W(tr(Z(x)))
        return x - i, i

    def ndim(self, a):
        if isinstance(a, S):
            return 0
        return a.ndim if hasattr(a, 'ndim') else rnp.ndim(a)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if not _any_sym(a, b, rtol, atol):
            return rnp.isclose(a, b, rtol, atol, equal_nan)
        tol = lambda: [as_real(Z(t)) if isinstance(t, S) else E.num(t) for t in (atol, rtol)]
        g = lambda x, y: E.z_abs(as_real(x) - as_real(y)) <= tol()[0] + tol()[1] * E.z_abs(as_real(y))
        return ew(g, a, b)

    def tanh(self, a):
        if not is_sym(a):
            return rnp.tanh(a)
        return ew(z_tanh, a)

    def clip(self, a, lo, hi):
        if not _any_sym(a, lo, hi):
            return rnp.clip(a, lo, hi)
        return ew(lambda x, l, h: E.z_min(E.z_max(x, l), h), a, lo, hi)

    def dot(self, a, b):
        if not _any_sym(a, b):
            return rnp.dot(a, b)
        return E.np_sum(ew(E.z_mul, a, b))

    def mean(self, a):
        if not is_sym(a):
            return rnp.mean(a)
        return E.np_sum(a) / lift(a).shape[0]

    def take(self, a, idx, axis=None):
        if not _any_sym(a, idx):
            return rnp.take(a, idx, axis)
        if axis is not None and lift(a).ndim != 1:
            raise Unsupported('take with axis')
        return lift(a)[idx]

    def cumsum(self, a):
        if not is_sym(a):
            return rnp.cumsum(a)
        a = lift(a)
        if a.kind == 'r':
            raise Unsupported('cumsum')
        rp = E.repeat_of(a)          # counts are required to be non-negative
        r = fresh_arr('cumsum', (a.n,), 'i', lambda e, i: [z3.Implies(z3.And(i >= 0, i < rp.n), z3.And(e >= rp.counts(i), e <= rp.total))])
        n = a.nz
        E.CTX.fact(z3.Implies(n > 0, r.at(n - 1) == rp.total))
        return r

    def sort(self, a):
        raise Unsupported('sort')

    def array_equal(self, a, b):
        if not _any_sym(a, b):
            return rnp.array_equal(a, b)
        raise Unsupported('array_equal')


def _nd(dt):
    if dt is None:
        return None
    k = E.dtype_kind(dt)
    return {'r': float, 'i': int, 'b': bool}[k]


# ------------------------------------------------------------------ scipy.special (trusted contracts)
def _apps(name, e):
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() == name and x.num_args():
                out.append(x)
            todo += x.children()
    return out


def z_erf(x):
    x = E.as_real(x)
    f = E.fn('erf', E.R, E.R)(x)
    E.CTX.fact_once(('erf', x), lambda: [f > -1, f < 1, z3.Implies(x >= 0, f >= 0), z3.Implies(x > 0, f > 0), z3.Implies(x <= 0, f <= 0)])
    return f


def z_erfinv(y):
    y = E.as_real(y)
    v = E.fn('erfinv', E.R, E.R)(y)
    # monotone inverse of erf on (-1, 1)
    E.CTX.fact_once(('erfinv', y), lambda: [z3.Implies(y <= 0, v <= 0), z3.Implies(y >= 0, v >= 0)] + [
        z3.And(z3.Implies(-a <= y, -a.arg(0) <= v), z3.Implies(y <= a, v <= a.arg(0))) for a in _apps('erf', y)])
    return v


def z_gammainc(p, x):
    p, x = E.as_real(p), E.as_real(x)
    f = E.fn('gammainc', E.R, E.R, E.R)(p, x)
    E.CTX.fact_once(('gammainc', p, x), lambda: [z3.Implies(z3.And(p > 0, x >= 0), z3.And(f >= 0, f <= 1)),
                                                 z3.Implies(z3.And(p > 0, x > 0), f > 0)])
    return f


def z_gammaincinv(p, y):
    p, y = E.as_real(p), E.as_real(y)
    v = E.fn('gammaincinv', E.R, E.R, E.R)(p, y)
    E.CTX.fact_once(('gammaincinv', p, y), lambda: [z3.Implies(z3.And(p > 0, y >= 0, y <= 1), v >= 0)] + [
        z3.Implies(z3.And(p == a.arg(0), p > 0, y >= 0, y <= a), v <= a.arg(1)) for a in _apps('gammainc', y)])
    return v


def z_tanh(x):
    x = E.as_real(x)
    f = E.fn('tanh', E.R, E.R)(x)
    E.CTX.fact_once(('tanh', x), lambda: [f > -1, f < 1])
    return f


def special():
    import types as _t
    m = _t.ModuleType('scipy.special')
    for nm, f in (('erf', z_erf), ('erfinv', z_erfinv), ('gammainc', z_gammainc), ('gammaincinv', z_gammaincinv)):
        setattr(m, nm, lambda *a, f=f: ew(f, *a))
    for nm in ('gamma', 'binom'):
        def no(*a):
            raise Unsupported('scipy.special function')
        setattr(m, nm, no)
    return m
