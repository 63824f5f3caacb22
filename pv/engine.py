"""pv.engine -- deductive verifier for the numpy-style Python of PyECLOUD.

The text of a module of /repo is parsed on every run, its control statements (for / while / and /
or / not) are routed through hooks, its imports are bound to symbolic contracts of the external
functions (numpy, RNG, native kernels), and the result is *executed* over symbolic values.  Every
path of the function is explored, every loop with a symbolic bound is cut by an invariant rule, and
every contract clause becomes a quantifier-free verification condition (arrays of arbitrary length
are read at skolem indices; library axioms are instantiated at the index terms that occur).

Reals are mathematical reals, ints are mathematical integers.
"""
import ast
import builtins
import itertools
import time
from fractions import Fraction

import numpy as rnp
import z3

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()
SORT = {'r': R, 'i': I, 'b': B}

from .solve import Linear, is_nonlinear


class Unsupported(Exception):
    """The code left the verifier's subset (not a verdict about the property)."""


class PathEnd(Exception):
    """This path is complete / infeasible."""


class Restart(Exception):
    """Loop frame grew: run the same path again with a larger havoc set."""


CTX = None


def ctx():
    return CTX


# --------------------------------------------------------------------------- z3 helpers
_funcs = {}


def fn(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _funcs:
        _funcs[k] = z3.Function(name, *sorts)
    return _funcs[k]


def num(v):
    """Python / numpy number -> z3 numeral (floats by their decimal repr)."""
    if isinstance(v, (bool, rnp.bool_)):
        return z3.BoolVal(bool(v))
    if isinstance(v, (int, rnp.integer)):
        return z3.IntVal(int(v))
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if isinstance(v, (float, rnp.floating)):
        v = float(v)
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('nan/inf constant')
        return z3.RealVal(str(Fraction(repr(v))))
    raise Unsupported('not a scalar: %r' % (type(v),))


def is_scalar(v):
    return isinstance(v, (S, bool, int, float, rnp.generic, Fraction))


def Z(v):
    """any scalar -> z3 expr"""
    if isinstance(v, S):
        return v.z
    if z3.is_expr(v):
        return v
    if isinstance(v, rnp.ndarray) and v.ndim == 0:
        return num(v[()])
    if isinstance(v, SArr) and len(v.shape) == 0:
        return v.at()
    return num(v)


def as_arith(z):
    return z3.If(z, z3.IntVal(1), z3.IntVal(0)) if z.sort() == B else z


def as_real(z):
    z = as_arith(z)
    if z.sort() == I:
        if z3.is_int_value(z):
            return z3.RealVal(z.as_long())
        return z3.ToReal(z)
    return z


def as_int(z):
    """truncation toward zero"""
    z = as_arith(z)
    if z.sort() == I:
        return z
    if z3.is_rational_value(z):
        f = z.as_fraction()
        return z3.IntVal(int(f))
    if z.decl().kind() == z3.Z3_OP_TO_REAL:
        return z.arg(0)
    if z.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(z.arg(0), as_int(z.arg(1)), as_int(z.arg(2)))
    return z3.If(z >= 0, ifloor(z), -ifloor(z3.simplify(-z)))


def ifloor(z):
    """integer floor of a real term, as a named term with its defining facts"""
    if isnumeral(z):
        import math
        return z3.IntVal(math.floor(z.as_fraction()))
    if z.decl().kind() == z3.Z3_OP_TO_REAL:
        return z.arg(0)
    k = fn('ifloor', R, I)(z)
    CTX.fact_once(('ifloor', z), lambda: [z3.ToReal(k) <= z, z < z3.ToReal(k) + 1])
    return k


def as_bool(z):
    if z.sort() == B:
        return z
    if z3.is_int_value(z) or z3.is_rational_value(z):
        return z3.BoolVal(not _isnum(z, 0))
    return z != 0


def promote(a, b):
    a, b = as_arith(a), as_arith(b)
    if a.sort() == b.sort():
        return a, b
    return as_real(a), as_real(b)


def _isnum(z, v):
    if z3.is_int_value(z):
        return z.as_long() == v
    if z3.is_rational_value(z):
        return z.as_fraction() == v
    return False


def isnumeral(z):
    return z3.is_int_value(z) or z3.is_rational_value(z)


def z_add(a, b):
    a, b = promote(a, b)
    if _isnum(a, 0):
        return b
    if _isnum(b, 0):
        return a
    r = a + b
    return z3.simplify(r) if isnumeral(a) and isnumeral(b) else r


def z_sub(a, b):
    a, b = promote(a, b)
    if _isnum(b, 0):
        return a
    r = a - b
    return z3.simplify(r) if isnumeral(a) and isnumeral(b) else r


def z_mul(a, b):
    a, b = promote(a, b)
    if _isnum(a, 0):
        return a
    if _isnum(b, 0):
        return b
    if _isnum(a, 1):
        return b
    if _isnum(b, 1):
        return a
    r = a * b
    return z3.simplify(r) if isnumeral(a) and isnumeral(b) else r


SCALE = 1.  # multiplies every solver time limit (second attempt at a failed unit)


def z_div(a, b):
    a, b = as_real(a), as_real(b)
    if _isnum(b, 1):
        return a
    if isnumeral(b) and not _isnum(b, 0):
        r = a * z3.RealVal(str(1 / b.as_fraction()))
        return z3.simplify(r) if isnumeral(a) else r
    c = CTX
    if c is not None and not isnumeral(b):
        c.note_den(b)
    if _isnum(a, 0) and isnumeral(b):
        return a
    if c is not None and z3.is_const(b) and not isnumeral(b):
        q = cancel(a, b)
        if q is not None and c.entails_cheap(b != 0):
            return q
    return a / b


def cancel(a, b):
    """a / b when the constant b is a syntactic factor of a (b != 0), else None"""
    if a.eq(b):
        return z3.RealVal(1)
    k = a.decl().kind()
    if k == z3.Z3_OP_MUL:
        ch = a.children()
        for j, x in enumerate(ch):
            q = cancel(x, b)
            if q is not None:
                rest = ch[:j] + ([] if _isnum(q, 1) else [q]) + ch[j + 1:]
                r = rest[0] if rest else q
                for y in rest[1:]:
                    r = r * y
                return r
        return None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        qs = [cancel(x, b) for x in a.children()]
        if any(q is None for q in qs):
            return None
        if k == z3.Z3_OP_UMINUS:
            return -qs[0]
        r = qs[0]
        for q in qs[1:]:
            r = r + q if k == z3.Z3_OP_ADD else r - q
        return r
    return None


def z_floordiv(a, b):
    a, b = promote(a, b)
    if a.sort() == I:
        return a / b if isnumeral(b) and b.as_long() > 0 else z3.If(b > 0, a / b, (-a) / (-b))
    return z3.ToReal(ifloor(a / b))


def z_mod(a, b):
    a, b = promote(a, b)
    if a.sort() == I:
        if isnumeral(b) and b.as_long() > 0:
            return a % b
        return z3.If(b > 0, a % b, -((-a) % (-b)))
    return a - b * z3.ToReal(ifloor(a / b))


def z_sqrt(x):
    x = as_real(x)
    if isnumeral(x):
        f = x.as_fraction()
        if f >= 0:
            import math
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return z3.RealVal(str(Fraction(n, d)))
    s = fn('sqrt', R, R)(x)
    CTX.fact_once(('sqrt', x), lambda: [z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)),
                                        z3.Implies(x > 0, s > 0)])
    return s


def z_pow(a, b):
    if isnumeral(b):
        f = b.as_fraction() if z3.is_rational_value(b) else Fraction(b.as_long())
        if f.denominator == 1 and 0 <= f.numerator <= 12:
            if f.numerator == 0:
                return z3.RealVal(1)
            r = a
            if z3.is_rational_value(b) and not z3.is_int_value(b):
                a = as_real(a)
                r = a
            for _ in range(f.numerator - 1):
                r = z_mul(r, a)
            return r
        if f.denominator == 1 and -12 <= f.numerator < 0:
            return z_div(z3.RealVal(1), z_pow(as_real(a), z3.IntVal(-f.numerator)))
        if f == Fraction(1, 2):
            return z_sqrt(a)
    x, y = as_real(a), as_real(b)
    p = fn('pow', R, R, R)(x, y)
    CTX.fact_once(('pow', x, y), lambda: [z3.Implies(x > 0, p > 0), z3.Implies(x >= 0, p >= 0),
                                            z3.Implies(z3.And(x >= 0, x <= 1, y >= 0), p <= 1)])
    return p


def z_floor(a):
    a = as_real(a)
    if a.decl().kind() == z3.Z3_OP_TO_REAL:
        return a
    return z3.ToReal(ifloor(a))


def z_ceil(a):
    a = as_real(a)
    if a.decl().kind() == z3.Z3_OP_TO_REAL:
        return a
    return z3.ToReal(-ifloor(z3.simplify(-a)))


def z_round(a):
    a = as_real(a)
    k = fn('rint', R, I)(a)
    CTX.fact_once(('rint', a), lambda: [z3.ToReal(k) - a <= Fr(1, 2), a - z3.ToReal(k) <= Fr(1, 2)])
    return z3.ToReal(k)


def Fr(a, b=1):
    return z3.RealVal(str(Fraction(a, b)))


def z_abs(a):
    a = as_arith(a)
    return z3.If(a >= 0, a, -a)


def z_exp(a):
    a = as_real(a)
    if _isnum(a, 0):
        return z3.RealVal(1)
    e = fn('exp', R, R)(a)
    CTX.fact_once(('exp', a), lambda: [e > 0, z3.Implies(a > 0, e > 1), z3.Implies(a < 0, e < 1),
                                       z3.Implies(a == 0, e == 1)])
    return e


def z_log(a):
    a = as_real(a)
    e = fn('log', R, R)(a)
    CTX.fact_once(('log', a), lambda: [z3.Implies(a > 1, e > 0), z3.Implies(z3.And(a > 0, a < 1), e < 0),
                                       z3.Implies(a == 1, e == 0)])
    return e


def _trig(a):
    a = as_real(a)
    s, c = fn('sin', R, R)(a), fn('cos', R, R)(a)
    CTX.fact_once(('trig', a), lambda: [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1,
                                        z3.Implies(a == 0, z3.And(s == 0, c == 1))])
    return s, c


def z_sin(a):
    return _trig(a)[0]


def z_cos(a):
    return _trig(a)[1]


def z_atan2(y, x):
    y, x = as_real(y), as_real(x)
    t = fn('atan2', R, R, R)(y, x)
    r = z_sqrt(x * x + y * y)
    s, c = _trig(t)
    CTX.fact_once(('atan2', y, x), lambda: [
        z3.Implies(z3.And(x == 0, y == 0), t == 0), s * r == y, c * r == x])
    return t


def z_max(a, b):
    a, b = promote(a, b)
    return z3.If(a >= b, a, b)


def z_min(a, b):
    a, b = promote(a, b)
    return z3.If(a <= b, a, b)


def z_sign(a):
    a = as_arith(a)
    return z3.If(a > 0, z3.RealVal(1), z3.If(a < 0, z3.RealVal(-1), z3.RealVal(0)))


def z_isnan(a):
    """Over-approximation: any element may or may not be nan."""
    if isnumeral(as_arith(a)):
        return z3.BoolVal(False)
    return fn('isnan', R, B)(as_real(a))


# --------------------------------------------------------------------------- scalars
class S(object):
    """symbolic scalar"""
    __array_ufunc__ = None
    __slots__ = ('z', '__weakref__')
    __hash__ = object.__hash__

    def __init__(self, z):
        self.z = z

    @property
    def kind(self):
        s = self.z.sort()
        return 'b' if s == B else 'i' if s == I else 'r'

    def __repr__(self):
        return 'S(%s)' % (self.z,)

    def __format__(self, spec):
        return '<sym>'

    def __str__(self):
        return '<sym>'

    # numpy-scalar like API
    shape = ()
    ndim = 0

    def copy(self):
        return self

    def astype(self, t):
        return cast_scalar(self, t)

    def item(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.

    def any(self):
        return self

    def all(self):
        return self

    def _bin(self, o, f, rev=False):
        if isinstance(o, SArr):
            return NotImplemented
        if isinstance(o, rnp.ndarray) and o.ndim > 0:
            o = lift(o)
            return ew(f, o, self) if rev else ew(f, self, o)
        if isinstance(o, list) and f is z_mul:
            if len(o) == 1:
                return RepList(o[0], self)
            raise Unsupported('list * symbolic')
        try:
            oz = Z(o)
        except Unsupported:
            if isinstance(o, (float, rnp.floating)):
                raise
            return NotImplemented
        return W(f(oz, self.z) if rev else f(self.z, oz))

    def __add__(self, o): return self._bin(o, z_add)
    def __radd__(self, o): return self._bin(o, z_add, True)
    def __sub__(self, o): return self._bin(o, z_sub)
    def __rsub__(self, o): return self._bin(o, z_sub, True)
    def __mul__(self, o): return self._bin(o, z_mul)
    def __rmul__(self, o): return self._bin(o, z_mul, True)
    def __truediv__(self, o): return self._bin(o, z_div)
    def __rtruediv__(self, o): return self._bin(o, z_div, True)
    def __floordiv__(self, o): return self._bin(o, z_floordiv)
    def __rfloordiv__(self, o): return self._bin(o, z_floordiv, True)
    def __mod__(self, o): return self._bin(o, z_mod)
    def __rmod__(self, o): return self._bin(o, z_mod, True)
    def __pow__(self, o): return self._bin(o, z_pow)
    def __rpow__(self, o): return self._bin(o, z_pow, True)
    def __neg__(self): return W(-as_arith(self.z))
    def __pos__(self): return self
    def __abs__(self): return W(z_abs(self.z))

    def __lt__(self, o): return self._bin(o, z_lt)
    def __le__(self, o): return self._bin(o, z_le)
    def __gt__(self, o): return self._bin(o, z_gt)
    def __ge__(self, o): return self._bin(o, z_ge)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._bin(o, z_eq)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._bin(o, z_ne)

    def __and__(self, o): return self._bin(o, z_and)
    __rand__ = __and__
    def __or__(self, o): return self._bin(o, z_or)
    __ror__ = __or__
    def __xor__(self, o): return self._bin(o, z_ne)
    def __invert__(self):
        if self.z.sort() == B:
            return W(z3.Not(self.z))
        return W(-self.z - 1)

    def __bool__(self):
        return CTX.branch(as_bool(self.z))

    def __int__(self):
        raise Unsupported('int() of a symbolic value through C')

    def __float__(self):
        raise Unsupported('float() of a symbolic value through C')

    def __index__(self):
        z = z3.simplify(self.z)
        if z3.is_int_value(z):
            return z.as_long()
        raise Unsupported('symbolic value used as a concrete index')

    def __iter__(self):
        raise TypeError('scalar not iterable')

    def __getitem__(self, k):
        raise TypeError('scalar not subscriptable')


def _cmp(op):
    def f(a, b):
        if a.sort() == B and b.sort() == B and op in ('eq', 'ne'):
            return a == b if op == 'eq' else z3.Xor(a, b)
        a, b = promote(a, b)
        if isnumeral(a) and isnumeral(b):
            return z3.simplify({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b,
                                'eq': a == b, 'ne': a != b}[op])
        return {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b,
                'eq': lambda: a == b, 'ne': lambda: a != b}[op]()
    return f


z_lt, z_le, z_gt, z_ge, z_eq, z_ne = map(_cmp, ('lt', 'le', 'gt', 'ge', 'eq', 'ne'))


def z_and(a, b):
    return z3.And(as_bool(a), as_bool(b))


def z_or(a, b):
    return z3.Or(as_bool(a), as_bool(b))


def z_not(a):
    return z3.Not(as_bool(a))


def W(z):
    """z3 expr -> Python value (constants become Python numbers)"""
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    if z3.is_int_value(z):
        return z.as_long()
    if z3.is_rational_value(z):
        return RatF(z.as_fraction())
    return S(z)


class RatF(float):
    """exact rational constant that still behaves as a Python float"""
    def __new__(cls, fr):
        o = float.__new__(cls, float(fr))
        o.fr = fr
        return o


_num0 = num


def num(v):  # noqa: F811
    if isinstance(v, RatF):
        return z3.RealVal(str(v.fr))
    return _num0(v)


def named_int(z):
    """give a compound integer scalar a name (keeps array bounds simple for the solver)"""
    z = z3.simplify(z)
    if z3.is_int_value(z) or z3.is_const(z) or CTX.in_comp:
        return W(z)
    if z.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return W(z)
    k = z3.Int(CTX.fresh_name('int'))
    CTX.fact(k == z)
    return S(k)


class RepList(object):
    def __init__(self, v, n):
        self.v, self.n = v, n


def cast_scalar(v, t):
    z = Z(v)
    k = dtype_kind(t)
    return W({'r': as_real, 'i': as_int, 'b': as_bool}[k](z))


def dtype_kind(t):
    if t is None:
        return 'r'
    if isinstance(t, str) and t in ('r', 'i', 'b'):
        return t
    if t in (sym_float, np_float64, float, 'float', rnp.double, rnp.float64):
        return 'r'
    if t in (sym_int, int, 'int', rnp.int64, rnp.intp, rnp.int32):
        return 'i'
    if t in (bool, rnp.bool_, 'bool', sym_bool):
        return 'b'
    k = rnp.dtype(t).kind
    return {'f': 'r', 'i': 'i', 'u': 'i', 'b': 'b'}[k]


# --------------------------------------------------------------------------- array storage
class Layer(object):
    """immutable content of an array: index tuple -> z3 expr"""

    def __init__(self):
        self.memo = {}

    def read(self, idx):
        k = tuple(i.get_id() for i in idx)
        m = self.memo.get(k)
        if m is None:
            m = (self._read(idx), idx)
            self.memo[k] = m
        return m[0]


class Base(Layer):
    """uninterpreted content, with element facts instantiated on read"""

    def __init__(self, name, nd, kind, facts=None, shape=None):
        Layer.__init__(self)
        self.name, self.nd, self.kind = name, nd, kind
        self.f = fn(name, *([I] * nd + [SORT[kind]]))
        self.facts = facts
        self.shape = shape

    def _read(self, idx):
        e = self.f(*idx)
        if self.facts is not None:
            guard = []
            if self.shape is not None:
                for j, n in zip(idx, self.shape):
                    guard += [j >= 0, j < Z(n)]
            for f in self.facts(e, *idx):
                CTX.fact(z3.Implies(z3.And(*guard), f) if guard else f)
        CTX.note_index(idx)
        return e


class Fn(Layer):
    def __init__(self, f):
        Layer.__init__(self)
        self.f = f

    def _read(self, idx):
        return self.f(*idx)


class Write(Layer):
    def __init__(self, old, cond, val):
        Layer.__init__(self)
        self.old, self.cond, self.val = old, cond, val

    def _read(self, idx):
        c = z3.simplify(self.cond(*idx))
        if z3.is_true(c):
            return self.val(*idx)
        if z3.is_false(c):
            return self.old.read(idx)
        v = self.val(*idx)
        o = self.old.read(idx)
        if v.sort() != o.sort():
            v, o = promote(v, o)
        if v.eq(o):
            return v
        return z3.If(c, v, o)


class Buf(object):
    def __init__(self, layer, shape, kind):
        self.layer, self.shape, self.kind = layer, tuple(shape), kind
        self.uid = CTX.new_uid(self)
        self.ghost = {}
        self.tag = None

    def set_layer(self, layer):
        CTX.on_write(self)
        self.layer = layer


def ident(*idx):
    return idx


def lenz(n):
    return Z(n)


class SArr(object):
    """symbolic ndarray: a view (index map) on a buffer"""
    __array_ufunc__ = None
    __hash__ = object.__hash__

    def __init__(self, buf, shape=None, imap=ident, writable=True):
        self.buf = buf
        self.shape_ = tuple(buf.shape if shape is None else shape)
        self.imap = imap

    # -- basic attributes
    @property
    def shape(self):
        return tuple(W(Z(n)) for n in self.shape_)

    @property
    def kind(self):
        return self.buf.kind

    @property
    def dtype(self):
        return {'r': rnp.dtype(float), 'i': rnp.dtype(int), 'b': rnp.dtype(bool)}[self.kind]

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def n(self):
        return self.shape_[0]

    @property
    def nz(self):
        return Z(self.shape_[0])

    @property
    def size(self):
        r = 1
        for n in self.shape:
            r = r * n
        return r

    @property
    def T(self):
        if self.ndim == 1:
            return self
        m = self.imap
        return SArr(self.buf, self.shape_[::-1], lambda *i: m(*i[::-1]))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return full(self.shape_, z3.RealVal(0), 'r')

    def __repr__(self):
        return 'SArr(%s,%s)' % (self.kind, self.shape_)

    __str__ = __repr__

    def __format__(self, s):
        return '<arr>'

    def __len__(self):
        z = z3.simplify(self.nz)
        if z3.is_int_value(z):
            return z.as_long()
        raise Unsupported('C-level len() of a symbolic array')

    def snap(self):
        """reader of the *current* content"""
        layer, m = self.buf.layer, self.imap
        return lambda *i: layer.read(m(*i))

    def at(self, *i):
        return self.snap()(*[Z(k) for k in i])

    # -- copies / casts
    def copy(self, order=None):
        return SArr(Buf(Fn(self.snap()), self.shape_, self.kind))

    def flatten(self):
        return self.copy()

    def astype(self, t, **kw):
        k = dtype_kind(t)
        s = self.snap()
        c = {'r': as_real, 'i': as_int, 'b': as_bool}[k]
        return SArr(Buf(Fn(lambda *i: c(s(*i))), self.shape_, k))

    def tolist(self):
        return [self[k] for k in range(len(self))]

    def take(self, idx, axis=None, **kw):
        if self.ndim != 1:
            raise Unsupported('take')
        return self[idx]

    # -- reductions
    def sum(self, axis=None):
        return np_sum(self)

    def any(self):
        return count_of(as_mask(self)) > 0

    def all(self):
        return count_of(~as_mask(self)) == 0

    def max(self):
        return np_max(self)

    def min(self):
        return np_min(self)

    def __iter__(self):
        return iter([self[k] for k in range(len(self))])

    # -- arithmetic
    def __add__(self, o): return ew(z_add, self, o)
    def __radd__(self, o): return ew(z_add, o, self)
    def __sub__(self, o): return ew(z_sub, self, o)
    def __rsub__(self, o): return ew(z_sub, o, self)
    def __mul__(self, o): return ew(z_mul, self, o)
    def __rmul__(self, o): return ew(z_mul, o, self)
    def __truediv__(self, o): return ew(z_div, self, o)
    def __rtruediv__(self, o): return ew(z_div, o, self)
    def __floordiv__(self, o): return ew(z_floordiv, self, o)
    def __mod__(self, o): return ew(z_mod, self, o)
    def __pow__(self, o): return ew(z_pow, self, o)
    def __rpow__(self, o): return ew(z_pow, o, self)
    def __neg__(self): return ew1(lambda a: -as_arith(a), self)
    def __pos__(self): return self.copy()
    def __abs__(self): return ew1(z_abs, self)
    def __lt__(self, o): return ew(z_lt, self, o)
    def __le__(self, o): return ew(z_le, self, o)
    def __gt__(self, o): return ew(z_gt, self, o)
    def __ge__(self, o): return ew(z_ge, self, o)
    def __eq__(self, o): return False if o is None else ew(z_eq, self, o)
    def __ne__(self, o): return True if o is None else ew(z_ne, self, o)
    def __and__(self, o): return ew(z_and, self, o)
    __rand__ = __and__
    def __or__(self, o): return ew(z_or, self, o)
    __ror__ = __or__
    def __xor__(self, o): return ew(z_ne, self, o)
    def __invert__(self): return ew1(z_not, self)

    def _inplace(self, f, o):
        r = ew(f, self, o)
        self._assign_all(r)
        return self

    def __iadd__(self, o): return self._inplace(z_add, o)
    def __isub__(self, o): return self._inplace(z_sub, o)
    def __imul__(self, o): return self._inplace(z_mul, o)
    def __itruediv__(self, o): return self._inplace(z_div, o)
    def __iand__(self, o): return self._inplace(z_and, o)
    def __ior__(self, o): return self._inplace(z_or, o)

    def __bool__(self):
        z = z3.simplify(self.nz)
        if len(self.shape_) == 1 and z3.is_int_value(z) and z.as_long() == 1:
            return CTX.branch(as_bool(self.at(z3.IntVal(0))))
        raise ValueError('truth value of an array is ambiguous')

    def _assign_all(self, v):
        self[(slice(None),) * len(self.shape_)] = v

    # -- indexing
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = expand_key(key, self.ndim)
        if any(isinstance(k, (SArr, rnp.ndarray, list)) for k in key):
            return self._fancy_get(key)
        shape, imap = self._view(key)
        if not shape:
            return W(self.buf.layer.read(imap()))
        return SArr(self.buf, shape, imap)

    def _view(self, key):
        shape, parts = [], []
        for k, n in zip(key, self.shape_):
            if k is None:
                raise Unsupported('newaxis')
            if isinstance(k, slice):
                lo, m, st = resolve_slice(k, n)
                shape.append(m)
                parts.append(('s', lo, st))
            else:
                parts.append(('i', resolve_index(k, n)))
        m0 = self.imap

        def imap(*idx):
            out, it = [], iter(idx)
            for p in parts:
                if p[0] == 'i':
                    out.append(p[1])
                else:
                    j = next(it)
                    out.append(z_add(p[1], j) if p[2] == 1 else z_sub(p[1], j) if p[2] == -1 else z_add(p[1], z_mul(z3.IntVal(p[2]), j)))
            return m0(*out)
        return shape, imap

    def _fancy_get(self, key):
        if len(key) == 1:
            k = key[0]
            if isinstance(k, list):
                k = np_array(k)
            k = lift(k)
            s = self.snap()
            if k.kind == 'b':
                same_len(k.n, self.n, 'boolean index length')
                sel = selection(k)
                return SArr(Buf(Fn(lambda j: s(sel.sel_at(j))), (sel.count,), self.kind))
            if k.kind == 'i':
                n = self.nz
                ks = k.snap()
                CTX.require_index(lambda j: ks(j), k, n)
                return SArr(Buf(Fn(lambda *j: s(norm_index(ks(*j), n))), k.shape_, self.kind))
            raise Unsupported('fancy index kind')
        # mixed: 2D with fancy
        ks = [lift(k) if isinstance(k, (rnp.ndarray, list)) else k for k in key]
        if len(ks) == 2 and isinstance(ks[0], slice) and isinstance(ks[1], SArr) and ks[1].kind == 'b':
            sel = selection(ks[1])
            sub = self[:, :]
            if ks[0] != slice(None):
                raise Unsupported('mixed index')
            s = sub.snap()
            return SArr(Buf(Fn(lambda a, b: s(a, sel.sel_at(b))), (self.shape_[0], sel.count), self.kind))
        if all(isinstance(k, SArr) and k.kind == 'i' for k in ks):
            rd = [k.snap() for k in ks]
            ns = self.shape_
            s = self.snap()
            return SArr(Buf(Fn(lambda *j: s(*[norm_index(r(*j), Z(n)) for r, n in zip(rd, ns)])), ks[0].shape_, self.kind))
        raise Unsupported('mixed fancy index')

    def __setitem__(self, key, val):
        if not isinstance(key, tuple):
            key = (key,)
        key = expand_key(key, self.ndim)
        conv = {'r': as_real, 'i': as_int, 'b': as_bool}[self.kind]
        buf = self.buf
        old = buf.layer
        if self.imap is not ident and any(isinstance(k, (SArr, rnp.ndarray, list)) for k in key):
            # masked write through a view: write the updated dense view
            tmp = self.copy()
            tmp[key if len(key) > 1 else key[0]] = val
            self._assign_all(tmp)
            return
        if any(isinstance(k, (SArr, rnp.ndarray, list)) for k in key):
            if len(key) != 1:
                raise Unsupported('fancy store')
            k = key[0]
            k = lift(np_array(k) if isinstance(k, list) else k)
            if k.kind == 'b':
                same_len(k.n, self.n, 'boolean index length')
                ks = k.snap()
                n = self.nz
                if is_scalar(val) or (isinstance(val, SArr) and val.ndim == 0):
                    v = conv(Z(val))
                    buf.set_layer(Write(old, lambda i: as_bool(ks(i)), lambda i: v))
                else:
                    val = lift(val)
                    sel = selection(k)
                    if is_len1(val.n) and not is_len1(sel.count):
                        v0 = conv(val.at(z3.IntVal(0)))
                        buf.set_layer(Write(old, lambda i: as_bool(ks(i)), lambda i: v0))
                        return
                    same_len(val.n, sel.count, 'masked assignment length')
                    vs = val.snap()
                    buf.set_layer(Write(old, lambda i: as_bool(ks(i)), lambda i: conv(vs(sel.rank_at(i)))))
                return
            if k.kind == 'i':
                # scatter: x[idx] = val; only through inverse when idx is injective: not supported in general
                raise Unsupported('integer scatter store')
            raise Unsupported('fancy store kind')
        # basic store
        parts = []
        for k, n in zip(key, self.shape_):
            if isinstance(k, slice):
                lo, m, st = resolve_slice(k, n)
                parts.append(('s', lo, m, st))
            else:
                parts.append(('i', resolve_index(k, n)))
        nd = sum(1 for p in parts if p[0] == 's')
        if is_scalar(val) or (isinstance(val, SArr) and val.ndim == 0):
            vz = conv(Z(val))
            vread = lambda *j: vz
        else:
            val = lift(val)
            vs = val.snap()
            dims = [p[2] for p in parts if p[0] == 's']
            if val.ndim != nd:
                if nd == 0 and is_len1(val.n):
                    v0 = conv(vs(z3.IntVal(0)))
                    vread = lambda *j: v0
                elif val.ndim < nd:
                    kk = val.ndim
                    for a, b in zip(dims[-kk:], val.shape_):
                        same_len(a, b, 'store shape')
                    vread = lambda *j: conv(vs(*j[-kk:]))
                else:
                    raise Unsupported('store rank')
            else:
                bc = []
                for a, b in zip(dims, val.shape_):
                    if is_len1(b) and not is_len1(a):
                        bc.append(True)
                    else:
                        bc.append(False)
                        same_len(a, b, 'store shape')
                vread = lambda *j: conv(vs(*[z3.IntVal(0) if c else jj for c, jj in zip(bc, j)]))
        if self.imap is ident:
            def split(idx):
                conds, js = [], []
                for p, i in zip(parts, idx):
                    if p[0] == 'i':
                        conds.append(i == p[1])
                    else:
                        j = z_sub(i, p[1]) if p[3] == 1 else z_sub(p[1], i) if p[3] == -1 else None
                        if j is None:
                            raise Unsupported('strided store')
                        conds += [j >= 0, j < Z(p[2])]
                        js.append(j)
                return z3.And(*conds), js
            buf.set_layer(Write(old, lambda *i: split(i)[0], lambda *i: vread(*split(i)[1])))
        else:
            # store through a view: invert the affine index map
            inv = invert_map(self.imap, len(self.shape_), len(buf.shape))

            def split(bidx):
                c0, vidx = inv(bidx)
                conds, js = list(c0), []
                for p, i, n in zip(parts, vidx, self.shape_):
                    conds += [i >= 0, i < Z(n)]
                    if p[0] == 'i':
                        conds.append(i == p[1])
                    else:
                        if p[3] not in (1, -1):
                            raise Unsupported('strided store')
                        j = z_sub(i, p[1]) if p[3] == 1 else z_sub(p[1], i)
                        conds += [j >= 0, j < Z(p[2])]
                        js.append(j)
                return z3.And(*conds), js
            buf.set_layer(Write(old, lambda *i: split(i)[0], lambda *i: vread(*split(i)[1])))


def invert_map(imap, nv, nb):
    """inverse of an index map built from basic slices (each base dim is const or +-j + c)"""
    js = [z3.Int('__inv%d' % k) for k in range(nv)]
    out = imap(*js)
    spec = []
    for e in out:
        hit = [k for k, j in enumerate(js) if occurs(j, e)]
        if not hit:
            spec.append(('c', e))
        elif len(hit) == 1:
            k = hit[0]
            off = z3.simplify(e - js[k])
            if not occurs(js[k], off):
                spec.append(('+', k, off))
            else:
                off = z3.simplify(e + js[k])
                if occurs(js[k], off):
                    raise Unsupported('index map')
                spec.append(('-', k, off))
        else:
            raise Unsupported('index map')

    def inv(bidx):
        conds, v = [], [None] * nv
        for sp, b in zip(spec, bidx):
            if sp[0] == 'c':
                conds.append(b == sp[1])
            elif sp[0] == '+':
                v[sp[1]] = z_sub(b, sp[2])
            else:
                v[sp[1]] = z_sub(sp[2], b)
        return conds, v
    return inv


_consts_memo = {}


def consts_of(e):
    k = e.get_id()
    m = _consts_memo.get(k)
    if m is not None and m[1].eq(e):
        return m[0]
    out, seen, todo = set(), set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        todo.extend(t.children())
    if len(_consts_memo) > 100000:
        _consts_memo.clear()
    _consts_memo[k] = (out, e)
    return out


def mentions(f, c):
    return c.decl().name() in consts_of(f)


def nesting(t):
    """depth of nested selection / rank / owner maps in an index term (keeps instantiation finite)"""
    w = 0.
    d = 0.
    if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        w = 1.4 if t.decl().name().startswith('rank_') else 1.
    for ch in t.children():
        d = max(d, nesting(ch))
    return w + d


def occurs(c, e, _memo=None):
    seen, todo = set(), [e]
    cid = c.get_id()
    while todo:
        t = todo.pop()
        if t.get_id() == cid:
            return True
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        todo.extend(t.children())
    return False


def is_len1(n):
    z = z3.simplify(Z(n))
    return z3.is_int_value(z) and z.as_long() == 1


def expand_key(key, nd):
    key = list(key)
    if any(k is Ellipsis for k in key):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key[p:p + 1] = [slice(None)] * (nd - len(key) + 1)
    while len(key) < nd:
        key.append(slice(None))
    if len(key) > nd:
        raise IndexError('too many indices')
    return tuple(key)


def norm_index(k, n):
    k = as_int(k) if k.sort() != I else k
    if z3.is_int_value(k):
        return k if k.as_long() >= 0 else z_add(n, k)
    s = CTX.entails_cheap(k >= 0)
    if s:
        return k
    return z3.If(k >= 0, k, k + n)


def resolve_index(k, n):
    if isinstance(k, (float, rnp.floating)) and not isinstance(k, S):
        raise IndexError('float index')
    kz = Z(k)
    if kz.sort() == R:
        raise IndexError('float index')
    if kz.sort() == B:
        raise Unsupported('bool index')
    nz = Z(n)
    CTX.safety('index-in-bounds', z3.And(kz >= -nz, kz < nz))
    return norm_index(kz, nz)


def clipz(k, n):
    """Python slice bound clipping to [0,n]"""
    if z3.is_int_value(k):
        if k.as_long() == 0:
            return k
    if k.eq(n):
        return k
    if CTX.entails_cheap(z3.And(k >= 0, k <= n)):
        return k
    k2 = z3.If(k < 0, k + n, k)
    return z3.If(k2 < 0, z3.IntVal(0), z3.If(k2 > n, n, k2))


def resolve_slice(s, n):
    """-> (first index, length, step)"""
    nz = Z(n)
    st = 1 if s.step is None else int(s.step)
    if st == 1:
        lo = z3.IntVal(0) if s.start is None else clipz(as_int(Z(s.start)), nz)
        hi = nz if s.stop is None else clipz(as_int(Z(s.stop)), nz)
        if _isnum(lo, 0):
            m = hi
        else:
            m = z3.simplify(hi - lo)
        if not (_isnum(lo, 0) or CTX.entails_cheap(hi >= lo)):
            m = z3.If(hi >= lo, hi - lo, z3.IntVal(0))
        return lo, W(m), 1
    if st == -1 and s.start is None and s.stop is None:
        return z_sub(nz, z3.IntVal(1)), n, -1
    zn = z3.simplify(nz)
    if z3.is_int_value(zn):
        rg = range(zn.as_long())[s]
        return z3.IntVal(rg.start), len(rg), rg.step
    raise Unsupported('slice step')


def same_len(a, b, what):
    za, zb = Z(a), Z(b)
    if za.eq(zb):
        return
    CTX.safety('shape: ' + what, za == zb)


# --------------------------------------------------------------------------- construction
def full(shape, z, kind):
    return SArr(Buf(Fn(lambda *i: z), shape, kind))


def fresh_arr(name, shape, kind='r', facts=None):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    b = Buf(Base(CTX.fresh_name(name), len(shape), kind, facts, shape), shape, kind)
    return SArr(b)


def fresh(name, kind='r'):
    return S(z3.Const(CTX.fresh_name(name), SORT[kind]))


def lift(v):
    """anything array-like -> SArr"""
    if isinstance(v, SArr):
        return v
    if isinstance(v, rnp.ndarray):
        if v.dtype.kind == 'O':
            return np_array(list(v))
        kind = {'f': 'r', 'i': 'i', 'u': 'i', 'b': 'b'}.get(v.dtype.kind)
        if kind is None:
            raise Unsupported('dtype %s' % v.dtype)
        v = v.copy()
        if v.ndim == 0:
            z = num(v[()])
            return SArr(Buf(Fn(lambda: z), (), kind))

        def rd(*idx):
            ks = [z3.simplify(i) for i in idx]
            if all(z3.is_int_value(k) for k in ks):
                return num(v[tuple(k.as_long() for k in ks)]) if all(0 <= k.as_long() < m for k, m in zip(ks, v.shape)) else \
                    z3.FreshConst(SORT[kind])
            if v.size == 0:
                return z3.FreshConst(SORT[kind])
            if v.size > 400:
                raise Unsupported('symbolic index into a large constant table')
            items = list(rnp.ndindex(*v.shape))
            e = num(v[items[-1]])
            for it in reversed(items[:-1]):
                e2 = num(v[it])
                if e2.sort() != e.sort():
                    e2, e = promote(e2, e)
                e = z3.If(z3.And(*[k == q for k, q in zip(ks, it)]), e2, e)
            return e
        return SArr(Buf(Fn(rd), v.shape, kind))
    if isinstance(v, (list, tuple)):
        r = np_array(v)
        return lift(r)
    if isinstance(v, RepList):
        return np_array(v)
    raise Unsupported('cannot lift %r' % type(v))


def is_sym(v):
    return isinstance(v, (S, SArr, RepList)) or (isinstance(v, (list, tuple)) and any(is_sym(x) for x in v))


def np_array(v, dtype=None, copy=True, **kw):
    if isinstance(v, SArr):
        return v.copy() if dtype is None else v.astype(dtype)
    if isinstance(v, RepList):
        z = Z(v.v)
        k = {'Bool': 'b', 'Int': 'i', 'Real': 'r'}[str(z.sort())]
        return full((v.n,), z, k)
    if isinstance(v, S):
        return SArr(Buf(Fn(lambda: v.z), (), v.kind))
    if isinstance(v, (list, tuple)) and is_sym(v):
        if all(is_scalar(x) for x in v):
            zs = [Z(x) for x in v]
            if all(z.sort() == B for z in zs):
                kind = 'b'
            elif all(z.sort() in (I, B) for z in zs):
                kind = 'i'
                zs = [as_arith(z) for z in zs]
            else:
                kind = 'r'
                zs = [as_real(z) for z in zs]
            if dtype is not None:
                kind = dtype_kind(dtype)
                zs = [{'r': as_real, 'i': as_int, 'b': as_bool}[kind](z) for z in zs]

            def rd(i):
                i = z3.simplify(i)
                if z3.is_int_value(i) and 0 <= i.as_long() < len(zs):
                    return zs[i.as_long()]
                e = zs[-1]
                for q in range(len(zs) - 2, -1, -1):
                    e = z3.If(i == q, zs[q], e)
                return e
            return SArr(Buf(Fn(rd), (len(zs),), kind))
        rows = [lift(x) for x in v]
        rs = [r.snap() for r in rows]
        for r in rows[1:]:
            same_len(r.n, rows[0].n, 'array rows')

        def rd2(i, *j):
            i = z3.simplify(i)
            if z3.is_int_value(i):
                return rs[i.as_long()](*j)
            e = rs[-1](*j)
            for q in range(len(rs) - 2, -1, -1):
                e = z3.If(i == q, rs[q](*j), e)
            return e
        return SArr(Buf(Fn(rd2), (len(rows),) + rows[0].shape_, rows[0].kind))
    if dtype in (sym_float, sym_int, sym_bool):
        dtype = {sym_float: float, sym_int: int, sym_bool: bool}[dtype]
    return rnp.array(v, dtype=dtype, **kw)


def result_kind(z):
    return {'Bool': 'b', 'Int': 'i', 'Real': 'r'}[str(z.sort())]


_probe = z3.Int('__kindprobe')


def ew1(f, a):
    if not isinstance(a, SArr):
        if isinstance(a, S):
            return W(f(a.z))
        raise Unsupported('ew1')
    s = a.snap()
    k = result_kind(f(z3.Const('__kp_%s' % a.kind, SORT[a.kind]))) if f not in _REALF else 'r'
    return SArr(Buf(Fn(lambda *i: f(s(*i))), a.shape_, k))


_REALF = set()


def ew(f, *args):
    """elementwise application with scalar broadcasting"""
    arrs = []
    ops = []
    for a in args:
        if isinstance(a, SArr):
            pass
        elif isinstance(a, (rnp.ndarray, list)):
            a = lift(a)
        elif a is None or isinstance(a, str):
            raise TypeError('bad operand')
        else:
            z = Z(a)
            ops.append(('c', z))
            continue
        if a.ndim == 0:
            ops.append(('c', a.at()))
            continue
        arrs.append(a)
        ops.append(('a', a.snap(), a))
    if not arrs:
        return W(f(*[o[1] for o in ops]))
    ref = max(arrs, key=lambda a: a.ndim)
    # shape
    shape = list(ref.shape_)
    for a in arrs:
        off = ref.ndim - a.ndim
        for d, n in enumerate(a.shape_):
            if is_len1(shape[d + off]) and not is_len1(n):
                shape[d + off] = n
    acc = []
    for o in ops:
        if o[0] == 'c':
            acc.append(lambda *i, z=o[1]: z)
            continue
        a = o[2]
        off = ref.ndim - a.ndim
        bc = []
        for d, n in enumerate(a.shape_):
            if is_len1(n) and not is_len1(shape[d + off]):
                bc.append(True)
            else:
                bc.append(False)
                same_len(n, shape[d + off], 'operands')
        s = o[1]
        if off == 0 and not any(bc):
            acc.append(s)
        else:
            acc.append(lambda *i, s=s, off=off, bc=bc: s(*[z3.IntVal(0) if c else j for c, j in zip(bc, i[off:])]))
    # result kind from a probe
    if f in _REALF:
        k = 'r'
    else:
        pr = []
        for o in ops:
            pr.append(o[1] if o[0] == 'c' else z3.Const('__kp_' + o[2].kind, SORT[o[2].kind]))
        save = CTX.quiet
        CTX.quiet = True
        try:
            k = result_kind(f(*pr))
        finally:
            CTX.quiet = save
    conv = {'r': as_real, 'i': lambda z: z, 'b': lambda z: z}[k]
    return SArr(Buf(Fn(lambda *i: conv(f(*[g(*i) for g in acc]))), shape, k))


# --------------------------------------------------------------------------- masks / selections
class Selection(object):
    """x[mask]: sel enumerates the True positions in increasing order, rank is its inverse"""

    def __init__(self, pred, n, name):
        self.pred, self.n = pred, n
        c = CTX
        self.countz = z3.Int(c.fresh_name('cnt_' + name))
        self.sel = fn(c.fresh_name('sel_' + name), I, I)
        self.rank = fn(c.fresh_name('rank_' + name), I, I)
        self.seen_k, self.seen_i = set(), set()
        c.fact(self.countz >= 0)
        c.fact(self.countz <= n)
        c.fact(z3.Implies(n >= 0, z3.BoolVal(True)))
        self.count = W(self.countz)

    def touch(self):
        # non-emptiness witness
        if 'w' not in self.seen_k:
            self.seen_k.add('w')
            z = z3.IntVal(0)
            s = self.sel(z)
            CTX.fact(z3.Implies(self.countz > 0, z3.And(s >= 0, s < self.n, self.pred(s), self.rank(s) == 0)))
            CTX.note_index((s,))
            self.sel_at(self.countz - 1)
        return self

    def sel_at(self, k):
        if z3.is_app(k) and k.num_args() == 1 and k.decl().eq(self.rank):
            # rank(i) is only ever used for selected positions i (masked stores), where sel(rank(i)) = i
            return k.arg(0)
        s = self.sel(k)
        if k.get_id() not in self.seen_k:
            self.seen_k.add(k.get_id())
            CTX.keep.append(k)
            CTX.fact(z3.Implies(z3.And(k >= 0, k < self.countz),
                                z3.And(s >= 0, s < self.n, self.pred(s), self.rank(s) == k, s >= k)))
            CTX.note_index((s,))
        return s

    def rank_at(self, i):
        r = self.rank(i)
        self.inst(i)
        return r

    def inst(self, i):
        if i.get_id() not in self.seen_i:
            self.seen_i.add(i.get_id())
            CTX.keep.append(i)
            r = self.rank(i)
            CTX.fact(z3.Implies(z3.And(i >= 0, i < self.n, self.pred(i)),
                                z3.And(r >= 0, r < self.countz, self.sel(r) == i, r <= i)))


class SubSelection(object):
    """selection within the entries of another selection s: the entries of base, a selection of the same array as s"""
    def __init__(self, pred, s, base):
        self.pred, self.n, self.s, self.base = pred, s.countz, s, base
        self.countz, self.count, self.rank = base.countz, base.count, base.rank
        self.sel = lambda k: s.rank(base.sel(k))

    def touch(self):
        return self

    def sel_at(self, k):
        return self.s.rank_at(self.base.sel_at(k))

    def rank_at(self, j):
        return self.base.rank_at(self.s.sel_at(j))

    def inst(self, j):
        self.base.inst(self.s.sel_at(j))


def owner_selection(n):
    if z3.is_const(n):
        for s in CTX.selections:
            if isinstance(s, Selection) and s.countz.eq(n):
                return s
    return None


def as_mask(a):
    a = lift(a)
    return a if a.kind == 'b' else a.astype('b')


def selection(mask):
    """selection object of a boolean array (shared between equivalent masks)"""
    c = CTX
    s = mask.snap()
    n = mask.nz
    memo = {}

    def pred(i):
        k = i.get_id()
        if k not in memo:
            memo[k] = (z3.simplify(as_bool(s(i))), i)
        return memo[k][0]
    p = z3.Int('__probe')
    dom = z3.And(p >= 0, p < n, pred(p))
    for old in c.selections:
        od = old.dom
        if od.eq(dom) or c.entails(od == dom, timeout=500 if len(c.selections) > 4 else 1500, cheap=True):
            return old
    s1 = owner_selection(n)
    if s1 is not None:
        base = selection(SArr(Buf(Fn(lambda i: z3.And(s1.pred(i), pred(s1.rank_at(i)))), (W(s1.n),), 'b')))
        sel = SubSelection(pred, s1, base)
        sel.dom = dom
        c.selections.append(sel)
        return sel
    sel = Selection(pred, n, str(len(c.selections)))
    sel.dom = dom
    c.selections.append(sel)
    sel.touch()
    if c.unit.try_empty:
        from . import solve
        i = c.skolem_int()
        g = z3.Implies(z3.And(i >= 0, i < n), z3.Not(pred(i)))
        c.instantiate()
        if solve.discharge(c.facts, g, c.unit.try_empty)[0] == 'valid':
            c.fact(sel.countz == 0)
        c.forget(i)
    return sel


def count_of(mask):
    return selection(mask).count


# --------------------------------------------------------------------------- sums
class SumAtom(object):
    def __init__(self, z, cond, body):
        self.z, self.cond, self.body = z, cond, body

    def term(self):
        zero = z3.RealVal(0) if self.body.sort() == R else z3.IntVal(0)
        return z3.If(self.cond, self.body, zero)


PB = z3.Int('__probe')


def prune(e, assumption):
    """simplify if-then-else conditions of e that are decided by the assumption (and the path facts)"""
    c = CTX
    memo = {}
    sv = c.lsolver
    sv.push()
    sv.add(c.lin(assumption))
    sv.set('timeout', int(SCALE * (500)))

    def dec(q):
        if sv.check(c.lin(z3.Not(q))) == z3.unsat:
            return True
        if sv.check(c.lin(q)) == z3.unsat:
            return False
        return None

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][0]
        if not z3.is_app(t) or t.num_args() == 0:
            r = t
        elif t.decl().kind() == z3.Z3_OP_ITE:
            d = dec(t.arg(0))
            if d is True:
                r = go(t.arg(1))
            elif d is False:
                r = go(t.arg(2))
            else:
                r = z3.If(go(t.arg(0)), go(t.arg(1)), go(t.arg(2)))
        else:
            ch = [go(x) for x in t.children()]
            from .solve import rebuild
            r = t if all(a.eq(b) for a, b in zip(ch, t.children())) else rebuild(t, ch)
        memo[k] = (r, t)
        return r
    try:
        return go(e)
    finally:
        sv.pop()


def _has_ite(e):
    seen, todo = set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return True
        todo.extend(t.children())
    return False


def subterm_app(f, e):
    seen, todo = set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.num_args() > 0 and t.decl().eq(f):
            return True
        todo.extend(t.children())
    return False


AXIOM_FNS = {}


def touch_axioms(e):
    """re-issue the defining axioms of sqrt/exp/... applications of a term produced by substitution"""
    seen, todo = set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            g = {'sqrt': z_sqrt, 'exp': z_exp, 'log': z_log, 'sin': z_sin, 'cos': z_cos, 'atan2': z_atan2, 'pow': z_pow}.get(t.decl().name())
            if g is not None:
                g(*t.children())
        todo.extend(t.children())
    return e


def restrict_domain(n, body):
    """sum over [0,n) whose body vanishes outside [0,count): restrict to [0,count)"""
    c = CTX
    zero = z3.RealVal(0) if body.sort() == R else z3.IntVal(0)
    for m, f in [(s.countz, s.sel) for s in c.selections if isinstance(s, Selection)] + [(r.total, r.owner) for r in c.repeats]:
        if n.eq(m) or not subterm_app(f, body):
            continue
        inm = z3.And(PB >= 0, PB < m)
        inn = z3.And(PB >= 0, PB < n)
        b1 = prune(body, z3.And(inn, z3.Not(inm)))
        if z3.simplify(b1 == zero).eq(z3.BoolVal(True)) and c.entails(z3.Implies(inm, PB < n), 800, cheap=True):
            return m, prune(body, inm)
    return n, body


def normal_domain(n, body, cond=None):
    """Re-express sum_{0<=p<n} body(p) over the base index of selections / repeats."""
    body = prune(body, z3.And(PB >= 0, PB < n)) if _has_ite(body) else body
    n, body = restrict_domain(n, body)
    cond = z3.And(PB >= 0, PB < n) if cond is None else cond
    for _ in range(6):
        done = True
        for s in CTX.selections:
            if n.eq(s.countz) and isinstance(s, Selection):
                t = s.sel(PB)
                f = z3.Int('__probe2')
                b2 = z3.substitute(body, (t, f))
                # p = rank(sel(p)): what still mentions p is rewritten with the rank of the base index
                if occurs(PB, b2):
                    b2 = z3.substitute(b2, (PB, s.rank(f)))
                    s.inst(PB)
                if True:
                    body = touch_axioms(z3.substitute(b2, (f, PB)))
                    n = s.n
                    cond = z3.And(PB >= 0, PB < n, s.pred(PB))
                    cond = z3.And(cond)
                    # nested: only if base n is again a selection count
                    return normal_domain_cond(n, body, s.pred)
                return n, body, cond
        for rp in CTX.repeats:
            if n.eq(rp.total):
                t = rp.owner(PB)
                f = z3.Int('__probe2')
                b2 = z3.substitute(body, (t, f))
                if not occurs(PB, b2):
                    body = z_mul(z3.substitute(b2, (f, PB)), rp.counts(PB))
                    n = rp.n
                    cond = z3.And(PB >= 0, PB < n)
                    done = False
                    break
                return n, body, cond
        if done:
            break
    return n, body, cond


def normal_domain_cond(n, body, pred):
    zero = z3.RealVal(0) if body.sort() == R else z3.IntVal(0)
    p = pred(PB)
    return normal_domain(n, z3.If(p, body, zero))


def np_sum(a, axis=None, **kw):
    if isinstance(a, (rnp.ndarray, int, float, rnp.generic)) and not is_sym(a):
        return rnp.sum(a, axis=axis)
    if isinstance(a, S):
        return a
    if isinstance(a, (list, tuple)):
        if not is_sym(a):
            return rnp.sum(a, axis=axis)
        a = lift(a)
    if a.ndim != 1:
        if axis is None and a.ndim == 2:
            return CTX.sum2d(a)
        raise Unsupported('sum over axis')
    if a.kind == 'b':
        return count_of(a)
    zn = z3.simplify(a.nz)
    if z3.is_int_value(zn) and zn.as_long() <= 12:
        t = num(0) if a.kind == 'i' else z3.RealVal(0)
        for k in range(zn.as_long()):
            t = z_add(t, a.at(z3.IntVal(k)))
        return W(t)
    return W(CTX.sum_atom(a.nz, a.at(PB)))


def np_max(a):
    return _ext(a, 'max')


def np_min(a):
    return _ext(a, 'min')


def _ext(a, w):
    if not is_sym(a):
        return rnp.max(a) if w == 'max' else rnp.min(a)
    a = lift(a)
    if a.ndim != 1:
        raise Unsupported('max nd')
    zn = z3.simplify(a.nz)
    f = z_max if w == 'max' else z_min
    if z3.is_int_value(zn) and zn.as_long() <= 12:
        t = a.at(z3.IntVal(0))
        for k in range(1, zn.as_long()):
            t = f(t, a.at(z3.IntVal(k)))
        return W(t)
    c = CTX
    m = z3.Const(c.fresh_name(w), SORT[a.kind])
    j = z3.Int(c.fresh_name('arg' + w))
    s = a.snap()
    n = a.nz
    c.fact(z3.Implies(n > 0, z3.And(j >= 0, j < n, m == s(j))))
    inst = lambda i: z3.Implies(z3.And(i >= 0, i < n), s(i) <= m if w == 'max' else s(i) >= m)
    c.instantiators.append(inst)
    c.fact(inst(z3.IntVal(0)))
    c.fact(inst(n - 1))
    return W(m)


class Repeat(object):
    def __init__(self, counts, n, name):
        c = CTX
        self.counts, self.n = counts, n
        self.total = z3.Int(c.fresh_name('rtot_' + name))
        self.owner = fn(c.fresh_name('owner_' + name), I, I)
        self.seen = set()
        c.fact(self.total >= 0)
        k = z3.IntVal(0)
        self.at(k)

    def at(self, k):
        o = self.owner(k)
        if k.get_id() not in self.seen:
            self.seen.add(k.get_id())
            CTX.keep.append(k)
            CTX.fact(z3.Implies(z3.And(k >= 0, k < self.total),
                                z3.And(o >= 0, o < self.n, self.counts(o) > 0)))
            CTX.note_index((o,))
        return o


def np_repeat(a, counts, axis=None):
    if not is_sym(a) and not is_sym(counts):
        return rnp.repeat(a, counts)
    if is_scalar(a) :
        return full((counts,), Z(a), result_kind(Z(a)))
    a = lift(a)
    c = CTX
    if is_scalar(counts):
        raise Unsupported('repeat by scalar')
    counts = lift(counts)
    same_len(a.n, counts.n, 'repeat counts')
    rp = repeat_of(counts)
    s = a.snap()
    return SArr(Buf(Fn(lambda k: s(rp.at(k))), (W(rp.total),), a.kind))


def repeat_of(counts):
    c = CTX
    cs = counts.snap()
    n = counts.nz
    body = as_int(cs(PB))
    for rp in c.repeats:
        if rp.n.eq(n) and (rp.body.eq(body) or c.entails(z3.Implies(z3.And(PB >= 0, PB < n), rp.body == body), 1500, cheap=True)):
            return rp
    c.prove_forall('repeat counts are non-negative', n, lambda i: as_int(cs(i)) >= 0, safety=True)
    s = owner_selection(n)
    if s is not None:
        # counts of selected entries: repetition of the whole array, with zero for the entries not selected
        base = repeat_of(SArr(Buf(Fn(lambda i: z3.If(s.pred(i), as_int(cs(s.rank_at(i))), z3.IntVal(0))), (W(s.n),), 'i')))
        rp = Repeat.__new__(Repeat)
        rp.counts, rp.n, rp.total, rp.owner = (lambda i: as_int(cs(i))), n, base.total, base.owner
        rp.body = body
        rp.at = lambda k: s.rank_at(base.at(k))
        c.repeats.append(rp)
        return rp
    rp = Repeat(lambda i: as_int(cs(i)), n, str(len(c.repeats)))
    rp.body = body
    c.repeats.append(rp)
    # total = sum of counts
    t = c.sum_atom(n, body)
    c.fact(rp.total == t)
    # any owner with positive count makes the total positive
    c.instantiators.append(lambda i, rp=rp: z3.Implies(z3.And(i >= 0, i < rp.n, rp.counts(i) > 0), rp.total > 0))
    return rp


# --------------------------------------------------------------------------- symbolic builtins
def sym_len(x):
    if isinstance(x, SArr):
        return x.shape[0]
    if isinstance(x, RepList):
        return x.n
    return builtins.len(x)


class _TypeLike(type):
    def __instancecheck__(cls, o):
        return cls._ic(o)


class sym_int(int, metaclass=_TypeLike):
    def __new__(cls, x=0, *a):
        if isinstance(x, S):
            return named_int(as_int(x.z))
        if isinstance(x, SArr):
            return named_int(as_int(x.at() if x.ndim == 0 else x.at(z3.IntVal(0))))
        return builtins.int(x, *a)

    @staticmethod
    def _ic(o):
        return builtins.isinstance(o, builtins.int) or (builtins.isinstance(o, S) and o.kind == 'i')


class sym_float(float, metaclass=_TypeLike):
    def __new__(cls, x=0.):
        if isinstance(x, S):
            return W(as_real(x.z))
        if isinstance(x, SArr):
            return W(as_real(x.at() if x.ndim == 0 else x.at(z3.IntVal(0))))
        if isinstance(x, RatF):
            return x
        return builtins.float(x)

    @staticmethod
    def _ic(o):
        return builtins.isinstance(o, builtins.float) or (builtins.isinstance(o, S) and o.kind == 'r')


class np_float64(float, metaclass=_TypeLike):
    """numpy.float64: the identity on float arrays (no copy)"""
    def __new__(cls, x=0.):
        if isinstance(x, SArr):
            return x if x.kind == 'r' else x.astype('r')
        return sym_float(x)

    @staticmethod
    def _ic(o):
        return sym_float._ic(o)


class sym_bool(int, metaclass=_TypeLike):
    def __new__(cls, x=False):
        if isinstance(x, S):
            return W(as_bool(x.z))
        return builtins.bool(x)

    @staticmethod
    def _ic(o):
        return builtins.isinstance(o, builtins.bool) or (builtins.isinstance(o, S) and o.kind == 'b')


class SymRange(object):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


def sym_range(*a):
    if not any(isinstance(x, S) for x in a):
        return builtins.range(*a)
    a = [x if not isinstance(x, S) else W(z3.simplify(x.z)) for x in a]
    if not any(isinstance(x, S) for x in a):
        return builtins.range(*a)
    if len(a) == 1:
        return SymRange(0, a[0])
    if len(a) == 2:
        return SymRange(a[0], a[1])
    if a[2] == 1:
        return SymRange(a[0], a[1])
    raise Unsupported('range step')


def pv_listcomp(f, it):
    """[f(x) for x in it]; over an array of symbolic length: the array of the f(x)"""
    if not isinstance(it, SArr) or it.ndim != 1 or not is_sym_len(it):
        return [f(x) for x in it]
    c = CTX
    s = it.snap()
    i = c.skolem_int('lc')
    rng = z3.And(i >= 0, i < it.nz)
    n0 = len(c.decisions)
    c.instantiate()
    # one generic element, for the safety obligations; then element by element on demand
    c.fact(rng)
    c.in_comp = True
    try:
        v = f(W(s(i)))
    finally:
        c.in_comp = False
    if len(c.decisions) != n0:
        raise Unsupported('branch in a comprehension')
    kind = result_kind(Z(v))
    c.forget(i)

    def el(k):
        q, c.nosafe, c.in_comp = c.nosafe, True, True
        try:
            return Z(f(W(s(k))))
        finally:
            c.nosafe, c.in_comp = q, False
    return SArr(Buf(Fn(el), (it.n,), kind))


def is_sym_len(a):
    return isinstance(a.n, S)


def sym_sum(x, start=0):
    if isinstance(x, SArr):
        return np_sum(x)
    if isinstance(x, rnp.ndarray):
        return rnp.sum(x)
    r = start
    for v in x:
        r = r + v
    return r


def sym_abs(x):
    return x.__abs__()


def sym_max(*a, **kw):
    if len(a) == 1:
        if isinstance(a[0], SArr):
            return np_max(a[0])
        a = list(a[0])
    if not any(is_sym(x) for x in a):
        return builtins.max(*a, **kw) if len(a) > 1 else a[0]
    r = a[0]
    for x in a[1:]:
        r = W(z_max(Z(r), Z(x)))
    return r


def sym_min(*a, **kw):
    if len(a) == 1:
        if isinstance(a[0], SArr):
            return np_min(a[0])
        a = list(a[0])
    if not any(is_sym(x) for x in a):
        return builtins.min(*a, **kw) if len(a) > 1 else a[0]
    r = a[0]
    for x in a[1:]:
        r = W(z_min(Z(r), Z(x)))
    return r


def sym_round(x, nd=None):
    if is_sym(x):
        return W(as_int(z_round(Z(x))))
    return builtins.round(x) if nd is None else builtins.round(x, nd)


def sym_isinstance(o, t):
    return builtins.isinstance(o, t)


def sym_type(*a):
    if len(a) == 1 and isinstance(a[0], S):
        return {'r': float, 'i': int, 'b': bool}[a[0].kind]
    return builtins.type(*a)


def sym_enumerate(x, start=0):
    if isinstance(x, SymRange):
        raise Unsupported('enumerate symbolic')
    if isinstance(x, SArr):
        return SymEnum(x, start) if not z3.is_int_value(z3.simplify(x.nz)) else builtins.enumerate(x.tolist(), start)
    return builtins.enumerate(x, start)


class SymEnum(object):
    def __init__(self, arr, start=0):
        self.arr, self.start = arr, start


def pv_print(*a, **k):
    pass


def pv_fmt(f, a):
    try:
        if is_sym(a) or (isinstance(a, tuple) and any(is_sym(x) for x in a)):
            return '<fmt:%s>' % f
        return f % a
    except Unsupported:
        return '<fmt>'


def pv_and(*fs):
    """lazy 'and' that merges symbolic operands instead of forking"""
    acc = []
    last = True
    for f in fs:
        v = f()
        if isinstance(v, S):
            b = as_bool(v.z)
            acc.append(b)
            last = v
        else:
            if isinstance(v, SArr):
                if acc or True:
                    v = bool(v)
            if not v:
                return v if not acc else False
            last = v
    if acc:
        return W(z3.And(*acc)) if len(acc) > 1 else W(acc[0])
    return last


def pv_or(*fs):
    acc = []
    last = False
    for f in fs:
        v = f()
        if isinstance(v, S):
            acc.append(as_bool(v.z))
            last = v
        else:
            if isinstance(v, SArr):
                v = bool(v)
            if v:
                return v if not acc else True
            last = v
    if acc:
        return W(z3.Or(*acc)) if len(acc) > 1 else W(acc[0])
    return last


def pv_not(v):
    if isinstance(v, S):
        return W(z3.Not(as_bool(v.z)))
    return not v


UNDEF = type('UNDEF', (), {'__repr__': lambda s: '<undef>'})()


# --------------------------------------------------------------------------- context
class Obligation(object):
    __slots__ = ('name', 'status', 'time', 'backend', 'model', 'path', 'goal', 'reason', 'smt')

    def __init__(self, name):
        self.name = name
        self.status = None
        self.model = None
        self.reason = ''
        self.backend = 'z3'
        self.smt = None


class Explorer(object):
    def __init__(self):
        self.work = [[]]


class Ctx(object):
    """one symbolic path"""

    def __init__(self, decisions, unit):
        self.decisions = list(decisions)
        self.pos = 0
        self.new_alts = []
        self.unit = unit
        self.facts = []
        self.solver = z3.Solver()
        self.solver.set('timeout', int(SCALE * (3000)))
        self.lin = Linear()
        self.lsolver = z3.Solver()
        self.fcount = 0
        self.names = {}
        self.onced = set()
        self.keep = []
        self.selections = []
        self.repeats = []
        self.sums = []
        self.instantiators = []
        self.index_terms = {}
        self.quiet = False
        self.in_comp = False
        self.nosafe = False
        self.uid = 0
        self.bufs = []
        self.frames = []       # loop frames recording writes
        self.local = []        # local explorers (loop bodies)
        self.log = []
        self.dens = []
        self.entail_cache = {}
        self.inputs = {}
        self.rng_draws = []
        self.skolem = 0

    # -- naming
    def fresh_name(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return base if k == 0 else '%s!%d' % (base, k)

    def new_uid(self, buf):
        self.uid += 1
        self.bufs.append(buf)
        return self.uid

    # -- facts
    def fact(self, f):
        if self.quiet:
            return
        if z3.is_true(f):
            return
        self.facts.append(f)
        self.solver.add(f)
        self.lsolver.add(self.lin(f))

    def fact_once(self, key, gen):
        if self.quiet:
            return
        k = tuple(x.get_id() if z3.is_expr(x) else x for x in key)
        if k in self.onced:
            return
        self.onced.add(k)
        self.keep.append(key)
        for f in gen():
            self.fact(f)

    def assume(self, f):
        f = Z(f) if not z3.is_expr(f) else f
        self.fact(as_bool(f))
        if z3.is_false(z3.simplify(f)):
            raise PathEnd('infeasible')

    def note_den(self, d):
        if not self.quiet:
            self.dens.append(d)

    def note_index(self, idx):
        if self.quiet:
            return
        for i in idx:
            if i.get_id() in self.index_terms or z3.is_int_value(i) or occurs(PB, i):
                continue
            if nesting(i) <= 2.6:
                self.index_terms[i.get_id()] = i

    # -- solving
    def entails_cheap(self, f):
        return self.entails(f, 400, cheap=True)

    def entails(self, f, timeout=3000, cheap=False):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        key = (f.get_id(), len(self.facts))
        if key in self.entail_cache:
            return self.entail_cache[key][0]
        # non-linear terms opaque first
        self.lsolver.push()
        self.lsolver.set('timeout', int(SCALE * (min(timeout, 800))))
        self.lsolver.add(self.lin(z3.Not(f)))
        r = self.lsolver.check()
        self.lsolver.pop()
        if r != z3.unsat and not (cheap and (timeout <= 500 or not is_nonlinear(f))):
            self.solver.push()
            self.solver.set('timeout', int(SCALE * (timeout)))
            self.solver.add(z3.Not(f))
            r = self.solver.check()
            self.solver.pop()
        self.entail_cache[key] = (r == z3.unsat, f)
        return r == z3.unsat

    def feasible(self, f):
        self.lsolver.push()
        self.lsolver.set('timeout', int(SCALE * (800)))
        self.lsolver.add(self.lin(f))
        r = self.lsolver.check()
        self.lsolver.pop()
        if r == z3.unsat:
            return False
        self.solver.push()
        self.solver.set('timeout', int(SCALE * (2000)))
        self.solver.add(f)
        r = self.solver.check()
        self.solver.pop()
        if r != z3.unsat and self.unit.hard_branch and True:
            from . import solve
            self.instantiate()
            return solve.discharge(self.facts, z3.Not(f), self.unit.hard_branch)[0] != 'valid'
        return r != z3.unsat

    # -- branching
    def branch(self, cond, free=False):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.local:
            return self.local[-1].branch(self, cond)
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            if len(self.decisions) > self.unit.max_depth:
                raise Unsupported('path too deep')
            t = f = True
            if not free:
                t = self.feasible(cond)
                f = self.feasible(z3.Not(cond))
            if not t and not f:
                raise PathEnd('infeasible')
            d = t
            if t and f:
                self.new_alts.append(self.decisions[:self.pos] + [False])
            self.decisions.append(d)
        self.pos += 1
        self.fact(cond if d else z3.Not(cond))
        return d

    def choose(self, n, label=''):
        """nondeterministic choice among n alternatives (loop rules)"""
        for k in range(n - 1):
            c = z3.Bool(self.fresh_name('choice_' + label))
            if self.branch(c, free=True):
                return k
        return n - 1

    # -- frame recording
    def on_write(self, buf):
        for fr in self.frames:
            fr.on_write(buf)

    # -- obligations
    def safety(self, name, f):
        """well-definedness condition generated by the code itself"""
        f = z3.simplify(f)
        if z3.is_true(f) or self.quiet or self.nosafe:
            return
        if self.entails(f, 2000):
            self.unit.safety_ok += 1
            self.unit.tsolve += 0
            return
        self.prove('safety:' + name, f)
        self.fact(f)

    def require_index(self, rd, karr, n):
        self.prove_forall('safety:fancy-index-in-bounds', karr.nz,
                          lambda j: z3.And(rd(j) >= -n, rd(j) < n), safety=True)

    def forget(self, sk):
        """drop the facts that mention a skolem constant whose obligation is settled"""
        keep, changed = [], False
        for f in self.facts:
            if mentions(f, sk):
                changed = True
            else:
                keep.append(f)
        if changed:
            self.facts[:] = keep
            self.resync()
        for k in [k for k, t in self.index_terms.items() if occurs(sk, t)]:
            del self.index_terms[k]

    def resync(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', int(SCALE * (3000)))
        self.lsolver = z3.Solver()
        for f in self.facts:
            self.solver.add(f)
            self.lsolver.add(self.lin(f))
        self.entail_cache.clear()

    def skolem_int(self, name='i'):
        self.skolem += 1
        v = z3.Int('%s_sk%d' % (name, self.skolem))
        self.note_index((v,))
        return v

    def instantiate(self, rounds=2, extra=()):
        for _ in range(rounds):
            terms = list(self.index_terms.values()) + list(extra)
            for t in terms[-120:]:
                for s in list(self.selections):
                    if isinstance(s, Selection) and not t.eq(s.countz):
                        s.inst(t)
                for k, f in enumerate(list(self.instantiators)):
                    self.fact_once(('inst', k, t), lambda: [f(t)])

    def prove_forall(self, name, n, body, safety=False, lo=0, assume=None):
        i = self.skolem_int()
        lo = Z(lo)
        rng = z3.And(i >= lo, i < Z(n))
        g = body(i)
        if assume is not None:
            rng = z3.And(rng, assume(i))
        r = self.prove(name, z3.Implies(rng, g))
        self.forget(i)
        return r

    def lemma_forall(self, name, n, body, lo=0):
        """prove it, then use it wherever an index occurs"""
        lo = Z(lo)
        n = Z(n)
        self.prove_forall(name, n, body, lo=lo)
        self.instantiators.append(lambda i: z3.Implies(z3.And(i >= lo, i < n), body(i)))

    def sum_atom(self, n, body):
        """z3 term for sum_{0<=p<n} body(p), PB the bound index"""
        if not occurs(PB, body):
            # constant summand
            return z_mul(z3.If(n >= 0, n, z3.IntVal(0)), body)
        n, body, cond = normal_domain(n, body)
        coeff, parts = split_linear(body)
        if len(parts) > 1 or not _isnum(coeff, 1):
            tot = None
            for p in parts:
                t = self.sum_atom_raw(n, p, cond)
                tot = t if tot is None else z_add(tot, t)
            return z_mul(coeff, tot)
        return self.sum_atom_raw(n, body, cond)

    def sum_atom_raw(self, n, body, cond):
        coeff, parts = split_linear(body)
        if len(parts) == 1 and not _isnum(coeff, 1):
            return z_mul(coeff, self.sum_atom_raw(n, parts[0], cond))
        for s in self.sums:
            zero = z3.RealVal(0) if body.sort() == R else z3.IntVal(0)
            if s.body.sort() != body.sort():
                continue
            if s.body.eq(body) and s.cond.eq(cond):
                return s.z
            if self.entails(s.term() == z3.If(cond, body, zero), 1500, cheap=True):
                return s.z
        if getattr(self, 'hard_sums', False):
            from . import solve
            for s in list(self.selections):
                if isinstance(s, Selection):
                    s.inst(PB)
            extra = [f(PB) for f in list(self.instantiators)]
            same = []
            for s in self.sums:
                if s.body.sort() == body.sort():
                    zero = z3.RealVal(0) if body.sort() == R else z3.IntVal(0)
                    if solve.discharge(self.facts + extra, s.term() == z3.If(cond, body, zero), 15)[0] == 'valid':
                        same.append(s.z)
            for w in same[1:]:
                self.fact(w == same[0])
            if same:
                return same[0]
        z = z3.Const(self.fresh_name('sum'), body.sort())
        a = SumAtom(z, cond, body)
        if self.entails(z3.Implies(cond, body >= 0), 1500, cheap=True):
            self.fact(z >= 0)
            a.nonneg = True
            self.instantiators.append(lambda i, a=a, cond=cond, body=body: z3.Implies(
                z3.substitute(cond, (PB, i)), z3.substitute(body, (PB, i)) <= a.z))
        self.fact(z3.Implies(n <= 0, z == 0))
        self.sums.append(a)
        return z

    def sum2d(self, a):
        raise Unsupported('2d sum')

    def lemma_sums(self, name, lhs, rhs):
        """sum lhs == sum rhs, given as lists of (coefficient, n, body-fn); proved pointwise over a common
        index after domain normalisation; returns the list of facts"""
        def tot(side):
            t = z3.RealVal(0)
            for c, n, b in side:
                nn, body, cond = normal_domain(Z(n), b(PB))
                zero = z3.RealVal(0) if body.sort() == R else z3.IntVal(0)
                t = z_add(t, z_mul(c, z3.If(cond, body, zero)))
            return t
        self.index_terms.pop(PB.get_id(), None)
        i = self.skolem_int('s')
        g = tot(lhs) == tot(rhs)
        g = z3.substitute(g, (PB, i))
        # element facts at i
        for _, n, b in list(lhs) + list(rhs):
            b(i)
        return self.prove(name, g)

    def prove(self, name, goal):
        goal = Z(goal) if not z3.is_expr(goal) else goal
        goal = as_bool(goal)
        self.instantiate()
        return self.unit.discharge(self, name, goal)


def split_linear(body):
    """body = coeff * (part1 + part2 + ...), coeff free of PB"""
    k = body.decl().kind()
    one = z3.RealVal(1) if body.sort() == R else z3.IntVal(1)
    if k == z3.Z3_OP_ADD:
        return one, list(body.children())
    if k == z3.Z3_OP_SUB:
        ch = body.children()
        return one, [ch[0]] + [-c for c in ch[1:]]
    if k == z3.Z3_OP_UMINUS:
        return -one, [body.arg(0)]
    if k == z3.Z3_OP_MUL:
        free = [c for c in body.children() if not occurs(PB, c)]
        dep = [c for c in body.children() if occurs(PB, c)]
        if free and dep:
            c = one
            for f in free:
                c = z_mul(c, f)
            d = dep[0]
            for f in dep[1:]:
                d = z_mul(d, f)
            return c, [d]
    if k == z3.Z3_OP_DIV and not occurs(PB, body.arg(1)) and occurs(PB, body.arg(0)):
        return z_div(one, body.arg(1)), [body.arg(0)]
    return one, [body]
