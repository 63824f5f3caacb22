"""Polynomial back end: an equality goal is an element of the ideal of the equalities known on the path
(Groebner basis over the rationals, sympy).  Guards of conditional equalities and non-vanishing of denominators are
discharged by z3 first."""
import signal
import z3
from . import solve

LIMIT = 20


class Fail(Exception):
    pass


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def strip(goal):
    hyps = []
    while z3.is_implies(goal):
        hyps.append(goal.arg(0))
        goal = goal.arg(1)
    return hyps, goal


class Poly(object):
    def __init__(self, entails):
        self.atoms = {}
        self.keep = []
        self.inv = {}
        self.extra = []
        self.entails = entails

    def atom(self, t):
        import sympy
        k = t.get_id()
        if k not in self.atoms:
            self.atoms[k] = sympy.Symbol('a%d' % len(self.atoms))
            self.keep.append(t)
        return self.atoms[k]

    def conv(self, t, memo):
        import sympy
        k = t.get_id()
        if k in memo:
            return memo[k]
        d = t.decl().kind()
        if z3.is_rational_value(t):
            f = t.as_fraction()
            r = sympy.Rational(f.numerator, f.denominator)
        elif z3.is_int_value(t):
            r = sympy.Integer(t.as_long())
        elif d == z3.Z3_OP_ADD:
            r = sum((self.conv(c, memo) for c in t.children()), sympy.Integer(0))
        elif d == z3.Z3_OP_SUB:
            ch = [self.conv(c, memo) for c in t.children()]
            r = ch[0] - sum(ch[1:], sympy.Integer(0))
        elif d == z3.Z3_OP_UMINUS:
            r = -self.conv(t.arg(0), memo)
        elif d == z3.Z3_OP_MUL:
            r = sympy.Integer(1)
            for c in t.children():
                r = r * self.conv(c, memo)
        elif d == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction().denominator == 1 and t.arg(1).as_fraction() > 0:
            r = self.conv(t.arg(0), memo)**int(t.arg(1).as_fraction())
        elif d == z3.Z3_OP_DIV:
            den = t.arg(1)
            if z3.is_rational_value(den) or z3.is_int_value(den):
                r = self.conv(t.arg(0), memo) / self.conv(den, memo)
            else:
                kd = den.get_id()
                if kd not in self.inv:
                    if not self.entails(den != 0):
                        raise Fail('denominator may vanish: %s' % den)
                    s = sympy.Symbol('i%d' % len(self.inv))
                    self.inv[kd] = s
                    self.keep.append(den)
                    self.extra.append(s * self.conv(den, memo) - 1)
                r = self.conv(t.arg(0), memo) * self.inv[kd]
        elif d == z3.Z3_OP_TO_REAL and z3.is_int_value(t.arg(0)):
            r = sympy.Integer(t.arg(0).as_long())
        else:
            r = self.atom(t)
        self.keep.append(t)
        memo[k] = r
        return r


def eqs_of(f, guard, out):
    if z3.is_and(f):
        for c in f.children():
            eqs_of(c, guard, out)
    elif z3.is_implies(f):
        eqs_of(f.arg(1), guard + [f.arg(0)], out)
    elif z3.is_eq(f) and f.arg(0).sort() == z3.RealSort():
        out.append((guard, f))


def prune(e, entails):
    """resolve conditionals decided on the path"""
    memo = {}

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][0]
        if not z3.is_app(t) or t.num_args() == 0:
            r = t
        elif t.decl().kind() == z3.Z3_OP_ITE:
            if entails(t.arg(0)):
                r = go(t.arg(1))
            elif entails(z3.Not(t.arg(0))):
                r = go(t.arg(2))
            else:
                raise Fail('undecided conditional')
        elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = t
        else:
            ch = [go(x) for x in t.children()]
            r = t if all(a.eq(b) for a, b in zip(ch, t.children())) else solve.rebuild(t, ch)
        memo[k] = (r, t)
        return r
    return go(e)


def norm(t):
    """normalise the arguments (index terms) of uninterpreted applications only"""
    memo = {}

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][0]
        if not z3.is_app(t) or t.num_args() == 0:
            r = t
        elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = t.decl()(*[z3.simplify(x) for x in t.children()])
        else:
            ch = [go(x) for x in t.children()]
            r = t if all(a.eq(b) for a, b in zip(ch, t.children())) else solve.rebuild(t, ch)
        memo[k] = (r, t)
        return r
    return go(t)


def prove_eq(facts, goal, max_eqs=26):
    """True when the equality goal follows; never raises"""
    old = None
    try:
        hyps, g = strip(goal)
        if not (z3.is_eq(g) and g.arg(0).sort() == z3.RealSort()):
            return False
        facts = list(facts) + hyps
        cache = {}

        def entails(q):
            q = z3.simplify(q)
            if z3.is_true(q):
                return True
            if z3.is_false(q):
                return False
            k = q.get_id()
            if k in cache:
                return cache[k][0]
            ok = False
            for depth, to in ((1, 1500), (2, 3000)):
                r, _ = solve.check_z3(solve.coi(facts, q, depth) + [z3.Not(q)], to)
                if r == z3.unsat:
                    ok = True
                    break
            cache[k] = (ok, q)
            return ok
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, LIMIT * 2 * __import__('pv.engine').engine.SCALE)
        import sympy
        P = Poly(entails)
        memo = {}
        expr = norm(prune(g.arg(0) - g.arg(1), entails))
        # the goal may simplify away without any hypothesis
        target = sympy.expand(P.conv(expr, memo))
        if target == 0:
            return True
        cands = []
        for f in facts:
            eqs_of(f, [], cands)
        have = set(solve.terms_uf(expr))
        used = []
        left = []
        for gd, f in cands:
            try:
                left.append((gd, norm(f)))
            except Exception:
                pass
        for _ in range(4):
            new = []
            for gd, f in left:
                if len(used) >= max_eqs:
                    break
                tf = solve.terms_uf(f)
                if not (tf & have):
                    new.append((gd, f))
                    continue
                if all(entails(x) for x in gd):
                    try:
                        used.append(norm(prune(f.arg(0) - f.arg(1), entails)))
                        have |= tf
                    except Fail:
                        pass
            left = new
        polys = []
        for u in used:
            try:
                p = sympy.expand(P.conv(u, memo))
                if p != 0:
                    polys.append(p)
            except Fail:
                pass
        polys = list(dict.fromkeys(polys + [sympy.expand(x) for x in P.extra]))
        if not polys:
            return False
        # substitute definitions v = expr (v an atom not in expr), then Groebner on the rest
        target, polys = eliminate(target, polys)
        target = sympy.expand(target)
        if target == 0:
            return True
        ts = target.free_symbols
        # only what is connected to the target
        conn = []
        change = True
        rest = list(polys)
        while change:
            change = False
            for p in list(rest):
                if p.free_symbols & ts:
                    conn.append(p)
                    ts |= p.free_symbols
                    rest.remove(p)
                    change = True
        if not conn:
            return False
        gens = sorted(ts, key=str)
        G = sympy.groebner(conn, *gens, order='grevlex')
        _, rem = sympy.reduced(target, list(G.exprs), *gens, order='grevlex')
        return rem == 0
    except (Fail, Timeout):
        return False
    except Exception:
        return False
    finally:
        if old is not None:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)


def eliminate(target, polys):
    """v occurs linearly with a rational coefficient and alone -> substitute"""
    import sympy
    polys = list(polys)
    for _ in range(40):
        hit = None
        for p in polys:
            for v in p.free_symbols:
                if sympy.degree(p, v) == 1:
                    co = sympy.Poly(p, v).coeff_monomial(v)
                    if co.is_Rational:
                        hit = (p, v, co)
                        break
            if hit:
                break
        if not hit:
            return target, polys
        p, v, co = hit
        e = sympy.expand(v - p / co)
        if len(e.args) > 60:
            return target, polys
        polys.remove(p)
        polys = [q for q in (sympy.expand(q.subs(v, e)) for q in polys) if q != 0]
        target = sympy.expand(target.subs(v, e))
        if target == 0:
            return target, polys
    return target, polys
