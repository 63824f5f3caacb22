"""Discharging verification conditions: z3 (several formulations), then cvc5."""
import time
import os
import z3

CVC5 = None
try:
    import cvc5 as CVC5  # noqa
except Exception:
    CVC5 = None


def syms(e, memo={}):
    """uninterpreted symbols occurring in e"""
    k = e.get_id()
    if k in memo and memo[k][1].eq(e):
        return memo[k][0]
    out = set()
    seen = set()
    todo = [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if t.num_args() == 0:
                out.add(t.decl().name())
            else:
                out.add(t.decl().name())
        todo.extend(t.children())
    if len(memo) > 200000:
        memo.clear()
    memo[k] = (frozenset(out), e)
    return memo[k][0]


def terms_uf(e, memo={}):
    """ids of uninterpreted applications/constants (as terms) in e"""
    k = e.get_id()
    if k in memo and memo[k][1].eq(e):
        return memo[k][0]
    out = set()
    seen = set()
    todo = [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.get_id())
        todo.extend(t.children())
    if len(memo) > 200000:
        memo.clear()
    memo[k] = (frozenset(out), e)
    return memo[k][0]


def coi(facts, goal, depth):
    """facts connected to the goal through shared uninterpreted terms, `depth` rounds"""
    cur = set(terms_uf(goal))
    chosen = [False] * len(facts)
    ft = [terms_uf(f) for f in facts]
    for _ in range(depth):
        add = set()
        for k, s in enumerate(ft):
            if not chosen[k] and (not s or s & cur):
                chosen[k] = True
                add |= s
        if not add - cur:
            break
        cur |= add
    return [f for f, c in zip(facts, chosen) if c]


def is_nonlinear(e, memo={}):
    k = e.get_id()
    if k in memo and memo[k][1].eq(e):
        return memo[k][0]
    seen = set()
    todo = [e]
    r = False
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            kd = t.decl().kind()
            if kd == z3.Z3_OP_MUL:
                nn = [c for c in t.children() if not (z3.is_int_value(c) or z3.is_rational_value(c))]
                if len(nn) > 1:
                    r = True
                    break
            elif kd in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER):
                c = t.arg(1)
                if not (z3.is_int_value(c) or z3.is_rational_value(c)):
                    r = True
                    break
            todo.extend(t.children())
    if len(memo) > 200000:
        memo.clear()
    memo[k] = (r, e)
    return r


def rebuild(u, nc):
    k = u.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*nc)
    if k == z3.Z3_OP_OR:
        return z3.Or(*nc)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*nc)
    if k == z3.Z3_OP_MUL:
        return z3.Product(*nc)
    if k == z3.Z3_OP_SUB and len(nc) > 2:
        r = nc[0]
        for c in nc[1:]:
            r = r - c
        return r
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*nc)
    return u.decl()(*nc)


def ackermannize(fs):
    """replace every maximal UF application by a fresh constant (bottom-up) + congruence for pairs of
    applications of the same symbol; equisatisfiable"""
    memo = {}
    apps = {}
    extra = []

    def go(t):
        stack = [(t, False)]
        while stack:
            u, done = stack.pop()
            k = u.get_id()
            if k in memo:
                continue
            ch = u.children()
            if not done and ch:
                stack.append((u, True))
                for c in ch:
                    if c.get_id() not in memo:
                        stack.append((c, False))
                continue
            if not ch:
                memo[k] = (u, u)
                continue
            nc = [memo[c.get_id()][0] for c in ch]
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                key = (u.decl().get_id(),) + tuple(x.get_id() for x in nc)
                lst = apps.setdefault(u.decl().get_id(), [])
                hit = None
                for (args, c) in lst:
                    if all(a.eq(b) for a, b in zip(args, nc)):
                        hit = c
                        break
                if hit is None:
                    hit = z3.FreshConst(u.sort(), 'ack_' + u.decl().name())
                    for (args, c) in lst:
                        eqs = [z3.simplify(a == b) for a, b in zip(args, nc)]
                        if any(z3.is_false(q) for q in eqs):
                            continue
                        extra.append(z3.Implies(z3.And(*eqs), c == hit))
                    lst.append((nc, hit))
                memo[k] = (hit, u)
            else:
                memo[k] = (rebuild(u, nc), u)
        return memo[t.get_id()][0]
    out = [go(f) for f in fs]
    return out, extra


def elim_div(fs):
    """x/y (y not numeral) -> fresh q with y != 0 -> q*y == x"""
    memo = {}
    extra = []
    divs = []

    def go(t):
        stack = [(t, False)]
        while stack:
            u, done = stack.pop()
            k = u.get_id()
            if k in memo:
                continue
            ch = u.children()
            if not done and ch:
                stack.append((u, True))
                for c in ch:
                    if c.get_id() not in memo:
                        stack.append((c, False))
                continue
            if not ch:
                memo[k] = (u, u)
                continue
            nc = [memo[c.get_id()][0] for c in ch]
            if u.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(nc[1]):
                hit = None
                for a, b, q in divs:
                    if a.eq(nc[0]) and b.eq(nc[1]):
                        hit = q
                if hit is None:
                    hit = z3.FreshConst(z3.RealSort(), 'quo')
                    divs.append((nc[0], nc[1], hit))
                    extra.append(z3.Implies(nc[1] != 0, hit * nc[1] == nc[0]))
                memo[k] = (hit, u)
            else:
                memo[k] = (rebuild(u, nc), u)
        return memo[t.get_id()][0]
    out = [go(f) for f in fs]
    return out, extra


def _fast_accessors():
    """total accessors of the z3 API cannot fail: skip the error poll after each call"""
    from z3 import z3core
    for nm in ('Z3_get_ast_kind', 'Z3_get_ast_id', 'Z3_get_app_num_args', 'Z3_get_app_arg', 'Z3_inc_ref', 'Z3_dec_ref', 'Z3_is_eq_ast',
               'Z3_get_app_decl', 'Z3_get_decl_kind', 'Z3_get_sort', 'Z3_get_sort_kind', 'Z3_to_app', 'Z3_is_app'):
        f = getattr(z3core, nm, None)
        e = f.__defaults__[-1] if f is not None and f.__defaults__ else None
        if e is not None and hasattr(e, 'Check'):
            e.Check = lambda ctx: None


_fast_accessors()

LIN = None


class Linear(object):
    """abstraction of non-linear products and quotients by fresh constants (weakens: sound for validity)"""

    def __init__(self):
        self.memo, self.names, self.keep, self.top = {}, {}, [], {}

    def __call__(self, t):
        k = t.get_id()
        if k not in self.top:
            self.top[k] = (self.go(t), t)
        return self.top[k][0]

    def go(self, t):
        t = z3.simplify(t)
        self.keep.append(t)
        stack = [(t, False)]
        memo = self.memo
        while stack:
            u, done = stack.pop()
            k = u.get_id()
            if k in memo:
                continue
            ch = u.children() if z3.is_app(u) else []
            if not done and ch:
                stack.append((u, True))
                stack.extend((c, False) for c in ch if c.get_id() not in memo)
                continue
            if not ch:
                memo[k] = (u, u)
                continue
            nc = [memo[c.get_id()][0] for c in ch]
            v = u if all(a.eq(b) for a, b in zip(nc, ch)) else rebuild(u, nc)
            kd = u.decl().kind()
            isn = lambda c: z3.is_int_value(c) or z3.is_rational_value(c)
            if kd == z3.Z3_OP_MUL:
                co = [c for c in nc if isn(c)]
                ot = sorted([c for c in nc if not isn(c)], key=lambda c: c.get_id())
                if len(ot) > 1:
                    key = ('*',) + tuple(c.get_id() for c in ot)
                    if key not in self.names:
                        self.names[key] = (z3.FreshConst(u.sort(), 'nl'), ot)
                    v = self.names[key][0]
                    for c in co:
                        v = c * v
            elif kd in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER) and not isn(nc[1]):
                key = (kd,) + tuple(c.get_id() for c in nc)
                if key not in self.names:
                    self.names[key] = (z3.FreshConst(u.sort(), 'nl'), nc)
                v = self.names[key][0]
            memo[k] = (v, u)
        return memo[t.get_id()][0]


def check_z3(fs, timeout, tactic=None):
    if tactic:
        s = z3.Tactic(tactic).solver() if isinstance(tactic, str) else tactic.solver()
    else:
        s = z3.Solver()
    from . import engine
    s.set('timeout', int(timeout * engine.SCALE))
    for f in fs:
        s.add(f)
    try:
        r = s.check()
    except z3.Z3Exception:
        return z3.unknown, None
    return r, (s.model() if r == z3.sat else None)


def has_quant_sort(fs):
    return False


def cvc5_check(fs, timeout):
    if CVC5 is None:
        return 'unknown'
    s = z3.Solver()
    for f in fs:
        s.add(f)
    txt = s.to_smt2()
    try:
        import cvc5
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption('tlimit-per', str(int(timeout * __import__('pv.engine').engine.SCALE)))
        slv.setOption('nl-cov', 'true') if False else None
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + txt, 'vc')
        sm = parser.getSymbolManager()
        res = ''
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if 'unsat' in out:
                res = 'unsat'
            elif out.strip() == 'sat':
                res = 'sat'
        return res or 'unknown'
    except Exception:
        return 'unknown'


DBG = 0


def ite_conds(e):
    """conditions of the if-then-else terms of e, outermost first, without nested conditions"""
    out, seen, todo = [], set(), [e]
    while todo:
        t = todo.pop(0)
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_ITE:
                out.append(t.arg(0))
            todo.extend(t.children())
    return out


def has_ite(e):
    return bool(ite_conds(e))


def atom_of(c):
    """an ite-free, negation-free atom of a condition"""
    todo = [c]
    while todo:
        t = todo.pop(0)
        if z3.is_not(t) or z3.is_and(t) or z3.is_or(t):
            todo.extend(t.children())
            continue
        if z3.is_true(t) or z3.is_false(t):
            continue
        if not has_ite(t):
            return t
        for q in ite_conds(t):
            a = atom_of(q)
            if a is not None:
                return a
    return None


def case_split(facts, goal, budget, leaves=48):
    """decide the conditions inside the goal one by one; every leaf is discharged on its own"""
    t0 = time.time()
    facts = coi(facts, goal, 4)
    lin = Linear()
    sl, sn = z3.Solver(), z3.Solver()

    class Both(object):
        def push(self):
            sl.push()
            sn.push()

        def pop(self):
            sl.pop()
            sn.pop()

        def add(self, f):
            sl.add(lin(f))
            sn.add(f)
    s = Both()
    for f in facts:
        s.add(f)
    hyps = []
    g = goal
    if z3.is_implies(g):
        hyps.append(g.arg(0))
        s.add(g.arg(0))
        g = g.arg(1)
    count = [0]
    slow = [0]

    def entailed(q, to=300):
        for sv, qq in ((sl, lin(q)), (sn, q)):
            if sv is sn and slow[0] > 12 and to < 1000:
                continue
            sv.set('timeout', int(to * __import__('pv.engine').engine.SCALE))
            sv.push()
            sv.add(z3.Not(qq))
            r = sv.check()
            sv.pop()
            if r == z3.unsat:
                return True
            if sv is sn and r == z3.unknown:
                slow[0] += 1
        return False

    def congr(a, b, depth):
        """sufficient: same operator with pairwise equal operands"""
        if a.eq(b):
            return True
        if depth == 0 or not (z3.is_app(a) and z3.is_app(b)) or a.sort() != b.sort():
            return False
        if a.num_args() == b.num_args() > 0 and a.decl().eq(b.decl()):
            if a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) or a.decl().kind() == z3.Z3_OP_UNINTERPRETED or a.decl().kind() == z3.Z3_OP_DIV:
                la, lb = list(a.children()), list(b.children())
                if a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
                    for x in list(la):
                        for y in lb:
                            if x.eq(y):
                                la.remove(x)
                                lb.remove(y)
                                break
                if all(x.eq(y) or entailed(x == y, 500) or congr(x, y, depth - 1) for x, y in zip(la, lb)):
                    return True
        return False

    def go(g, hy):
        if time.time() - t0 > budget or count[0] > leaves:
            return False
        g = z3.simplify(g)
        if z3.is_true(g):
            return True
        a = None
        for q in ite_conds(g):
            a = atom_of(q)
            if a is not None:
                break
        if a is None:
            count[0] += 1
            if DBG:
                print('LEAF', count[0], round(time.time() - t0, 1), str(g)[:900], '| HY', str(hy)[:1500])
            hs = list(hy)
            if z3.is_false(g):
                return entailed(z3.BoolVal(False), 3000)
            return leaf(facts, hs, g, max(1., min(12, budget - (time.time() - t0))))
        if entailed(a):
            return go(z3.substitute(g, (a, z3.BoolVal(True))), hy + [a])
        if entailed(z3.Not(a)):
            return go(z3.substitute(g, (a, z3.BoolVal(False))), hy + [z3.Not(a)])
        for v, h in ((True, a), (False, z3.Not(a))):
            s.push()
            s.add(h)
            ok = go(z3.substitute(g, (a, z3.BoolVal(v))), hy + [h])
            s.pop()
            if not ok:
                return False
        return True

    def leaf(facts, hs, g, budget):
        fs = facts + hyps + hs
        t1 = time.time()
        if entailed(g, 1000):
            return True
        if z3.is_eq(g) and congr(g.arg(0), g.arg(1), 6):
            return True
        for depth, to in ((1, 1), (2, 2), (50, 4)):
            r, m = check_z3(coi(fs, g, depth) + [z3.Not(g)], 1000 * to)
            if r == z3.unsat:
                return True
        from . import algebra
        if algebra.prove_eq(fs, g):
            return True
        for depth in (2, 50):
            if time.time() - t1 > budget:
                return False
            try:
                gs, ex1 = elim_div(coi(fs, g, depth) + [z3.Not(g)])
                as_, ex2 = ackermannize(gs + ex1)
                if check_z3(as_ + ex2, 4000)[0] == z3.unsat:
                    return True
            except z3.Z3Exception:
                pass
        return False
    return go(g, [])


def discharge(facts, goal, budget=60.0):
    """-> (status, backend, model, reason); status in valid / refuted / unknown"""
    neg = z3.Not(goal)
    from . import engine
    budget = budget * engine.SCALE
    t0 = time.time()
    sat_model = None
    reason = ''
    sat_seen = None

    def left():
        return max(0.2, budget - (time.time() - t0))
    # non-linear terms as opaque
    global LIN
    if LIN is None or len(LIN.memo) > 300000:
        LIN = Linear()
    lin = LIN
    for depth in (2, 4):
        if check_z3([lin(f) for f in coi(facts, goal, depth)] + [lin(neg)], 700)[0] == z3.unsat:
            return 'valid', 'z3', None, ''
    # cone of influence attempts
    tried = set()
    for depth, to in ((1, 1), (2, 1.5), (3, 3), (50, 8)):
        fs = coi(facts, goal, depth)
        key = len(fs)
        if key in tried:
            continue
        tried.add(key)
        r, m = check_z3(fs + [neg], 1000 * min(to, left()))
        if r == z3.unsat:
            return 'valid', 'z3', None, ''
        if r == z3.sat:
            sat_seen = depth
            if len(fs) == len(facts):
                return 'refuted', 'z3', m, 'counterexample'
    if has_ite(goal) and case_split(facts, goal, 20):
        return 'valid', 'z3/split', None, ''
    # full set, plain
    if len(facts) not in tried:
        r, m = check_z3(facts + [neg], 1000 * min(10, left()))
        if r == z3.unsat:
            return 'valid', 'z3', None, ''
        if r == z3.sat:
            return 'refuted', 'z3', m, 'counterexample'
    # polynomial identity
    from . import algebra
    if algebra.prove_eq(facts, goal):
        return 'valid', 'groebner', None, ''
    # purified: divisions eliminated, UF ackermannized, nlsat
    for depth in (1, 2, 3, 50):
        fs = coi(facts, goal, depth) + [neg]
        try:
            gs, ex1 = elim_div(fs)
            hs, ex2 = ackermannize(gs + ex1)
            hs = hs + ex2
            r, m = check_z3(hs, 1000 * min(8, left()))
            if r == z3.unsat:
                return 'valid', 'z3/ack', None, ''
            t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'qfnra-nlsat')
            r2, m = check_z3(hs, 1000 * min(8, left()), t)
            if r2 == z3.unsat:
                return 'valid', 'z3/nlsat', None, ''
        except z3.Z3Exception as e:
            reason = str(e)
        if time.time() - t0 > budget:
            break
    for depth in (1, 2, 50):
        fs = coi(facts, goal, depth) + [neg]
        r = cvc5_check(fs, 1000 * min(10, left()))
        if r == 'unsat':
            return 'valid', 'cvc5', None, ''
        if time.time() - t0 > budget:
            break
    # last: long plain run, keep the model if any
    r, m = check_z3(facts + [neg], 1000 * min(20, left()))
    if r == z3.unsat:
        return 'valid', 'z3', None, ''
    if r == z3.sat:
        return 'refuted', 'z3', m, 'counterexample'
    return 'unknown', 'z3+cvc5', None, 'solver gave up (%s)' % (reason or 'timeout')
