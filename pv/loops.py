"""Loop rules: while loops and symbolic for loops (havoc + Houdini invariants), map / accumulate loops."""
import sys
import z3
from . import engine as E
from .engine import S, SArr, Buf, Base, Fn, Write, W, Z, Unsupported, PathEnd, Restart, UNDEF, SORT


# ------------------------------------------------------------------ havoc + candidate invariants
class Frame(object):
    """what a loop body writes to state that existed before the loop"""

    def __init__(self, ctx):
        self.uid0 = ctx.uid
        self.bufs = set()
        self.attrs = set()
        self.ctx = ctx

    def on_write(self, buf):
        if buf.uid <= self.uid0:
            self.bufs.add(buf.uid)

    def on_setattr(self, o, a):
        self.attrs.add((self.ctx.obj_id(o), a))


def obj_id(self, o):
    for k, x in enumerate(self.objs):
        if x is o:
            return k
    self.objs.append(o)
    return len(self.objs) - 1


E.Ctx.obj_id = obj_id
E.Ctx.objs = None
_oi = E.Ctx.__init__


def _init(self, *a):
    _oi(self, *a)
    self.objs = []


E.Ctx.__init__ = _init


def cand_for(item):
    """generic invariant candidates for a havoc'd value"""
    out = []
    if isinstance(item, S):
        if item.kind in 'ri':
            out += [('>=0', lambda v: v >= 0), ('>0', lambda v: v > 0), ('<=0', lambda v: v <= 0)]
        if item.kind == 'b':
            pass
    return out


ARR_CANDS = [('all>=0', lambda e: e >= 0), ('all>0', lambda e: e > 0)]


class CutLoop(object):
    """shared machinery: compute the havoc set, havoc, candidate invariants"""

    def setup(self, key, names):
        c = E.CTX
        self.c = c
        occ = c.loop_occ.get(key, 0)
        c.loop_occ[key] = occ + 1
        self.key = key
        self.names = names
        self.lkey = (key, occ, tuple(c.decisions[:c.pos]), len(c.local))
        st = c.unit.loops.setdefault(self.lkey, {'bufs': set(), 'attrs': set(), 'dropped': set(), 'names': set()})
        self.st = st

    def user_invs(self, loc):
        out = []
        for pat, f in self.c.unit.invariants:
            if pat == self.key or (pat.endswith('*') and self.key.startswith(pat[:-1])):
                r = f(self.c, loc, self)
                if r:
                    out += list(r)
        return out

    def havoc_value(self, name, v):
        c = self.c
        if v is UNDEF or v is None or isinstance(v, str):
            return v
        nm = 'hv_' + str(name)
        if isinstance(v, SArr):
            return E.fresh_arr(nm, v.shape_, v.kind)
        if isinstance(v, S):
            return E.fresh(nm, v.kind)
        if isinstance(v, bool):
            return E.fresh(nm, 'b')
        if isinstance(v, int):
            return E.fresh(nm, 'i')
        if isinstance(v, float):
            return E.fresh(nm, 'r')
        if isinstance(v, E.rnp.ndarray):
            l = E.lift(v)
            return E.fresh_arr(nm, l.shape_, l.kind)
        raise Unsupported('cannot havoc %s of type %s' % (name, type(v)))

    def havoc_bufs(self):
        c = self.c
        for u in sorted(self.st['bufs']):
            b = c.bufs[u - 1]
            b.set_layer(Base(c.fresh_name('hvb'), len(b.shape), b.kind))
        for (oid, a) in sorted(self.st['attrs']):
            if oid >= len(c.objs):
                raise Unsupported('loop writes attribute of an unregistered object')
            o = c.objs[oid]
            setattr(o, a, self.havoc_value(a, getattr(o, a, UNDEF)))

    # candidates over modified items: (id, formula builder given loc)
    def items(self, loc):
        c = self.c
        its = []
        for n in self.names:
            v = loc.get(n, UNDEF)
            if isinstance(v, (S, SArr, int, float)) and not isinstance(v, bool):
                its.append(('n:' + n, v))
        for u in sorted(self.st['bufs']):
            b = c.bufs[u - 1]
            its.append(('b:%d' % u, SArr(b)))
        for (oid, a) in sorted(self.st['attrs']):
            if oid < len(c.objs):
                v = getattr(c.objs[oid], a, UNDEF)
                if isinstance(v, (S, SArr, int, float)) and not isinstance(v, bool):
                    its.append(('a:%d.%s' % (oid, a), v))
        return its

    def candidates(self, loc):
        """[(id, 's', fn()->z3 bool) | (id, 'q', n, fn(i)->z3 bool)]"""
        out = []
        for nm, v in self.items(loc) if self.c.unit.auto_inv else ():
            if isinstance(v, SArr):
                if v.kind in 'ri' and v.ndim == 1:
                    s = v.snap()
                    for cn, f in ARR_CANDS:
                        out.append((nm + cn, 'q', v.nz, lambda i, s=s, f=f: f(s(i))))
                    for cn, f in self.c.unit.arr_cands:
                        g = f(self.c, v)
                        if g is not None:
                            out.append((nm + cn, 'q', v.nz, g))
            else:
                z = Z(v)
                if z.sort() != z3.BoolSort():
                    out.append((nm + '>=0', 's', lambda z=z: z >= 0))
                    out.append((nm + '>0', 's', lambda z=z: z > 0))
        # an integer that counts the True entries of a modified mask
        ints = [(nm, v) for nm, v in self.items(loc) if isinstance(v, S) and v.kind == 'i']
        masks = [(n, loc[n]) for n in self.names if isinstance(loc.get(n), SArr) and loc[n].kind == 'b' and loc[n].ndim == 1]
        masks += [('b%d' % u, SArr(self.c.bufs[u - 1])) for u in sorted(self.st['bufs']) if self.c.bufs[u - 1].kind == 'b']
        for n1, v in ints:
            for n2, m in masks:
                out.append(('%s==count(%s)' % (n1, n2), 's', lambda v=v, m=m: v.z == Z(E.count_of(m))))
        if getattr(self.c.unit, 'mask_cands', None):
            arrs = [(nm, v) for nm, v in self.items(loc) if isinstance(v, SArr) and v.kind == 'r' and v.ndim == 1]
            for n2, m in masks:
                for n1, v in arrs:
                    for cn, f in self.c.unit.mask_cands:
                        g = f(self.c, m, v)
                        if g is not None:
                            out.append(('%s %s[%s]' % (cn, n1, n2), 'q', v.nz, g))
        for k, u in enumerate(self.user_invs(loc)):
            if u[0] == 'must':
                out.append(('must:%s' % u[1],) + tuple(u[2:]))
            else:
                out.append(('user:%s' % u[0],) + tuple(u[1:]))
        return out

    def check_entry(self, loc):
        c = self.c
        keep = []
        for cd in self.candidates(loc):
            if cd[0] in self.st['dropped']:
                continue
            if cd[0].startswith('must:'):
                self.oblige('invariant holds on entry (%s)' % cd[0][5:], cd)
                keep.append(cd[0])
                continue
            if self.holds(cd):
                keep.append(cd[0])
        self.kept = set(keep)

    def holds(self, cd, timeout=2000):
        c = self.c
        i = None
        if cd[1] == 's':
            g = cd[2]()
        else:
            i = c.skolem_int()
            g = z3.Implies(z3.And(i >= 0, i < Z(cd[2])), cd[3](i))
        c.instantiate(rounds=1)
        r = c.entails(g, c.unit.inv_timeout or timeout)
        if not r and cd[0].startswith('user:') and getattr(c.unit, 'hard_inv', 0):
            from . import solve
            r = solve.discharge(c.facts, g, c.unit.hard_inv)[0] == 'valid'
        if i is not None:
            c.forget(i)
        return r

    def oblige(self, what, cd):
        c = self.c
        name = 'loop %s: %s' % (self.key, what)
        if cd[1] == 's':
            c.prove(name, cd[2]())
        else:
            c.prove_forall(name, cd[2], cd[3])

    def assume_cands(self, loc):
        c = self.c
        for cd in self.candidates(loc):
            if cd[0] not in self.kept or cd[0] in self.st['dropped']:
                continue
            if cd[1] == 's':
                c.fact(cd[2]())
            else:
                n, f = Z(cd[2]), cd[3]
                # make it an element fact of the havoc'd content: instantiated wherever an index occurs
                c.instantiators.append(lambda i, n=n, f=f: z3.Implies(z3.And(i >= 0, i < n), f(i)))

    def check_preserved(self, loc):
        c = self.c
        for cd in self.candidates(loc):
            if cd[0] not in self.kept or cd[0] in self.st['dropped']:
                continue
            if cd[0].startswith('must:'):
                self.oblige('invariant preserved (%s)' % cd[0][5:], cd)
            elif not self.holds(cd):
                self.st['dropped'].add(cd[0])
                raise Restart('candidate %s dropped' % cd[0])

    def check_frame(self, fr):
        new_b = fr.bufs - self.st['bufs']
        new_a = fr.attrs - self.st['attrs']
        if new_b or new_a:
            self.st['bufs'] |= new_b
            self.st['attrs'] |= new_a
            raise Restart('frame of %s grew' % self.key)

    def check_shapes(self, loc):
        for n, (shape, kind) in self.shapes.items():
            v = loc.get(n, UNDEF)
            if isinstance(v, SArr):
                if len(v.shape_) != len(shape):
                    raise Unsupported('rank of %s changes in loop' % n)
                for a, b in zip(v.shape_, shape):
                    if not Z(a).eq(Z(b)) and not self.c.entails(Z(a) == Z(b)):
                        raise Unsupported('shape of %s changes in loop' % n)
            elif kind == 'conc':
                pass


class While(CutLoop):
    def __init__(self, key, names):
        self.setup(key, names)
        self.phase = 0
        self.iters = 0

    def test(self, v, loc):
        c = self.c
        if self.phase == 0:
            if isinstance(v, SArr):
                v = v.__bool__()
            if not isinstance(v, S):
                self.iters += 1
                if v and self.iters > c.unit.max_unroll:
                    raise Unsupported('concrete loop too long')
                return bool(v)
            b = E.as_bool(v.z)
            bs = z3.simplify(b)
            if z3.is_false(bs):
                return False
            self.cond0 = b
            self.check_entry(loc)
            if not c.branch(b):
                return False
            self.phase = 1
            self.fr = Frame(c)
            self.shapes = {}
            for n in self.names:
                x = loc.get(n, UNDEF)
                if isinstance(x, SArr):
                    self.shapes[n] = (x.shape_, x.kind)
            self.havoc_bufs()
            return True
        if self.phase == 2:
            c.frames.remove(self.fr)
            self.check_frame(self.fr)
            self.check_shapes(loc)
            self.check_preserved(loc)
            self.phase = 3
            if isinstance(v, S):
                c.assume(z3.Not(E.as_bool(v.z)))
            elif v:
                raise PathEnd('loop continues')
            return False
        raise Unsupported('while protocol')

    def need_havoc(self):
        return self.phase == 1

    def havoc(self, n, loc):
        v = loc.get(n, UNDEF)
        return self.havoc_value(n, v)

    def assume_inv(self, loc):
        self.assume_cands(loc)

    def assume(self, t):
        if isinstance(t, S):
            self.c.assume(E.as_bool(t.z))
        elif isinstance(t, SArr):
            if not bool(t):
                raise PathEnd('cond false')
        elif not t:
            raise PathEnd('cond false')
        if self.c.unit.cover_loops:
            pass
        self.c.frames.append(self.fr)
        self.phase = 2

    def leave(self, loc):
        pass


def pv_while(key, names):
    return While(key, names)


# ------------------------------------------------------------------ for loops
class ConcFor(object):
    def __init__(self, it):
        self.it = it

    def pre(self, loc):
        pass

    def __iter__(self):
        return iter(self.it)

    def enter(self, n, loc):
        return loc.get(n, UNDEF)

    def exit(self, n, loc):
        return loc.get(n, UNDEF)

    def begin(self, loc):
        pass

    def leave(self, loc):
        pass


def pv_for(it, key, names):
    if isinstance(it, S):
        raise TypeError('not iterable')
    if isinstance(it, E.SymEnum):
        a, st = it.arr, it.start
        r = E.SymRange(z3.IntVal(0), a.nz)
        r.value = lambda i: (W(E.z_add(i, Z(st))), a[W(i)])
        it = r
    if isinstance(it, SArr):
        z = z3.simplify(it.nz)
        if z3.is_int_value(z):
            return ConcFor(it.tolist())
        a = it
        it = E.SymRange(z3.IntVal(0), a.nz)
        it.value = lambda i: a[W(i)]
    if not isinstance(it, E.SymRange):
        return ConcFor(it)
    c = E.CTX
    mode = None
    for pat, f in c.unit.invariants:
        if pat == key or (pat.endswith('*') and key.startswith(pat[:-1])):
            mode = 'inv'
    if key in c.unit.for_mode:
        mode = c.unit.for_mode[key]
    if mode == 'inv':
        return InvFor(it, key, names)
    return MapFor(it, key, names)


class InvFor(CutLoop):
    """for i in range(lo, hi) with loop-carried state: invariant rule, path-forking"""

    def __init__(self, it, key, names):
        self.setup(key, names)
        self.lo, self.hi = Z(it.lo), Z(it.hi)
        self.iv = None
        self.value = getattr(it, 'value', W)

    def pre(self, loc):
        c = self.c
        self.pos = 'head'
        self.index = self.lo
        loc = dict(loc)
        self.check_entry(loc)
        self.path = c.choose(2, 'for')
        self.fr = Frame(c)
        self.shapes = {n: (loc[n].shape_, loc[n].kind) for n in self.names if isinstance(loc.get(n), SArr)}

    def __iter__(self):
        c = self.c
        if self.path == 0:
            # arbitrary iteration
            c.assume(self.lo < self.hi)
            i = z3.Int(c.fresh_name('it'))
            c.fact(z3.And(i >= self.lo, i < self.hi))
            c.note_index((i,))
            self.i = i
            self.index = i
            self.havoc_bufs()
            self.in_body = True
            yield self.value(i)
            raise PathEnd('iteration checked')
        return

    def enter(self, n, loc):
        return self.havoc_value(n, loc.get(n, UNDEF))

    def begin(self, loc):
        self.assume_cands(loc)
        self.c.frames.append(self.fr)

    def leave(self, loc):
        if sys.exc_info()[0] is not None and sys.exc_info()[0] is not StopIteration:
            return
        c = self.c
        if self.fr in c.frames:
            c.frames.remove(self.fr)
        self.check_frame(self.fr)
        self.check_shapes(loc)
        self.index = E.z_add(self.i, z3.IntVal(1))
        self.check_preserved(loc)
        raise PathEnd('iteration checked')

    def exit(self, n, loc):
        # first call: havoc buffers, names; the invariant is assumed once all names are rebound
        c = self.c
        if not hasattr(self, 'exit_done'):
            self.exit_done = 0
            self.exit_loc = dict(loc)
            h = z3.If(self.hi >= self.lo, self.hi, self.lo)
            self.index = h
            self.zero = z3.And(self.hi <= self.lo)
            self.havoc_bufs()
            for m in self.names:
                self.exit_loc[m] = self.havoc_value(m, loc.get(m, UNDEF))
            self.assume_cands(self.exit_loc)
        return self.exit_loc.get(n, UNDEF)


class LocalExplorer(object):
    """all paths of one loop body, merged"""

    def __init__(self, c):
        self.c = c
        self.work = [[]]
        self.cur = None

    def start(self):
        self.cur = self.work.pop()
        self.pos = 0
        self.conds = []

    def branch(self, c, cond):
        if self.pos < len(self.cur):
            d = self.cur[self.pos]
        else:
            if len(self.cur) > 24:
                raise Unsupported('loop body too branchy')
            t, f = c.feasible(cond), c.feasible(z3.Not(cond))
            if not t and not f:
                raise PathEnd('infeasible')
            d = t
            if t and f:
                self.work.append(self.cur[:self.pos] + [False])
            self.cur.append(d)
        self.pos += 1
        k = cond if d else z3.Not(cond)
        self.conds.append(k)
        c.fact(k)
        return d


class MapFor(object):
    """for i in range(lo, hi): iterations that only touch their own elements (map), or only add to
    array cells (accumulate).  The body is run once per body-path at a symbolic i; writes are merged."""

    def __init__(self, it, key, names):
        c = E.CTX
        self.c, self.key, self.names = c, key, names
        self.lo, self.hi = Z(it.lo), Z(it.hi)

    def pre(self, loc):
        pass

    def __iter__(self):
        c = self.c
        self.i = z3.Int(c.fresh_name('li'))
        self.ex = LocalExplorer(c)
        outer_facts = len(c.facts)
        self.saved_layers = [(b, b.layer) for b in c.bufs]
        self.uid0 = c.uid
        self.results = []
        self.log0 = len(c.log)
        names0 = dict(c.names)
        base_facts = list(c.facts)
        while self.ex.work:
            c.local.append(self.ex)
            self.ex.start()
            self.fr = MapFrame(self)
            c.frames.append(self.fr)
            c.solver.push()
            mark = len(c.facts)
            c.fact(z3.And(self.i >= self.lo, self.i < self.hi))
            c.note_index((self.i,))
            self.status = None
            self.logk = len(c.log)
            yield W(self.i)
            # body done (leave() was called)
            c.frames.remove(self.fr)
            c.local.pop()
            newf = c.facts[mark:]
            del c.facts[mark:]
            c.solver.pop()
            c.onced = {k for k in c.onced}  # instantiated facts of the popped region may be needed again
            for b, l in self.saved_layers:
                b.layer, l2 = l, b.layer
            pc = z3.And(*self.ex.conds) if self.ex.conds else z3.BoolVal(True)
            self.results.append((pc, self.fr, newf, c.log[self.logk:]))
            # axioms stay valid under the path condition
            c.onced_reset = True
        del c.log[self.log0:]
        self.merge()

    def enter(self, n, loc):
        return UNDEF

    def begin(self, loc):
        pass

    def leave(self, loc):
        if sys.exc_info()[0] is not None:
            e = sys.exc_info()[1]
            raise Unsupported('exception %r inside a symbolic loop body' % (e,))

    def exit(self, n, loc):
        return UNDEF

    def merge(self):
        c = self.c
        i = self.i
        # re-assert the axioms generated inside the body (guarded), as facts parametric in i
        par = []
        for pc, fr, newf, log in self.results:
            for f in newf:
                g = z3.Implies(z3.And(i >= self.lo, i < self.hi, pc), f)
                par.append(g)
        lo, hi = self.lo, self.hi
        for g in par:
            c.facts.append(g)
            c.solver.add(g)
        if par:
            c.instantiators.append(lambda j: z3.And(*[z3.substitute(g, (i, j)) for g in par]))
        bufs = {}
        for pc, fr, newf, log in self.results:
            for (b, cond, val, old, kind) in fr.writes:
                bufs.setdefault(b.uid, []).append((pc, b, cond, val))
        self.merged_writes = bufs
        for u, ws in bufs.items():
            b = ws[0][1]
            self.merge_buf(b)
        lg = ('loop', self.key, i, lo, hi, [(pc, log) for pc, fr, nf, log in self.results])
        c.log.append(lg)
        c.loops_done.append((self, ))

    def merge_buf(self, b):
        """final content of buffer b"""
        c, i = self.c, self.i
        nd = len(b.shape)
        js = [z3.Int('__mj%d' % k) for k in range(nd)]
        old = dict((x.uid, l) for x, l in self.saved_layers)[b.uid]
        # value after one iteration at cell js, per path
        outs = []
        accum = True
        ismap = True
        for pc, fr, newf, log in self.results:
            layer = fr.final.get(b.uid)
            if layer is None:
                outs.append((pc, None))
                continue
            outs.append((pc, layer))
        lo, hi = self.lo, self.hi
        # map: every written cell has one coordinate equal to i (+const)
        axis = self.map_axis(b)
        if axis is not None:
            ax, off = axis

            def rd(*idx):
                it = E.z_sub(idx[ax], off) if off is not None else idx[ax]
                e = old.read(idx)
                for pc, layer in outs:
                    if layer is None:
                        continue
                    v = z3.substitute(layer_read(layer, js), *([(i, it)] + list(zip(js, idx))))
                    p = z3.substitute(pc, (i, it))
                    e = z3.If(z3.And(it >= lo, it < hi, p), v, e)
                c.note_index((it,))
                return e
            c.quiet_reads = True
            b.set_layer(Fn(rd))
            return
        b.set_layer(Base(c.fresh_name('acc'), nd, b.kind))
        b.ghost['accum'] = (self, b)

    def map_axis(self, b):
        i = self.i
        found = None
        for pc, fr, newf, log in self.results:
            for idxs in fr.cells.get(b.uid, []):
                hit = None
                for ax, e in enumerate(idxs):
                    if e is None:
                        continue
                    off = z3.simplify(e - i)
                    if not E.occurs(i, off):
                        hit = (ax, None if E._isnum(off, 0) else off)
                        break
                if hit is None:
                    return None
                if found is None:
                    found = hit
                elif found[0] != hit[0] or (found[1] is None) != (hit[1] is None) or (found[1] is not None and not found[1].eq(hit[1])):
                    return None
        return found


def layer_read(layer, js):
    return layer.read(tuple(js))


class MapFrame(object):
    def __init__(self, loop):
        self.loop = loop
        self.writes = []
        self.final = {}
        self.cells = {}

    def on_write(self, buf):
        if any(buf is b for b, l in self.loop.saved_layers):
            raise Unsupported('array store in a symbolic loop without an invariant')

    def on_setattr(self, o, a):
        raise Unsupported('attribute store in a symbolic map loop')


E.Ctx.loops_done = None
_oi2 = E.Ctx.__init__


def _init2(self, *a):
    _oi2(self, *a)
    self.loops_done = []
    self.loop_occ = {}


E.Ctx.__init__ = _init2
