"""Mechanical front end: source text of /repo -> instrumented module run on symbolic values.

Dropped / changed by the extraction (stated in DESIGN.md): print() is a no-op; string formatting of
symbolic values yields a placeholder; and/or/not/for/while/attribute stores go through hooks with the same meaning;
imports are bound to contracts (numpy, RNG, scipy.io, native kernels) or to other modules of /repo
loaded the same way.
"""
import ast
import builtins
import os
import types
import hashlib
import sys

from . import engine as E
from . import loops as L
from .numpyshim import NP, special

REPO = os.environ.get('PV_REPO', '/repo')


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.k = 0
        self.scope = ['<module>']
        self.ordinals = {}

    def fname(self):
        return '.'.join(self.scope[1:]) or '<module>'

    def visit_ClassDef(self, n):
        self.scope.append(n.name)
        self.generic_visit(n)
        self.scope.pop()
        return n

    def visit_FunctionDef(self, n):
        self.scope.append(n.name)
        self.generic_visit(n)
        self.scope.pop()
        return n

    def visit_Lambda(self, n):
        self.generic_visit(n)
        return n

    def key(self):
        f = self.fname()
        o = self.ordinals.get(f, 0)
        self.ordinals[f] = o + 1
        return '%s:%s#%d' % (self.mod, f, o)

    # -- boolean operators
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if self.scope == ['<module>']:
            return n
        f = '__pv_and__' if isinstance(n.op, ast.And) else '__pv_or__'
        return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [
            ast.Lambda(ast.arguments([], [], None, [], [], None, []), v) for v in n.values], []), n)

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(ast.Call(ast.Name('__pv_not__', ast.Load()), [n.operand], []), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) > 1 and all(not isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in n.ops) and len(self.scope) > 1:
            parts = []
            left = n.left
            for o, c in zip(n.ops, n.comparators):
                parts.append(ast.Compare(left, [o], [c]))
                left = c
            return ast.copy_location(ast.Call(ast.Name('__pv_and__', ast.Load()), [
                ast.Lambda(ast.arguments([], [], None, [], [], None, []), v) for v in parts], []), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(ast.Name('__pv_fmt__', ast.Load()), [n.left, n.right], []), n)
        return n

    # -- loops
    @staticmethod
    def stored(body):
        out = []

        class V(ast.NodeVisitor):
            def visit_Name(s, n):
                if isinstance(n.ctx, ast.Store) and n.id not in out and not n.id.startswith('__pv'):
                    out.append(n.id)

            def visit_FunctionDef(s, n):
                if n.name not in out:
                    out.append(n.name)

            def visit_Lambda(s, n):
                pass

            def visit_ListComp(s, n):
                pass
            visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
        for b in body:
            V().visit(b)
        return out

    @staticmethod
    def n(s):
        return ast.Name(s, ast.Load())

    def call(self, obj, meth, *args):
        return ast.Call(ast.Attribute(ast.Name(obj, ast.Load()), meth, ast.Load()), list(args), [])

    def locs(self):
        return ast.Call(ast.Name('locals', ast.Load()), [], [])

    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators
        if len(self.scope) > 1 and len(g) == 1 and not g[0].ifs and isinstance(g[0].target, ast.Name) and not any(
                isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
            lam = ast.Lambda(ast.arguments([], [ast.arg(g[0].target.id)], None, [], [], None, []), n.elt)
            return ast.copy_location(ast.Call(self.n('__pv_listcomp__'), [lam, g[0].iter], []), n)
        return n

    def visit_For(self, n):
        if len(self.scope) == 1:
            return n
        key = self.key()
        stored = self.stored(n.body)
        stored_all = stored + [x for x in self.stored([ast.Assign([n.target], ast.Constant(0))]) if x not in stored]
        self.generic_visit(n)
        self.k += 1
        lv = '__pv_L%d' % self.k
        pre = ast.Assign([ast.Name(lv, ast.Store())], ast.Call(self.n('__pv_for__'), [
            n.iter, ast.Constant(key), ast.Constant(tuple(stored))], []))
        enter = [ast.Assign([ast.Name(x, ast.Store())], self.call(lv, 'enter', ast.Constant(x), self.locs())) for x in stored]
        body = enter + [ast.Expr(self.call(lv, 'begin', self.locs())),
                        ast.Try(body=n.body, handlers=[], orelse=[], finalbody=[ast.Expr(self.call(lv, 'leave', self.locs()))])]
        new = ast.For(n.target, ast.Name(lv, ast.Load()), body, n.orelse)
        post = [ast.Assign([ast.Name(x, ast.Store())], self.call(lv, 'exit', ast.Constant(x), self.locs())) for x in stored_all]
        pre2 = ast.Expr(self.call(lv, 'pre', self.locs()))
        return [ast.fix_missing_locations(ast.copy_location(x, n)) for x in [pre, pre2, new] + post]

    def visit_While(self, n):
        if len(self.scope) == 1:
            return n
        key = self.key()
        stored = self.stored(n.body)
        self.generic_visit(n)
        self.k += 1
        lv = '__pv_W%d' % self.k
        import copy
        pre = ast.Assign([ast.Name(lv, ast.Store())], ast.Call(self.n('__pv_while__'), [
            ast.Constant(key), ast.Constant(tuple(stored))], []))
        test = self.call(lv, 'test', n.test, self.locs())
        hav = ast.If(self.call(lv, 'need_havoc'),
                     [ast.Assign([ast.Name(x, ast.Store())], self.call(lv, 'havoc', ast.Constant(x), self.locs())) for x in stored]
                     + [ast.Expr(self.call(lv, 'assume_inv', self.locs())),
                        ast.Expr(self.call(lv, 'assume', copy.deepcopy(n.test)))], [])
        body = [hav, ast.Try(body=n.body, handlers=[], orelse=[], finalbody=[ast.Expr(self.call(lv, 'leave', self.locs()))])]
        new = ast.While(test, body, n.orelse)
        return [ast.fix_missing_locations(ast.copy_location(x, n)) for x in [pre, new]]

    def _attr_store(self, target, valname):
        return ast.Expr(ast.Call(self.n('__pv_setattr__'), [target.value, ast.Constant(target.attr), valname], []))

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(self.scope) > 1 and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            t = n.targets[0]
            return ast.fix_missing_locations(ast.copy_location(self._attr_store(t, n.value), n))
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if len(self.scope) > 1 and isinstance(n.target, ast.Attribute):
            t = n.target
            op = ast.Constant(type(n.op).__name__)
            return ast.fix_missing_locations(ast.copy_location(ast.Expr(ast.Call(self.n('__pv_augattr__'), [
                t.value, ast.Constant(t.attr), op, n.value], [])), n))
        return n


import operator
_AUG = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'Div': operator.itruediv,
        'FloorDiv': operator.ifloordiv, 'Mod': operator.imod, 'Pow': operator.ipow, 'BitOr': operator.ior, 'BitAnd': operator.iand}


def pv_setattr(o, a, v):
    c = E.CTX
    if c is not None and getattr(o, '__dict__', {}).get(a, c) is not v:
        for fr in c.frames:
            fr.on_setattr(o, a)
    setattr(o, a, v)


def pv_augattr(o, a, op, v):
    pv_setattr(o, a, _AUG[op](getattr(o, a), v))


NPSHIM = NP()


class Loader(object):
    """set of instrumented modules sharing one set of external contracts"""

    def __init__(self, natives=None, repo=None, source_override=None):
        self.natives = dict(natives or {})
        self.repo = repo or REPO
        self.mods = {}
        self.files = {}
        self.override = source_override or {}
        sc = types.ModuleType('scipy')
        sc.constants = types.ModuleType('scipy.constants')
        import scipy.constants as rsc
        for k in dir(rsc):
            setattr(sc.constants, k, getattr(rsc, k))
        sc.io = types.ModuleType('scipy.io')
        sc.stats = types.ModuleType('scipy.stats')
        sc.special = special()
        self.scipy = sc
        npm = NPSHIM
        self.ext = {
            'numpy': npm, 'numpy.random': npm.random, 'scipy': sc, 'scipy.constants': sc.constants,
            'scipy.io': sc.io, 'scipy.stats': sc.stats, 'scipy.special': sc.special,
        }

    def builtins(self):
        d = dict(vars(builtins))
        d.update(len=E.sym_len, int=E.sym_int, float=E.sym_float, bool=E.sym_bool, range=E.sym_range, sum=E.sym_sum,
                 abs=E.sym_abs, max=E.sym_max, min=E.sym_min, round=E.sym_round, print=E.pv_print, type=E.sym_type,
                 enumerate=E.sym_enumerate, xrange=E.sym_range, __import__=self._import)
        return d

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            if name:
                return self.get(name)
            ns = types.SimpleNamespace()
            for f in fromlist:
                setattr(ns, f, self.get(f))
            return ns
        if name.startswith('PyECLOUD.') or name == 'PyECLOUD':
            tail = name.split('.')[1:]
            if tail:
                return self.get(tail[0]) if fromlist else types.SimpleNamespace(**{tail[0]: self.get(tail[0])})
            ns = types.SimpleNamespace()
            for f in fromlist or ():
                setattr(ns, f, self.get(f))
            return ns
        if name in self.ext:
            m = self.ext[name]
            if fromlist:
                return m
            top = name.split('.')[0]
            return self.ext[top]
        if name.split('.')[0] in ('PyPIC', 'PyHEADTAIL', 'matplotlib', 'mpl_toolkits', 'pylab', 'mystyle'):
            return Opaque(name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def source(self, name):
        if name in self.override:
            return self.override[name]
        p = os.path.join(self.repo, name + '.py')
        if not os.path.exists(p):
            raise E.Unsupported('module %s not found' % name)
        with open(p) as f:
            s = f.read()
        self.files[name + '.py'] = hashlib.sha256(s.encode()).hexdigest()
        return s

    def get(self, name):
        if name in self.natives:
            return self.natives[name]
        if name in self.mods:
            return self.mods[name]
        src = self.source(name)
        try:
            tree = ast.parse(src, name + '.py')
        except SyntaxError as e:
            raise E.Unsupported('syntax error in %s: %s' % (name, e))
        return self.load_tree(name, tree)

    def load_tree(self, name, tree, extra=None):
        tree = Instrument(name).visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType('PyECLOUD.' + name)
        m.__dict__.update(__builtins__=self.builtins(), __pv_and__=E.pv_and, __pv_or__=E.pv_or, __pv_not__=E.pv_not,
                          __pv_fmt__=E.pv_fmt, __pv_listcomp__=E.pv_listcomp, __pv_for__=L.pv_for, __pv_while__=L.pv_while, __pv_setattr__=pv_setattr,
                          __pv_augattr__=pv_augattr, __name__='PyECLOUD.' + name, __file__=os.path.join(self.repo, name + '.py'))
        m.__dict__.update(extra or {})
        self.mods[name] = m
        exec(compile(tree, name + '.py', 'exec'), m.__dict__)
        return m


class Opaque(object):
    """external package whose behaviour is not used by the verified units"""

    def __init__(self, name):
        self.__dict__['_n'] = name

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Opaque(self._n + '.' + k)

    def __call__(self, *a, **k):
        raise E.Unsupported('call of opaque external %s' % self._n)
