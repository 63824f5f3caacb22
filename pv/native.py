"""Mechanical front ends for the native kernels of /repo: Fortran (.f), C (.c) and Cython (.pyx) text -> Python AST,
then the same instrumentation as the Python modules.

Kept: every statement, declared kinds (integer / real conversions and truncations), array bounds (strict: each access
generates an in-bounds obligation), loop structure.  Dropped: I/O, f2py directives, compiler directives, aliasing of
distinct pointer arguments.  Anything outside the accepted subset raises Unsupported (bounded check only).
"""
import ast
import os
import re
import hashlib
import z3
from . import engine as E
from .engine import Unsupported, S, SArr, W, Z
from .loader import REPO


# ------------------------------------------------------------------ run-time helpers
def nat_at(a, lo, dims, *idx):
    if not isinstance(a, SArr):
        a = E.lift(a)
    zs = chk(a, lo, dims, idx)
    return W(a.at(*zs))


def chk(a, lo, dims, idx):
    if a.ndim != len(idx):
        raise Unsupported('rank of a native array')
    zs = []
    for k, i in enumerate(idx):
        z = Z(i)
        if z.sort() != E.I:
            raise Unsupported('native index is not an integer')
        z = E.z_sub(z, z3.IntVal(lo)) if lo else z
        n = Z(dims[k]) if dims is not None else Z(a.shape_[k])
        E.CTX.safety('native array index in bounds', z3.And(z >= 0, z < n))
        zs.append(z3.simplify(z))
    return zs


def nat_put(a, v, lo, dims, *idx):
    zs = chk(a, lo, dims, idx)
    a[tuple(W(z) for z in zs) if len(zs) > 1 else W(zs[0])] = v


def nat_trunc(v):
    """C / Fortran conversion of a real to an integer"""
    z = Z(v)
    if z.sort() == E.I:
        return v
    if z.sort() == E.B:
        return W(E.as_int(z))
    return W(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))


def nat_real(v):
    return W(E.as_real(Z(v)))


def nat_idiv(a, b):
    a, b = Z(a), Z(b)
    q = lambda x, y: z3.If(x >= 0, x / y, -((-x) / y))
    return W(z3.If(b > 0, q(a, b), -q(a, -b)))


def nat_div_checked(a, b):
    """Cython division: a zero divisor raises ZeroDivisionError"""
    E.CTX.safety('divisor is not zero', Z(b) != 0)
    return a / b


def nat_truth(v):
    if isinstance(v, S) and v.kind != 'b':
        return W(v.z != 0)
    return v


HELP = dict(__nat_at__=nat_at, __nat_put__=nat_put, __nat_trunc__=nat_trunc, __nat_real__=nat_real, __nat_idiv__=nat_idiv,
            __nat_div__=nat_div_checked, __nat_truth__=nat_truth)


def N(s):
    return ast.Name(s, ast.Load())


def C(f, *a):
    return ast.Call(N(f), list(a), [])


def K(v):
    return ast.Constant(v)


def fdef(name, params, body):
    return ast.FunctionDef(name=name, args=ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []),
                           body=body or [ast.Pass()], decorator_list=[], returns=None, type_params=[])


def load(ld, modname, filename, conv):
    """instrumented module of the translated kernels, registered as a native of the loader"""
    p = os.path.join(ld.repo, filename)
    if not os.path.exists(p):
        raise Unsupported('%s not found' % filename)
    src = open(p).read()
    ld.files[filename] = hashlib.sha256(src.encode()).hexdigest()
    tree = ast.Module(body=conv(src), type_ignores=[])
    ast.fix_missing_locations(tree)
    if os.environ.get('PV_DUMP'):
        print(ast.unparse(tree))
    import types
    m = ld.load_tree(modname, tree, HELP)
    ld.mods.pop(modname, None)
    ld.natives[modname] = m
    return m


# ------------------------------------------------------------------ Fortran
class Fortran(object):
    TOK = re.compile(r'\s*(?:(\d+\.\d*(?:[ed][+-]?\d+)?|\.\d+(?:[ed][+-]?\d+)?|\d+(?:[ed][+-]?\d+)|\d+)(?![a-z_])|([a-z_]\w*)|(\.[a-z]+\.)|(\*\*|==|/=|<=|>=|[-+*/()<>,=]))')

    def __init__(self, src):
        self.subs = self.split(src)

    @staticmethod
    def lines(src):
        out = []
        for raw in src.splitlines():
            if not raw.strip() or raw[0] in 'cC*!dD' and not raw.startswith(('\t', ' ')):
                continue
            l = raw
            # continuation: non-blank in column 6 (columns 1-5 blank), or a digit after a leading tab
            m = re.match(r'^ {5}([^ 0\t])(.*)$', l)
            t = re.match(r'^\t([1-9&+])(.*)$', l)
            cont = m or t
            if not cont and l.lstrip().startswith('&'):
                raise Unsupported('free-form continuation')
            body = cont.group(2) if cont else l
            body = re.sub(r"'[^']*'", "''", body).split('!')[0]
            body = body.strip()
            if cont and out:
                out[-1] += ' ' + body
            elif body:
                out.append(body)
        st = []
        for l in out:
            st += [x.strip().lower() for x in l.split(';') if x.strip()]
        return st

    def split(self, src):
        subs = []
        cur = None
        for s in self.lines(src):
            m = re.match(r'^subroutine\s+(\w+)\s*(?:\((.*)\))?$', s)
            if m:
                cur = (m.group(1), [a.strip() for a in (m.group(2) or '').split(',') if a.strip()], [])
                subs.append(cur)
            elif re.match(r'^end(\s*subroutine(\s+\w+)?)?$', s):
                cur = None
            elif cur is not None:
                cur[2].append(s)
        return subs

    def convert(self, name):
        for n, params, body in self.subs:
            if n == name:
                return self.sub(n, params, body)
        raise Unsupported('subroutine %s not found' % name)

    def sub(self, name, params, body):
        self.kind, self.dims = {}, {}
        self.st = list(body)
        self.pos = 0
        stmts = self.block(())
        # scalar dummy arguments the routine assigns are returned (intent(out))
        asg = {t.id for st in stmts for n in ast.walk(st) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
        outs = [p for p in params if p in asg]
        if outs:
            stmts.append(ast.Return(ast.Tuple([N(p) for p in outs], ast.Load())))
        return fdef(name, params, stmts)

    def block(self, ends):
        out = []
        while self.pos < len(self.st):
            s = self.st[self.pos]
            key = re.sub(r'\s+', '', s)
            if any(re.match(e, key) for e in ends):
                return out
            self.pos += 1
            r = self.stmt(s, key)
            if r is not None:
                out += r if isinstance(r, list) else [r]
        if ends:
            raise Unsupported('unterminated block')
        return out

    def stmt(self, s, key):
        if key == 'implicitnone' or key == 'continue' or key.startswith(('write(', 'print*')):
            return None
        m = re.match(r'^(integer|real\*8|double\s+precision|logical|real)\s*(?:::)?\s+(.*)$', s)
        if m and '=' not in s:
            k = {'integer': 'i', 'logical': 'b'}.get(m.group(1), 'r')
            if m.group(1) == 'real':
                raise Unsupported('single precision variable')
            for v in re.findall(r'(\w+)\s*(\([^)]*\))?', m.group(2)):
                self.kind[v[0]] = k
                if v[1]:
                    self.dims[v[0]] = [d.strip() for d in v[1][1:-1].split(',')]
            return None
        if key == 'return':
            return ast.Return(None)
        m = re.match(r'^do\s*(\w+)\s*=\s*(.*)$', s)
        if m:
            v = m.group(1)
            parts = self.commas(m.group(2))
            if len(parts) not in (2, 3) or (len(parts) == 3 and parts[2] != '1'):
                raise Unsupported('do loop form')
            lo, hi = self.expr(parts[0])[0], self.expr(parts[1])[0]
            body = self.block((r'^enddo$',))
            self.pos += 1
            return ast.For(ast.Name(v, ast.Store()), C('range', lo, ast.BinOp(hi, ast.Add(), K(1))), body or [ast.Pass()], [])
        m = re.match(r'^if\s*(\(.*)$', s)
        if m:
            cond, rest = self.paren(m.group(1))
            t = self.cond(cond)
            if rest.strip() == 'then':
                body = self.block((r'^endif$', r'^else'))
                els = []
                nxt = re.sub(r'\s+', '', self.st[self.pos])
                self.pos += 1
                if nxt.startswith('elseif'):
                    s2 = re.sub(r'^else\s*', '', self.st[self.pos - 1])
                    els = [self.stmt(s2, re.sub(r'\s+', '', s2))]
                elif nxt == 'else':
                    els = self.block((r'^endif$',))
                    self.pos += 1
                return ast.If(t, body or [ast.Pass()], els)
            r = self.stmt(rest.strip(), re.sub(r'\s+', '', rest))
            return ast.If(t, r if isinstance(r, list) else [r], [])
        m = re.match(r'^(\w+)\s*(\(.*?\))?\s*=(?!=)\s*(.*)$', s) if '=' in s else None
        if m:
            lhs = s[:self.eqpos(s)].strip()
            rhs = s[self.eqpos(s) + 1:].strip()
            val, k = self.expr(rhs)
            mm = re.match(r'^(\w+)\s*(?:\((.*)\))?$', lhs)
            if not mm:
                raise Unsupported('assignment %s' % s)
            v = mm.group(1)
            if v not in self.kind:
                raise Unsupported('undeclared %s' % v)
            if self.kind[v] == 'i' and k == 'r':
                val = C('__nat_trunc__', val)
            if self.kind[v] == 'r' and k == 'i':
                val = C('__nat_real__', val)
            if mm.group(2) is not None:
                idx = [self.expr(p)[0] for p in self.commas(mm.group(2))]
                return ast.Expr(C('__nat_put__', N(v), val, K(1), self.dim(v), *idx))
            if v in self.dims:
                raise Unsupported('whole-array assignment')
            return ast.Assign([ast.Name(v, ast.Store())], val)
        raise Unsupported('fortran statement: %s' % s)

    @staticmethod
    def eqpos(s):
        d = 0
        for i, ch in enumerate(s):
            d += (ch == '(') - (ch == ')')
            if ch == '=' and d == 0:
                return i
        raise Unsupported(s)

    @staticmethod
    def paren(s):
        d = 0
        for i, ch in enumerate(s):
            d += (ch == '(') - (ch == ')')
            if d == 0:
                return s[1:i], s[i + 1:]
        raise Unsupported('parentheses')

    @staticmethod
    def commas(s):
        out, d, cur = [], 0, ''
        for ch in s:
            d += (ch == '(') - (ch == ')')
            if ch == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
            else:
                cur += ch
        return out + [cur.strip()]

    def dim(self, v):
        return ast.Tuple([self.expr(d)[0] for d in self.dims[v]], ast.Load())

    def cond(self, s):
        e, k = self.expr(s)
        return e

    # expressions: recursive descent
    def expr(self, s):
        self_t = []
        pos = 0
        s = s.strip()
        while pos < len(s):
            m = self.TOK.match(s, pos)
            if not m:
                raise Unsupported('fortran expression: %s' % s)
            self_t.append(m.group(0).strip())
            pos = m.end()
            while pos < len(s) and s[pos].isspace():
                pos += 1
        st = [self_t, 0]
        r = self.e_or(st)
        if st[1] != len(self_t):
            raise Unsupported('fortran expression: %s' % s)
        return r

    @staticmethod
    def pk(st):
        return st[0][st[1]] if st[1] < len(st[0]) else None

    def e_or(self, st):
        a = self.e_and(st)
        while self.pk(st) == '.or.':
            st[1] += 1
            b = self.e_and(st)
            a = (ast.BoolOp(ast.Or(), [a[0], b[0]]), 'b')
        return a

    def e_and(self, st):
        a = self.e_not(st)
        while self.pk(st) == '.and.':
            st[1] += 1
            b = self.e_not(st)
            a = (ast.BoolOp(ast.And(), [a[0], b[0]]), 'b')
        return a

    def e_not(self, st):
        if self.pk(st) == '.not.':
            st[1] += 1
            return (ast.UnaryOp(ast.Not(), self.e_not(st)[0]), 'b')
        return self.e_rel(st)

    REL = {'<': ast.Lt, '>': ast.Gt, '<=': ast.LtE, '>=': ast.GtE, '==': ast.Eq, '/=': ast.NotEq, '.lt.': ast.Lt, '.gt.': ast.Gt,
           '.le.': ast.LtE, '.ge.': ast.GtE, '.eq.': ast.Eq, '.ne.': ast.NotEq}

    def e_rel(self, st):
        a = self.e_add(st)
        if self.pk(st) in self.REL:
            op = self.REL[self.pk(st)]
            st[1] += 1
            b = self.e_add(st)
            return (ast.Compare(a[0], [op()], [b[0]]), 'b')
        return a

    @staticmethod
    def join(a, b):
        return 'r' if 'r' in (a, b) else 'i'

    def e_add(self, st):
        if self.pk(st) in ('-', '+'):
            neg = self.pk(st) == '-'
            st[1] += 1
            t = self.e_mul(st)
            a = (ast.UnaryOp(ast.USub(), t[0]), t[1]) if neg else t
        else:
            a = self.e_mul(st)
        while self.pk(st) in ('+', '-'):
            op = ast.Add() if self.pk(st) == '+' else ast.Sub()
            st[1] += 1
            b = self.e_mul(st)
            a = (ast.BinOp(a[0], op, b[0]), self.join(a[1], b[1]))
        return a

    def e_mul(self, st):
        a = self.e_pow(st)
        while self.pk(st) in ('*', '/'):
            o = self.pk(st)
            st[1] += 1
            b = self.e_pow(st)
            k = self.join(a[1], b[1])
            if o == '/':
                a = (C('__nat_idiv__', a[0], b[0]) if k == 'i' else ast.BinOp(C('__nat_real__', a[0]) if a[1] == 'i' else a[0], ast.Div(), b[0]), k)
            else:
                a = (ast.BinOp(a[0], ast.Mult(), b[0]), k)
        return a

    def e_pow(self, st):
        a = self.e_atom(st)
        if self.pk(st) == '**':
            st[1] += 1
            b = self.e_pow(st)
            return (ast.BinOp(a[0], ast.Pow(), b[0]), self.join(a[1], b[1]))
        return a

    def e_atom(self, st):
        t = self.pk(st)
        st[1] += 1
        if t is None:
            raise Unsupported('fortran expression')
        if t == '(':
            a = self.e_or(st)
            if self.pk(st) != ')':
                raise Unsupported('fortran parentheses')
            st[1] += 1
            return a
        if re.match(r'^[\d.]', t) and not t.startswith('.t') and not t.startswith('.f'):
            if re.match(r'^\d+$', t):
                return K(int(t)), 'i'
            if 'd' not in t:
                import struct
                v = float(t)
                if struct.unpack('f', struct.pack('f', v))[0] != v:
                    raise Unsupported('single precision constant %s' % t)
            return K(float(t.replace('d', 'e'))), 'r'
        if re.match(r'^[a-z_]', t):
            if self.pk(st) == '(':
                st[1] += 1
                args = []
                if self.pk(st) != ')':
                    args.append(self.e_or(st))
                    while self.pk(st) == ',':
                        st[1] += 1
                        args.append(self.e_or(st))
                if self.pk(st) != ')':
                    raise Unsupported('fortran call')
                st[1] += 1
                if t in self.dims:
                    return C('__nat_at__', N(t), K(1), self.dim(t), *[a[0] for a in args]), self.kind[t]
                if t in ('int', 'idint'):
                    return C('__nat_trunc__', args[0][0]), 'i'
                if t in ('dble', 'real', 'dfloat'):
                    if t == 'real' and len(args) == 1:
                        raise Unsupported('single precision conversion')
                    return C('__nat_real__', args[0][0]), 'r'
                if t in ('abs', 'dabs'):
                    return C('abs', args[0][0]), args[0][1]
                if t in ('min', 'max', 'dmin1', 'dmax1', 'min0', 'max0'):
                    k = args[0][1]
                    return C(t[:3] if t[0] != 'd' else t[1:4], *[a[0] for a in args]), 'r' if any(a[1] == 'r' for a in args) else k
                if t == 'floor':
                    return C('__nat_floor__', args[0][0]), 'i'
                raise Unsupported('fortran function %s' % t)
            if t not in self.kind:
                raise Unsupported('undeclared %s' % t)
            return N(t), self.kind[t]
        raise Unsupported('fortran token %s' % t)


def nat_floor(v):
    return W(z3.ToInt(E.as_real(Z(v))))


HELP['__nat_floor__'] = nat_floor


def fortran(name):
    return lambda src: [Fortran(src).convert(name)]


# ------------------------------------------------------------------ C (pycparser)
class CConv(object):
    def __init__(self, src):
        from pycparser import c_parser
        src = re.sub(r'/\*.*?\*/', lambda m: '\n' * m.group(0).count('\n'), src, flags=re.S)
        src = re.sub(r'//[^\n]*', '', src)
        src = re.sub(r'^[ \t]*#[^\n]*', '', src, flags=re.M)
        try:
            self.tree = c_parser.CParser().parse(src)
        except Exception as e:
            raise Unsupported('C parse: %s' % e)
        from pycparser import c_ast
        self.c = c_ast

    def convert(self):
        out = []
        for d in self.tree.ext:
            if isinstance(d, self.c.FuncDef):
                out.append(self.func(d))
        return out

    def ctype(self, t):
        c = self.c
        if isinstance(t, (c.PtrDecl, c.ArrayDecl)):
            return 'p' + self.ctype(t.type)
        if isinstance(t, c.TypeDecl):
            n = [x for x in t.type.names if x not in ('const', 'register', 'static')]
            if n == ['double']:
                return 'r'
            if n in (['int'], ['long'], ['size_t'], ['unsigned', 'int']):
                return 'i'
            if n == ['void']:
                return 'v'
        raise Unsupported('C type')

    def func(self, d):
        self.kind = {}
        params = []
        for p in d.decl.type.args.params if d.decl.type.args else []:
            self.kind[p.name] = self.ctype(p.type)
            params.append(p.name)
        return fdef(d.decl.name, params, self.stmts(d.body.block_items or []))

    def stmts(self, l):
        out = []
        for s in l:
            r = self.stmt(s)
            if r is not None:
                out += r if isinstance(r, list) else [r]
        return out or [ast.Pass()]

    def body(self, s):
        if s is None:
            return [ast.Pass()]
        return self.stmts(s.block_items or []) if isinstance(s, self.c.Compound) else self.stmts([s])

    def assign(self, lhs, val, k):
        c = self.c
        if isinstance(lhs, c.ID):
            v = lhs.name
            if self.kind.get(v) not in ('r', 'i'):
                raise Unsupported('C assignment to %s' % v)
            return ast.Assign([ast.Name(v, ast.Store())], self.coerce(val, k, self.kind[v]))
        if isinstance(lhs, c.ArrayRef) and isinstance(lhs.name, c.ID):
            v = lhs.name.name
            ix, ik = self.expr(lhs.subscript)
            if ik != 'i':
                raise Unsupported('C index')
            return ast.Expr(C('__nat_put__', N(v), self.coerce(val, k, self.kind[v][1:]), K(0), K(None), ix))
        raise Unsupported('C assignment')

    @staticmethod
    def coerce(val, k, want):
        if want == 'i' and k == 'r':
            return C('__nat_trunc__', val)
        if want == 'i' and k == 'b':
            return C('__nat_trunc__', val)
        if want == 'r' and k != 'r':
            return C('__nat_real__', val)
        return val

    def stmt(self, s):
        c = self.c
        if isinstance(s, c.Decl):
            self.kind[s.name] = self.ctype(s.type)
            if s.init is not None:
                v, k = self.expr(s.init)
                return ast.Assign([ast.Name(s.name, ast.Store())], self.coerce(v, k, self.kind[s.name]))
            return None
        if isinstance(s, c.DeclList):
            return [x for d in s.decls for x in [self.stmt(d)] if x is not None]
        if isinstance(s, c.Compound):
            return self.stmts(s.block_items or [])
        if isinstance(s, c.EmptyStatement):
            return None
        if isinstance(s, c.Assignment):
            v, k = self.expr(s.rvalue)
            if s.op != '=':
                op = {'+=': '+', '-=': '-', '*=': '*', '/=': '/'}.get(s.op)
                if op is None:
                    raise Unsupported('C operator %s' % s.op)
                a, ka = self.expr(s.lvalue)
                v, k = self.binop(op, (a, ka), (v, k))
            return self.assign(s.lvalue, v, k)
        if isinstance(s, c.UnaryOp) and s.op in ('p++', '++', 'p--', '--'):
            a, ka = self.expr(s.expr)
            return self.assign(s.expr, ast.BinOp(a, ast.Add() if '+' in s.op else ast.Sub(), K(1)), ka)
        if isinstance(s, c.If):
            return ast.If(self.cond(s.cond), self.body(s.iftrue), self.body(s.iffalse) if s.iffalse else [])
        if isinstance(s, c.While):
            return ast.While(self.cond(s.cond), self.body(s.stmt), [])
        if isinstance(s, c.For):
            init = s.init.decls[0] if isinstance(s.init, c.DeclList) else s.init
            if isinstance(init, c.Decl):
                self.kind[init.name] = 'i'
                v, lo = init.name, self.expr(init.init)
            elif isinstance(init, c.Assignment) and init.op == '=' and isinstance(init.lvalue, c.ID):
                v, lo = init.lvalue.name, self.expr(init.rvalue)
            else:
                raise Unsupported('C for')
            cd, nx = s.cond, s.next
            up = isinstance(nx, c.UnaryOp) and nx.op in ('p++', '++') or (isinstance(nx, c.Assignment) and nx.op == '+=' and isinstance(
                nx.rvalue, c.Constant) and nx.rvalue.value == '1')
            if not up or not isinstance(cd, c.BinaryOp) or cd.op not in ('<', '<=') or not isinstance(cd.left, c.ID) or cd.left.name != v or self.kind[v] != 'i':
                raise Unsupported('C for form')
            hi = self.expr(cd.right)[0]
            if cd.op == '<=':
                hi = ast.BinOp(hi, ast.Add(), K(1))
            return ast.For(ast.Name(v, ast.Store()), C('range', lo[0], hi), self.body(s.stmt), [])
        if isinstance(s, c.Return) and s.expr is None:
            return ast.Return(None)
        if isinstance(s, c.Continue):
            return ast.Continue()
        raise Unsupported('C statement %s' % type(s).__name__)

    def cond(self, e):
        v, k = self.expr(e)
        return v if k == 'b' else C('__nat_truth__', v)

    def binop(self, op, a, b):
        if op in ('+', '-', '*'):
            k = 'r' if 'r' in (a[1], b[1]) else 'i'
            return ast.BinOp(a[0], {'+': ast.Add, '-': ast.Sub, '*': ast.Mult}[op](), b[0]), k
        if op == '/':
            k = 'r' if 'r' in (a[1], b[1]) else 'i'
            if k == 'i':
                return C('__nat_idiv__', a[0], b[0]), 'i'
            return ast.BinOp(C('__nat_real__', a[0]) if a[1] == 'i' else a[0], ast.Div(), b[0]), 'r'
        raise Unsupported('C operator %s' % op)

    def expr(self, e):
        c = self.c
        if isinstance(e, c.Constant):
            if e.type in ('double',):
                return K(float(e.value)), 'r'
            if e.type == 'int':
                return K(int(e.value, 0)), 'i'
            raise Unsupported('C constant')
        if isinstance(e, c.ID):
            k = self.kind.get(e.name)
            if k is None:
                raise Unsupported('C name %s' % e.name)
            return N(e.name), k
        if isinstance(e, c.ArrayRef) and isinstance(e.name, c.ID):
            k = self.kind.get(e.name.name, '')
            ix, ik = self.expr(e.subscript)
            if not k.startswith('p') or ik != 'i':
                raise Unsupported('C array')
            return C('__nat_at__', N(e.name.name), K(0), K(None), ix), k[1:]
        if isinstance(e, c.UnaryOp):
            a, k = self.expr(e.expr)
            if e.op == '-':
                return ast.UnaryOp(ast.USub(), a), k
            if e.op == '+':
                return a, k
            if e.op == '!':
                return ast.UnaryOp(ast.Not(), a if k == 'b' else C('__nat_truth__', a)), 'b'
            raise Unsupported('C unary %s' % e.op)
        if isinstance(e, c.BinaryOp):
            a, b = self.expr(e.left), self.expr(e.right)
            if e.op in ('&&', '||'):
                t = lambda x: x[0] if x[1] == 'b' else C('__nat_truth__', x[0])
                return ast.BoolOp(ast.And() if e.op == '&&' else ast.Or(), [t(a), t(b)]), 'b'
            rel = {'<': ast.Lt, '>': ast.Gt, '<=': ast.LtE, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq}
            if e.op in rel:
                return ast.Compare(a[0], [rel[e.op]()], [b[0]]), 'b'
            return self.binop(e.op, a, b)
        if isinstance(e, c.Cast):
            a, k = self.expr(e.expr)
            t = self.ctype(e.to_type.type)
            return self.coerce(a, k, t), t
        if isinstance(e, c.TernaryOp):
            a, b = self.expr(e.iftrue), self.expr(e.iffalse)
            if a[1] != b[1]:
                raise Unsupported('C ?:')
            return ast.IfExp(self.cond(e.cond), a[0], b[0]), a[1]
        raise Unsupported('C expression %s' % type(e).__name__)


def c_source(src):
    return CConv(src).convert()


# ------------------------------------------------------------------ Cython
def pyx(names):
    def conv(src):
        return Pyx(src, names).convert()
    return conv


class Pyx(object):
    def __init__(self, src, names):
        self.src, self.names = src, names

    def convert(self):
        out = []
        lines = []
        # join parenthesised headers
        txt = re.sub(r'#[^\n]*', '', self.src)
        txt = re.sub(r'^@.*$', '', txt, flags=re.M)
        txt = re.sub(r'^ctypedef.*$|^cimport.*$|^from .* cimport.*$|^import.*$', '', txt, flags=re.M)

        def head(m):
            args = []
            types = []
            depth = 0
            cur = ''
            for ch in m.group(2) + ',':
                depth += ch in '[(' 
                depth -= ch in '])'
                if ch == ',' and depth == 0:
                    if cur.strip():
                        p = cur.split('=')[0].strip()
                        nm = re.search(r'(\w+)$', p).group(1)
                        args.append(nm)
                        types.append((nm, p[:-len(nm)].strip()))
                    cur = ''
                else:
                    cur += ch
            self.types[m.group(1)] = dict(types)
            return 'def %s(%s):' % (m.group(1), ', '.join(args))
        self.types = {}
        txt = re.sub(r'^c?p?def\s+(\w+)\s*\(((?:[^()]|\([^()]*\))*)\)\s*:', head, txt, flags=re.M)
        body = []
        fn = None
        for l in txt.splitlines():
            m = re.match(r'^def (\w+)', l)
            if m:
                fn = m.group(1)
            m = re.match(r'^(\s+)cdef\s+double\s*\*\s*(\w+)\s*=\s*<\s*double\s*\*\s*>\s*(\w+)\.data\s*$', l)
            if m:
                body.append('%s%s = %s' % m.groups())
                continue
            m = re.match(r'^(\s+)cdef\s+(?:np\.ndarray\[\w+(?:,[^\]]*)?\]|double\[[^\]]*\]|double|int|bint|long|Py_ssize_t)\s*(.*)$', l)
            if m:
                ty = re.match(r'^\s+cdef\s+(np\.ndarray|double\[|double|int|bint|long|Py_ssize_t)', l).group(1)
                decls = m.group(2)
                if '=' in decls:
                    nm = decls.split('=')[0].strip()
                    self.types[fn][nm] = ty
                    body.append(m.group(1) + decls)
                else:
                    for d in decls.split(','):
                        self.types[fn][d.strip()] = ty
                continue
            if 'cdef extern' in l:
                continue
            if 'cdef' in l:
                raise Unsupported('cython declaration: %s' % l.strip())
            body.append(l)
        try:
            tree = ast.parse('\n'.join(body))
        except SyntaxError as e:
            raise Unsupported('cython text: %s' % e)
        fs = [n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name in self.names]
        if len(fs) != len(self.names):
            raise Unsupported('cython functions %s not found' % (self.names,))
        pre = ast.parse('import numpy as np').body
        for f in fs:
            PyxBody(self.types[f.name]).visit(f)
        return pre + fs


class PyxBody(ast.NodeTransformer):
    def __init__(self, types):
        self.t = types

    def arr(self, n):
        return isinstance(n, ast.Name) and (self.t.get(n.id, '').startswith('np.ndarray') or self.t.get(n.id, '').startswith('double['))

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if self.arr(n.value) and isinstance(n.ctx, ast.Load) and not isinstance(n.slice, (ast.Slice, ast.Tuple)):
            return ast.copy_location(C('__nat_at__', n.value, K(0), K(None), n.slice), n)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        t = n.targets[0]
        if len(n.targets) == 1 and isinstance(t, ast.Subscript) and self.arr(t.value) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
            return ast.copy_location(ast.Expr(C('__nat_put__', t.value, n.value, K(0), K(None), t.slice)), n)
        if len(n.targets) == 1 and isinstance(t, ast.Name) and self.t.get(t.id) in ('int', 'long', 'bint', 'Py_ssize_t'):
            n.value = C('__nat_trunc__', n.value)
        if len(n.targets) == 1 and isinstance(t, ast.Name) and self.t.get(t.id) == 'double':
            n.value = C('__nat_real__', n.value)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Subscript):
            raise Unsupported('augmented element assignment')
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(C('__nat_div__', n.left, n.right), n)
        return n
