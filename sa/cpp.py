"""C and C++ sources as Python syntax trees, from clang's syntax tree (clang -ast-dump=json; nothing is compiled or run).

Members of this are attributes of self, records are objects (copied where C copies them), pointers to records are the
records, other pointers are indexed, &scalar passed to a call is an extra result of the call.  A function using a construct
outside the vocabulary (goto, lambdas, …) is left out: contracts on it are undecided.
"""
import ast
import copy
import json
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
from .cyx import Outs

FILES = {}


class Unsupported(Exception):
    pass


def N(s):
    return ast.Name(id=s, ctx=ast.Load())


def call(f, *args):
    return ast.Call(func=N(f) if isinstance(f, str) else f, args=list(args), keywords=[])


def qt(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType') or ''


INT = re.compile(r'^(const )?(volatile )?(unsigned |signed )?(char|short|int|long|long long|unsigned|bool|int\d+_t|uint\d+_t)( int)?$')
FLT = re.compile(r'^(const )?(long )?(float|double)$')


def is_int(n):
    return bool(INT.match(qt(n))) or qt(n).startswith('enum ')


def is_record(t):
    t = t.replace('const ', '').replace('struct ', '').strip()
    return bool(t) and '*' not in t and '&' not in t and '[' not in t and not INT.match(t) and not FLT.match(t) and '(' not in t \
        and t not in ('void', 'bool', 'unsigned int', 'unsigned long', 'unsigned short', 'unsigned char', 'long long', 'unsigned long long', 'size_t') \
        and not t.startswith('enum ')


BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '%': ast.Mod, '<<': ast.LShift, '>>': ast.RShift, '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor}
CMP = {'<': ast.Lt, '>': ast.Gt, '<=': ast.LtE, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq}


class Fn:
    def __init__(self, over):
        self.names, self.used = {}, set()
        self.over = over
        self.labels, self.depth = {}, 0
        self.pre = None      # statements to run before the current one (side effects inside expressions)

    # ---- names
    def declare(self, d):
        n = base = re.sub(r'\W', '_', d.get('name', '_anon')) or '_anon'
        if n in ('in', 'is', 'not', 'lambda', 'from', 'pass', 'def', 'del', 'global', 'with', 'as', 'yield', 'None', 'self', 'and', 'or', 'print'):
            n = base = n + '_'
        k = 1
        while n in self.used:
            k += 1
            n = '%s_%d' % (base, k)
        self.used.add(n)
        self.names[d['id']] = n
        return n

    # ---- expressions
    def e(self, n):
        f = getattr(self, 'e_' + n['kind'], None)
        if f is None:
            raise Unsupported(n['kind'])
        r = f(n)
        return r

    def inner(self, n, i=0):
        return n['inner'][i]

    def through(self, n):
        return self.e(self.inner(n))

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = through

    def e_ImplicitCastExpr(self, n):
        k = n.get('castKind')
        v = self.e(self.inner(n))
        if k == 'FloatingToIntegral':
            return call('int', v)
        if k == 'NullToPointer':
            return ast.Constant(value=None)
        return v

    def e_CStyleCastExpr(self, n):
        return self.e_ImplicitCastExpr(n)

    e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_CXXDynamicCastExpr = e_CStyleCastExpr

    def e_IntegerLiteral(self, n):
        return ast.Constant(value=int(n['value']))

    def e_FloatingLiteral(self, n):
        v = float(n['value'])
        return ast.Constant(value=int(v) if v == int(v) and abs(v) < 1e15 else v)

    def e_CXXBoolLiteralExpr(self, n):
        return ast.Constant(value=bool(n['value']))

    def e_StringLiteral(self, n):
        return ast.Constant(value=n['value'])

    def e_CharacterLiteral(self, n):
        return ast.Constant(value=int(n['value']))

    def e_GNUNullExpr(self, n):
        return ast.Constant(value=None)

    e_CXXNullPtrLiteralExpr = e_GNUNullExpr

    def e_CXXThisExpr(self, n):
        return N('self')

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            return N(d['name'])
        return N(self.names.get(d['id'], self.over.get(d['id'], d.get('name', '_'))))

    def e_MemberExpr(self, n):
        name = self.over.get(n.get('referencedMemberDecl'), n['name'])
        name = re.sub(r'\W', '_', name)
        if not n.get('inner'):
            return N(name)
        return ast.Attribute(value=self.e(self.inner(n)), attr=name, ctx=ast.Load())

    def e_ArraySubscriptExpr(self, n):
        return ast.Subscript(value=self.e(self.inner(n)), slice=self.e(self.inner(n, 1)), ctx=ast.Load())

    def e_UnaryOperator(self, n):
        op, x = n['opcode'], self.inner(n)
        if op == '&':
            t = qt(x)
            v = self.e(x)
            if is_record(t) and not isinstance(v, ast.Subscript):
                return v
            return call('addr', v)
        if op == '*':
            v = self.e(x)
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'addr':
                return v.args[0]
            if is_record(qt(n)):
                return v
            return ast.Subscript(value=v, slice=ast.Constant(value=0), ctx=ast.Load())
        if op == '!':
            return ast.UnaryOp(op=ast.Not(), operand=self.e(x))
        if op == '-':
            v = self.e(x)
            if isinstance(v, ast.Constant) and isinstance(v.value, (int, float)) and not isinstance(v.value, bool):
                return ast.Constant(value=-v.value)
            return ast.UnaryOp(op=ast.USub(), operand=v)
        if op == '+':
            return self.e(x)
        if op == '~':
            return ast.UnaryOp(op=ast.Invert(), operand=self.e(x))
        if op in ('++', '--'):
            t = self.e(x)
            upd = ast.AugAssign(target=self.store(t), op=ast.Add() if op == '++' else ast.Sub(), value=ast.Constant(value=1))
            if self.pre is None:
                raise Unsupported('side effect in condition')
            if n.get('isPostfix'):
                tmp = '_old%d' % (len(self.used))
                self.used.add(tmp)
                self.pre.append(ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=self.e(x)))
                self.pre.append(upd)
                return N(tmp)
            self.pre.append(upd)
            return self.e(x)
        if op == '__extension__':
            return self.e(x)
        raise Unsupported('unary ' + op)

    def store(self, t):
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'addr' and len(t.args) == 1:
            t = t.args[0]
        if isinstance(t, (ast.Name, ast.Attribute, ast.Subscript)):
            t.ctx = ast.Store()
            return t
        raise Unsupported('assignment target')

    def e_BinaryOperator(self, n):
        op, a, b = n['opcode'], self.inner(n), self.inner(n, 1)
        if op in CMP:
            return ast.Compare(left=self.e(a), ops=[CMP[op]()], comparators=[self.e(b)])
        if op in ('&&', '||'):
            l = self.e(a)
            keep, self.pre = self.pre, None
            r = self.e(b)
            self.pre = keep
            return ast.BoolOp(op=ast.And() if op == '&&' else ast.Or(), values=[l, r])
        if op == '=':
            if self.pre is None:
                raise Unsupported('assignment in condition')
            v = self.e(b)
            t = self.e(a)
            self.pre.append(ast.Assign(targets=[self.store(copy.deepcopy(t))], value=v))
            return t
        if op == ',':
            if self.pre is None:
                raise Unsupported('comma')
            v = self.e(a)
            self.effect(v)
            return self.e(b)
        if op in BIN:
            o = ast.FloorDiv if op == '/' and is_int(a) and is_int(b) else BIN[op]
            return ast.BinOp(left=self.e(a), op=o(), right=self.e(b))
        raise Unsupported('binary ' + op)

    def effect(self, v):
        if not isinstance(v, (ast.Name, ast.Constant, ast.Attribute, ast.Subscript)):
            self.pre.append(ast.Expr(value=v))

    def e_CompoundAssignOperator(self, n):
        if self.pre is None:
            raise Unsupported('assignment in condition')
        op = n['opcode'][:-1]
        a, b = self.inner(n), self.inner(n, 1)
        o = ast.FloorDiv if op == '/' and is_int(a) and is_int(b) else BIN[op]
        t = self.e(a)
        v = ast.BinOp(left=copy.deepcopy(t), op=o(), right=self.e(b))
        if is_int(a) and op in '+-*/' and FLT.match(n.get('computeResultType', {}).get('qualType', '')):
            v = call('int', v)
        self.pre.append(ast.Assign(targets=[self.store(copy.deepcopy(t))], value=v))
        return t

    def e_ConditionalOperator(self, n):
        c = self.e(self.inner(n))
        keep, self.pre = self.pre, None
        a, b = self.e(self.inner(n, 1)), self.e(self.inner(n, 2))
        self.pre = keep
        return ast.IfExp(test=c, body=a, orelse=b)

    def args(self, ns):
        return [self.e(a) for a in ns if a['kind'] != 'CXXDefaultArgExpr']

    def e_CallExpr(self, n):
        f = self.e(self.inner(n))
        a = self.args(n['inner'][1:])
        if isinstance(f, ast.Name):
            m = {'fabs': 'abs', 'labs': 'abs', 'fabsf': 'abs', 'sqrtf': 'sqrt', 'fmin': 'min', 'fmax': 'max'}
            f = N(m.get(f.id, f.id))
            if f.id in MATH:
                f = ast.Attribute(value=N('math'), attr=f.id, ctx=ast.Load())
            if f.id == 'memset' if isinstance(f, ast.Name) else False:
                t = a[0].args[0] if isinstance(a[0], ast.Call) and isinstance(a[0].func, ast.Name) and a[0].func.id == 'addr' else a[0]
                if self.pre is not None and isinstance(t, ast.Attribute) and isinstance(a[1], ast.Constant):
                    self.pre.append(ast.Assign(targets=[self.store(t)], value=call('allbytes', a[1])))
                    return ast.Constant(value=None)
        return ast.Call(func=f, args=a, keywords=[])

    e_CXXMemberCallExpr = e_CallExpr

    def e_CXXOperatorCallExpr(self, n):
        name = self.inner(n).get('inner', [{}])[0].get('referencedDecl', {}).get('name', '')
        a = n['inner'][1:]
        if name == 'operator=' and self.pre is not None:
            v = self.e(a[1])
            t = self.e(a[0])
            self.pre.append(ast.Assign(targets=[self.store(copy.deepcopy(t))], value=self.copied(a[1], v)))
            return t
        if name == 'operator[]':
            return ast.Subscript(value=self.e(a[0]), slice=self.e(a[1]), ctx=ast.Load())
        if name == 'operator==' or name == 'operator!=':
            return ast.Compare(left=self.e(a[0]), ops=[ast.Eq() if name == 'operator==' else ast.NotEq()], comparators=[self.e(a[1])])
        return call(re.sub(r'\W', '_', 'op_' + OPN.get(name, 'other')), *[self.e(x) for x in a])

    def copied(self, n, v):
        if isinstance(v, (ast.Name, ast.Attribute, ast.Subscript)):
            return ast.Call(func=ast.Attribute(value=N('copy'), attr='copy', ctx=ast.Load()), args=[v], keywords=[])
        return v

    def e_CXXConstructExpr(self, n):
        inn = [x for x in n.get('inner', []) if x['kind'] != 'CXXDefaultArgExpr']
        if len(inn) == 1:
            return self.copied(inn[0], self.e(inn[0]))
        return call(re.sub(r'\W+', '_', qt(n)) or '_', *[self.e(x) for x in inn])

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_InitListExpr(self, n):
        fields = [self.e(x) for x in n.get('inner', [])]
        return call(re.sub(r'\W+', '_', qt(n)), *fields)

    def e_ImplicitValueInitExpr(self, n):
        return ast.Constant(value=0)

    def e_UnaryExprOrTypeTraitExpr(self, n):
        t = n.get('argType', {}).get('qualType') or (qt(n['inner'][0]) if n.get('inner') else '')
        return call('sizeof', ast.Constant(value=t))

    def e_CXXNewExpr(self, n):
        inn = n.get('inner', [])
        return call('new', ast.Constant(value=qt(n)), *[self.e(x) for x in inn])

    def e_CXXDeleteExpr(self, n):
        return call('delete', self.e(self.inner(n)))

    def e_CXXDefaultArgExpr(self, n):
        return ast.Constant(value='default')

    # ---- statements
    def block(self, n):
        return self.s(n) or [ast.Pass()]

    def s(self, n):
        f = getattr(self, 's_' + n['kind'], None)
        if f:
            return f(n)
        keep, self.pre = self.pre, []
        v = self.e(n)
        self.effect(v)
        out, self.pre = self.pre, keep
        return out

    def s_CompoundStmt(self, n):
        return [x for c in n.get('inner', []) for x in self.s(c)]

    def s_NullStmt(self, n):
        return []

    def s_DeclStmt(self, n):
        out = []
        for d in n['inner']:
            if d['kind'] != 'VarDecl':
                continue
            nm = self.declare(d)
            inn = [x for x in d.get('inner', []) if 'Attr' not in x['kind']]
            if not inn:
                if '[' in qt(d):
                    out.append(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=call('carray', ast.Constant(value=qt(d)))))
                elif is_record(qt(d)):
                    out.append(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=call(re.sub(r'\W+', '_', qt(d)))))
                elif '*' not in qt(d):
                    out.append(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=ast.Constant(value='?' + nm)))
                continue
            keep, self.pre = self.pre, []
            v = self.e(inn[0])
            out += self.pre
            self.pre = keep
            out.append(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=v))
        return out

    def cond(self, n):
        """(statements before, expression)"""
        keep, self.pre = self.pre, []
        v = self.e(n)
        pre, self.pre = self.pre, keep
        return pre, v

    def s_IfStmt(self, n):
        inn = n['inner']
        pre, c = self.cond(inn[0])
        return pre + [ast.If(test=c, body=self.block(inn[1]), orelse=self.s(inn[2]) if len(inn) > 2 else [])]

    def s_WhileStmt(self, n):
        pre, c = self.cond(n['inner'][0])
        body = self.block(n['inner'][1])
        if pre:
            return [ast.While(test=ast.Constant(value=True), body=pre + [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=c), body=[ast.Break()], orelse=[])] + body, orelse=[])]
        return [ast.While(test=c, body=body, orelse=[])]

    def s_DoStmt(self, n):
        body = self.block(n['inner'][0])
        if any(isinstance(x, ast.Continue) for b in body for x in ast.walk(b)):
            raise Unsupported('continue in do')
        pre, c = self.cond(n['inner'][1])
        if isinstance(c, ast.Constant) and not c.value:
            if any(isinstance(x, ast.Break) for b in body for x in ast.walk(b)):
                raise Unsupported('break in do')
            return body
        return [ast.While(test=ast.Constant(value=True), body=body + pre + [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=c), body=[ast.Break()], orelse=[])], orelse=[])]

    def s_ForStmt(self, n):
        init, _, cond, inc, body = n['inner']
        pre = self.s(init) if init.get('kind') else []
        cpre, c = self.cond(cond) if cond.get('kind') else ([], ast.Constant(value=True))
        b = self.block(body)
        step = self.s(inc) if inc.get('kind') else []
        # for (i = a; i < n; i++)
        if len(pre) == 1 and isinstance(pre[0], ast.Assign) and isinstance(pre[0].targets[0], ast.Name) and isinstance(c, ast.Compare) \
                and not cpre and isinstance(c.left, ast.Name) and c.left.id == pre[0].targets[0].id and isinstance(c.ops[0], (ast.Lt, ast.LtE)):
            i = c.left.id
            one = [x for x in step if isinstance(x, ast.AugAssign)]
            ok = len(one) == 1 and isinstance(one[0].op, ast.Add) and isinstance(one[0].target, ast.Name) and one[0].target.id == i
            ok = ok and all(x is one[0] or (isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id.startswith('_old')) for x in step)
            stores = {x.id for st in b for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            bound = c.comparators[0]
            fixed = not any(isinstance(x, ast.Name) and x.id in stores for x in ast.walk(bound)) and not any(
                isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'addr' and isinstance(x.args[0], ast.Name) and x.args[0].id == i
                for st in b for x in ast.walk(st))
            if ok and i not in stores and fixed:
                if isinstance(c.ops[0], ast.LtE):
                    bound = ast.BinOp(left=bound, op=ast.Add(), right=ast.Constant(value=1))
                return [ast.For(target=ast.Name(id=i, ctx=ast.Store()), iter=call('range', pre[0].value, bound), body=b, orelse=[])]

        step = [x for x in step if not (isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id.startswith('_old')
                                        and not any(isinstance(y, ast.Name) and y.id == x.targets[0].id and isinstance(y.ctx, ast.Load) for z in step for y in ast.walk(z)))]

        class Cont(ast.NodeTransformer):
            def visit_Continue(self, x):
                return [*[ast.parse(ast.unparse(ast.fix_missing_locations(ast.Module(body=[y], type_ignores=[])))).body[0] for y in step], x]

            def visit_While(self, x):
                return x
            visit_For = visit_While
        b = [y for x in b for y in (lambda r: r if isinstance(r, list) else [r])(Cont().visit(x))]
        stop = cpre + [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=c), body=[ast.Break()], orelse=[])] if cpre else []
        return pre + [ast.While(test=ast.Constant(value=True) if cpre else c, body=stop + b + step, orelse=[])]

    def s_ReturnStmt(self, n):
        if not n.get('inner'):
            return [ast.Return(value=None)]
        pre, v = self.cond(n['inner'][0])
        return pre + [ast.Return(value=v)]

    def s_LabelStmt(self, n):
        return self.s(n['inner'][0])

    def s_GotoStmt(self, n):
        tail = self.labels.get(n.get('targetLabelDeclId'))
        if tail is None or self.depth > 3:
            raise Unsupported('goto')
        self.depth += 1
        out = [x for c in tail for x in self.s(c)]
        self.depth -= 1
        if not (out and isinstance(out[-1], ast.Return)):
            out.append(ast.Return(value=None))
        return out

    def find_labels(self, body):
        inn = body.get('inner', [])
        for i, x in enumerate(inn):
            while x['kind'] == 'LabelStmt':
                self.labels[x['declId']] = [x] + inn[i + 1:]
                x = x['inner'][0]

    def s_CXXTryStmt(self, n):
        hs = []
        for h in n['inner'][1:]:
            d, b = h['inner'][0], h['inner'][-1]
            nm = self.declare(d) if d.get('kind') == 'VarDecl' else None
            hs.append(ast.ExceptHandler(type=N('Exception'), name=nm, body=self.block(b)))
        return [ast.Try(body=self.block(n['inner'][0]), handlers=hs, orelse=[], finalbody=[])]

    def s_BreakStmt(self, n):
        return [ast.Break()]

    def s_ContinueStmt(self, n):
        return [ast.Continue()]

    def s_SwitchStmt(self, n):
        pre, v = self.cond(n['inner'][0])
        cases, cur = [], None
        for st in n['inner'][1].get('inner', []):
            labels = []
            while st['kind'] in ('CaseStmt', 'DefaultStmt'):
                if st['kind'] == 'CaseStmt':
                    labels.append(self.e(st['inner'][0]))
                    st = st['inner'][1]
                else:
                    labels.append(None)
                    st = st['inner'][0]
            if labels:
                if cur is not None and not cur[2]:
                    raise Unsupported('fall through')
                cur = [labels, [], False]
                cases.append(cur)
            if cur is None:
                raise Unsupported('switch')
            if st['kind'] == 'BreakStmt':
                cur[2] = True
            else:
                x = self.s(st)
                if x and isinstance(x[-1], ast.Break):
                    x, cur[2] = x[:-1], True
                if any(isinstance(y, ast.Break) for b in x for y in ast.walk(b)):
                    raise Unsupported('break in switch')
                if x and isinstance(x[-1], ast.Return):
                    cur[2] = True
                cur[1] += x
        out = []
        for labels, body, _ in reversed(cases):
            if None in labels:
                out = body
            else:
                t = [ast.Compare(left=v, ops=[ast.Eq()], comparators=[l]) for l in labels]
                out = [ast.If(test=t[0] if len(t) == 1 else ast.BoolOp(op=ast.Or(), values=t), body=body or [ast.Pass()], orelse=out)]
        return pre + out


MATH = {'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'pow', 'floor', 'ceil', 'atan2', 'asin', 'acos', 'atan', 'fmod', 'log10'}
OPN = {'operator+': 'add', 'operator-': 'sub', 'operator*': 'mul', 'operator/': 'div', 'operator<': 'lt', 'operator>': 'gt', 'operator()': 'call',
       'operator<<': 'shl', 'operator>>': 'shr', 'operator+=': 'iadd'}


def docs(text):
    d, i, gap = json.JSONDecoder(), 0, re.compile(r'\s*')
    while True:
        i = gap.match(text, i).end()
        if i >= len(text):
            return
        o, i = d.raw_decode(text, i)
        yield o


def dump(path, name, inc):
    cmd = ['clang' if path.endswith('.c') else 'clang++', '-DpyGNOME=1', '-w', '-fsyntax-only', '-I', inc, '-Xclang', '-ast-dump=json',
           '-Xclang', '-ast-dump-filter=' + name, path]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120, cwd=os.path.dirname(path))
    if r.returncode:
        raise Unsupported('clang: cannot parse ' + path)
    return list(docs(r.stdout))


def candidates(path):
    """names of the classes and free functions the file defines"""
    t = open(path, encoding='utf-8', errors='replace').read()
    t = re.sub(r'/\*.*?\*/', lambda m: '\n' * m.group(0).count('\n'), t, flags=re.S)
    t = re.sub(r'//[^\n]*', '', t)
    cls = set(re.findall(r'^(?=\w)[\w:*&<> \t]*?\b(\w+)::~?\w+\s*\(', t, flags=re.M)) - {'std'}
    fun = set(re.findall(r'^[A-Za-z_][\w*& \t]*?[\s*&](\w+)\s*\([^;{}]*\)\s*\{', t, flags=re.M))
    return sorted(cls), sorted(f for f in fun if f not in ('if', 'for', 'while', 'switch', 'main'))


def body_of(d):
    for x in d.get('inner', []):
        if x['kind'] == 'CompoundStmt':
            return x
    return None


def parse(path, inc, only=None):
    """module tree of a source file and the functions that could not be translated"""
    cls, fun = candidates(path)
    names = [x for x in cls + fun if not only or x in only]
    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(lambda x: dump(path, x, inc), names))
    defs = []
    for name, ds in zip(names, got):
        over, parent, items, ids, count = {}, {}, [], set(), {}

        def rec(x, owner):
            if x.get('kind') == 'CXXRecordDecl':
                parent[x['id']] = x.get('name')
                for y in x.get('inner', []):
                    rec(y, x.get('name'))
            elif x.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'FunctionDecl'):
                if owner:
                    parent[x['id']] = owner
                items.append((x, owner))
        for d in ds:
            rec(d, None)
        # overloads: name, name__2, ...
        for x, owner in items:
            if x['id'] in ids or 'name' not in x:
                continue
            ids.add(x['id'])
            prev = x.get('previousDecl')
            owner = owner or parent.get(prev) or parent.get(x.get('parentDeclContextId'))
            nm = {'CXXConstructorDecl': '__init__', 'CXXDestructorDecl': '__del__'}.get(x['kind']) or re.sub(r'\W', '_', x['name'])
            if prev in over:
                u = over[prev]
            else:
                count[(owner, nm)] = count.get((owner, nm), 0) + 1
                u = nm if count[(owner, nm)] == 1 else '%s__%d' % (nm, count[(owner, nm)])
            over[x['id']] = u
            if body_of(x) is not None and (owner == name or (owner is None and x['name'] == name and x['kind'] == 'FunctionDecl')):
                defs.append((x, owner, u, over))
    mod, cdefs, bad = [ast.Import(names=[ast.alias(name='math'), ast.alias(name='copy')])], {}, {}
    for x, owner, u, over in defs:
        loc = x.get('loc', {})
        loc = loc.get('expansionLoc', loc)
        f = Fn(over)
        try:
            ps = ['self'] if owner else []
            for p in x.get('inner', []):
                if p['kind'] == 'ParmVarDecl':
                    ps.append(f.declare(dict(p, name=p.get('name', '_unused%d' % len(ps)))))
            f.find_labels(body_of(x))
            body = f.block(body_of(x))
            fd = ast.FunctionDef(name=u, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in ps], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                 body=body, decorator_list=[])
            # a round trip through text gives every node its own identity
            fd = ast.parse(ast.unparse(ast.fix_missing_locations(fd))).body[0]
            fd = Outs().visit(fd)
            fd.lineno = loc.get('line', 1)
        except (Unsupported, KeyError, IndexError, TypeError, ValueError) as e:
            bad[(owner + '.' if owner else '') + u] = '%s: %s' % (type(e).__name__, e)
            continue
        if owner:
            cdefs.setdefault(owner, []).append(fd)
        else:
            mod.append(fd)
    for c, fs in cdefs.items():
        mod.append(ast.ClassDef(name=c, bases=[], keywords=[], body=fs, decorator_list=[]))
    return ast.fix_missing_locations(Pointers().visit(ast.Module(body=mod, type_ignores=[]))), bad


class Pointers(ast.NodeTransformer):
    """a pointer compared with nil is its truth value"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            for x, o in ((n.left, n.comparators[0]), (n.comparators[0], n.left)):
                if isinstance(o, ast.Constant) and o.value is None:
                    if isinstance(n.ops[0], (ast.Is, ast.Eq)):
                        return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=x), n)
                    if isinstance(n.ops[0], (ast.IsNot, ast.NotEq)):
                        return ast.copy_location(call('bool', x), n)
        return n
