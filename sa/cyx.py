"""Cython sources as Python syntax trees: C declarations, casts, addresses and types are taken away, the statements stay.

The translation is by token: no Cython compiler is run.  `&x` becomes addr(x), `<T>x` becomes x, `new T()` becomes T(),
`property x:` blocks become properties, cdef functions become functions.
"""
import ast
import io
import re
import tokenize

SKIP = {tokenize.COMMENT, tokenize.NL, tokenize.ENCODING, tokenize.ENDMARKER, tokenize.INDENT, tokenize.DEDENT, tokenize.NEWLINE}
OPEN, CLOSE = '([{', ')]}'
STRUCTS = {'WorldPoint3D', 'WorldPoint', 'VelocityRec', 'VelocityFRec', 'EmbedStruct', 'VelocityRec3D', 'WorldRect', 'DateTimeRec'}
BLOCKS = ('extern', 'struct', 'enum', 'union', 'cppclass', 'packed')


def logical(text):
    cur = []
    for t in tokenize.generate_tokens(io.StringIO(text).readline):
        if t.type in (tokenize.NEWLINE, tokenize.ENDMARKER):
            if cur:
                yield cur
            cur = []
        elif t.type not in SKIP:
            cur.append(t)


def split(ts):
    """split at commas outside brackets"""
    out, d = [[]], 0
    for t in ts:
        s = t[1]
        if s in OPEN:
            d += 1
        elif s in CLOSE:
            d -= 1
        if s == ',' and d == 0:
            out.append([])
        else:
            out[-1].append(t)
    return out


def top(ts, what):
    d = 0
    for i, t in enumerate(ts):
        if t[1] in OPEN:
            d += 1
        elif t[1] in CLOSE:
            d -= 1
        elif t[1] == what and d == 0:
            return i
    return None


def name_of(ts):
    """declared name: the last name outside brackets, `not None` left away"""
    ts = list(ts)
    if len(ts) > 2 and ts[-1][1] == 'None' and ts[-2][1] == 'not':
        ts = ts[:-2]
    d, n = 0, None
    for t in ts:
        if t[1] in OPEN:
            d += 1
        elif t[1] in CLOSE:
            d -= 1
        elif t[0] == tokenize.NAME and d == 0:
            n = t[1]
    return n


def expr(ts):
    """tokens of an expression or statement -> list of texts"""
    out = []
    i, n = 0, len(ts)
    prev = None
    while i < n:
        ty, s = ts[i][0], ts[i][1]
        unary = prev is None or (prev[0] == tokenize.OP and prev[1] not in CLOSE) or prev[1] in ('return', 'in', 'and', 'or', 'not', 'is', 'if', 'else', 'yield')
        if s == '<' and unary:
            j = i + 1
            while j < n and ts[j][1] != '>':
                j += 1
            i = j + 1
            continue
        if s == '&' and unary:
            j = i + 1
            while j < n:
                if ts[j][0] == tokenize.NAME:
                    j += 1
                if j < n and ts[j][1] == '.':
                    j += 1
                    continue
                if j < n and ts[j][1] in '([':
                    d = 0
                    while j < n:
                        if ts[j][1] in OPEN:
                            d += 1
                        elif ts[j][1] in CLOSE:
                            d -= 1
                        j += 1
                        if d == 0:
                            break
                    continue
                break
            out += ['addr', '('] + expr(ts[i + 1:j]) + [')']
            prev = (tokenize.OP, ')')
            i = j
            continue
        if s in ('*', '**') and i + 1 < n and ts[i + 1][1] == ')':
            i += 1
            continue
        if s == 'new' and i + 1 < n and ts[i + 1][0] == tokenize.NAME:
            i += 1
            continue
        out.append('None' if s == 'NULL' else s)
        prev = (ty, s)
        i += 1
    return out


def params(ts):
    out = []
    for p in split(ts):
        if not p:
            continue
        if p[0][1] in ('*', '**'):
            out.append(''.join(t[1] for t in p))
            continue
        e = top(p, '=')
        if e is None:
            out.append(name_of(p))
        else:
            out.append(name_of(p[:e]) + ' = ' + ' '.join(expr(p[e + 1:])))
    return ', '.join(x for x in out if x)


def funcdef(ts):
    """def / cdef / cpdef line -> def line"""
    a = next(i for i, t in enumerate(ts) if t[1] == '(')
    d = 0
    for b in range(a, len(ts)):
        if ts[b][1] in OPEN:
            d += 1
        elif ts[b][1] in CLOSE:
            d -= 1
        if d == 0:
            break
    rest = ts[b + 1:]
    c = top(rest, ':')
    tail = [] if c is None else rest[c + 1:]
    return 'def %s(%s):' % (ts[a - 1][1], params(ts[a + 1:b])) + (' ' + ' '.join(expr(tail)) if tail else '')


def line(ts):
    """one logical line -> text, None to drop it, or 'BLOCK' to drop it with its block"""
    w = [t[1] for t in ts]
    if w[0] == 'cimport' or w[0] in ('include', 'DEF', 'IF', 'ELSE'):
        return None
    if w[0] == 'from' and 'cimport' in w:
        if w[1] == '.' or w[1] == 'gnome':
            if w[-1] == '*':
                return None
            return ' '.join('import' if x == 'cimport' else x for x in w)
        return None
    if w[0] == 'ctypedef':
        return 'BLOCK' if w[-1] == ':' else None
    if w[0] in ('cdef', 'cpdef'):
        if len(w) > 1 and w[1] in BLOCKS or 'cppclass' in w:
            return 'BLOCK'
        if w[1] == 'class' or (w[1] in ('public', 'api') and w[2] == 'class'):
            i = w.index('class')
            return ' '.join(w[i:])
        if w[1] == ':':
            return 'if True :'
        a, e = top_open(ts), top(ts, '=')
        if w[-1] == ':' and a is not None and (e is None or a < e):
            return funcdef(ts)
        return decl(ts[1:])
    if w[0] in ('def', 'async'):
        return funcdef(ts)
    if w[0] == 'property' and len(w) == 3 and w[2] == ':':
        return 'class __property_%s :' % w[1]
    if w[0] == 'print' and len(w) > 1 and w[1] != '(':
        return 'pass'
    return ' '.join(expr(ts))


def top_open(ts):
    for i, t in enumerate(ts):
        if t[1] == '(':
            return i
    return None


def decl(ts):
    out = []
    for p in split(ts):
        e = top(p, '=')
        if e is not None:
            out.append('%s = %s' % (name_of(p[:e]), ' '.join(expr(p[e + 1:]))))
        elif len(p) == 2 and ts[0][1] in STRUCTS:
            out.append('%s = %s()' % (name_of(p), ts[0][1]))
        elif len(p) == 1 and ts[0][1] in STRUCTS:
            out.append('%s = %s()' % (p[0][1], ts[0][1]))
    return '; '.join(out) if out else 'pass'


def to_python(text):
    lines, at, skip = [], 1, None
    for ts in logical(text):
        row, col = ts[0].start
        if skip is not None:
            if col > skip:
                continue
            skip = None
        s = line(ts)
        if s == 'BLOCK':
            skip = col
            s = 'pass'
        if s is None:
            s = 'pass'
        while at < row:
            lines.append('')
            at += 1
        lines.append(' ' * col + s)
        at += 1 + s.count('\n')
    return '\n'.join(lines) + '\n'


class Props(ast.NodeTransformer):
    def visit_ClassDef(self, node):
        self.generic_visit(node)
        body = []
        for st in node.body:
            m = re.match('__property_(.*)', st.name) if isinstance(st, ast.ClassDef) else None
            if not m:
                body.append(st)
                continue
            for f in st.body:
                if isinstance(f, ast.FunctionDef) and f.name in ('__get__', '__set__', '__del__'):
                    k = f.name
                    f.name = m.group(1)
                    nm = ast.Name(id=f.name, ctx=ast.Load())
                    f.decorator_list = [ast.Name(id='property', ctx=ast.Load()) if k == '__get__' else
                                        ast.Attribute(value=nm, attr='setter' if k == '__set__' else 'deleter', ctx=ast.Load())]
                    body.append(ast.fix_missing_locations(f))
        node.body = body or [ast.Pass()]
        return node


def is_addr(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'addr' and len(e.args) == 1


class Outs(ast.NodeTransformer):
    """r = f(a, &x, &y) with local x, y: r, x, y = f(a, x, y)"""

    def visit_FunctionDef(self, node):
        self.set = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        self.set |= {a.arg for a in node.args.args}
        self.generic_visit(node)
        return node

    def outs(self, call):
        names = []
        for i, a in enumerate(call.args):
            if is_addr(a) and isinstance(a.args[0], ast.Name):
                x = a.args[0].id
                names.append(x)
                call.args[i] = ast.Name(id=x, ctx=ast.Load()) if x in self.set else ast.Constant(value='&')
        return names

    def visit_Assign(self, node):
        if isinstance(node.value, ast.Call) and len(node.targets) == 1:
            names = self.outs(node.value)
            if names:
                node.targets = [ast.Tuple(elts=[node.targets[0]] + [ast.Name(id=x, ctx=ast.Store()) for x in names], ctx=ast.Store())]
        return node

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Call):
            names = self.outs(node.value)
            if names:
                return ast.copy_location(ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id='_', ctx=ast.Store())] + [
                    ast.Name(id=x, ctx=ast.Store()) for x in names], ctx=ast.Store())], value=node.value), node)
        return node


class NoPass(ast.NodeTransformer):
    def generic_visit(self, node):
        super().generic_visit(node)
        b = getattr(node, 'body', None)
        if isinstance(b, list) and len(b) > 1:
            node.body = [x for x in b if not isinstance(x, ast.Pass)] or [b[0]]
        return node


def parse(text):
    tree = Outs().visit(Props().visit(NoPass().visit(ast.parse(to_python(text)))))
    return ast.fix_missing_locations(tree)
