"""schema declarations: comparison with the reference table, and agreement with the classes they describe"""
import ast
import os
from .equiv import spelled_out, AnalysisError, ClassInfo
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFAULTS = {'save': 'True', 'update': 'True', 'read_only': 'False', 'test_equal': 'True', 'isdatafile': 'False', 'missing': 'drop',
            'default': 'null'}
SILENT = {'description', 'title'}


def norm(P, m, node, child):
    """canonical text of a schema node; child: it is a child of an ObjTypeSchema, so the defaults are filled in for it"""
    if isinstance(node, ast.Call):
        f = ast.unparse(node.func).split('.')[-1]
        f = {'Bool': 'Boolean', 'Str': 'String', 'Integer': 'Int'}.get(f, f)
        args = [norm(P, m, a, False) for a in node.args]
        kw = {k.arg: norm(P, m, k.value, False) for k in node.keywords if k.arg not in SILENT}
        if child:
            kw = {k: v for k, v in kw.items() if DEFAULTS.get(k) != v}
            if kw.get('read_only') == 'True':
                kw.pop('update', None)
        if f == 'Range':
            kw.update({k: v for k, v in zip(('min', 'max'), args)})
            args = []
        if f == 'OneOf' and args and node.args and isinstance(node.args[0], (ast.List, ast.Tuple, ast.Set)):
            args = ['{%s}' % ', '.join(sorted(norm(P, m, e, False) for e in node.args[0].elts))]
        return '%s(%s)' % (f, ', '.join(args + ['%s=%s' % x for x in sorted(kw.items(), key=str)]))
    if isinstance(node, (ast.List, ast.Tuple)):
        return '[%s]' % ', '.join(norm(P, m, e, False) for e in node.elts)
    if isinstance(node, ast.Attribute):
        return node.attr if isinstance(node.value, (ast.Name, ast.Attribute)) and not ast.unparse(node).startswith('self') else ast.unparse(node)
    if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
        return repr(float(node.value))
    return ast.unparse(node)


def words(text):
    return {n.id for n in ast.walk(ast.parse(text.replace('{', '[').replace('}', ']'), mode='eval')) if isinstance(n, ast.Name)}


def table(ctx):
    """every node of every schema is declared as in the reference table"""
    rule, P = 'R5', ctx.P
    rows = [r for r in open(os.path.join(HERE, 'specs', 'C12.schemas')).read().split('\n') if r]
    base = P.cls('gnome.persist.base_schema.ObjTypeSchema')
    vocab = set()
    for r in rows:
        if ' = ' in r:
            vocab |= {n.id for n in ast.walk(ast.parse(r.split(' = ', 1)[1], mode='eval')) if isinstance(n, ast.Name)}
            vocab |= {n.attr for n in ast.walk(ast.parse(r.split(' = ', 1)[1], mode='eval')) if isinstance(n, ast.Attribute)}
    for r in rows:
        if ' = ' not in r:
            q, bases = r.split(' < ')
            try:
                c = P.cls(q)
            except AnalysisError:
                ctx.unk(rule, q, 'schema not found', '')
                continue
            have = {k.name for k in P.mro(c)} | {ast.unparse(b).split('.')[-1] for k in P.mro(c) for b in k.node.bases}
            for b in bases.split(', '):
                ctx.check(b in have, rule, '%s < %s' % (q, b), '%s must have the attributes of %s' % (q, b),
                          '%s:%d' % (c.module.rel, c.node.lineno))
            continue
        where, text = r.split(' = ', 1)
        q, name = where.rsplit('.', 1)
        try:
            c = P.cls(q)
        except AnalysisError:
            ctx.unk(rule, where, 'class not found', '')
            continue
        got = P.class_attr(c, name)
        loc = '%s:%d' % (c.module.rel, c.node.lineno)
        if got is None:
            dyn = [x for k in P.mro(c) for x in ast.walk(k.node) if isinstance(x, (ast.Call,)) and ast.unparse(x.func).split('.')[-1]
                   in ('add', 'setattr', 'insert', 'extend', 'append')] if name != '_schema' else []
            known = any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(c.node))
            (ctx.unk if dyn or known else ctx.bad)(rule, where, '%s no longer declares %s' % (q, name), loc)
            continue
        k, node = got
        child = base in P.mro(c)
        loc = '%s:%d' % (k.module.rel, node.lineno)
        a = norm(P, k.module, spelled_out(P, c.module, ast.parse(text, mode='eval').body), child)
        b = norm(P, k.module, spelled_out(P, k.module, node), child)
        ctx.count('schema nodes compared')
        if a == b:
            ctx.ok(rule, where, loc)
        elif any(isinstance(x, ast.keyword) and x.arg is None for x in ast.walk(node)) or not isinstance(node, (ast.Call, ast.Name, ast.Attribute, ast.Constant, ast.List, ast.Tuple, ast.Dict)):
            ctx.unk(rule, where, 'declared as %s' % b[:200], loc)
        else:
            v = {n.id for n in ast.walk(spelled_out(P, k.module, node)) if isinstance(n, ast.Name)}
            (ctx.unk if v - vocab and not all(known_name(P, k.module, x) for x in v - vocab) else ctx.bad)(
                rule, where, 'must be %s, found %s' % (a[:300], b[:300]), loc)


def known_name(P, m, n):
    return P.lookup_in(m, n)[0] in ('cls', 'ext')
