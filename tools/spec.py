"""print functions of /repo in the format of sa.equiv.specs, without docstrings, comments and logging.
spec.py weatherers.cleanup.Skimmer.weather_elements weatherers.cleanup.Burn.* utilities.rand.*"""
import ast
import os
import sys
sys.path.insert(0, '/verif')
from sa import cyx, cpp
ROOT = '/repo/py_gnome/gnome/'


class T(ast.NodeTransformer):
    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return None
        t = ast.unparse(n)
        if 'logger' in t or t.startswith('print(') or 'warnings.warn' in t:
            return None
        return n

    def generic_visit(self, n):
        super().generic_visit(n)
        if hasattr(n, 'body') and isinstance(n.body, list) and not n.body:
            n.body = [ast.Pass()]
        return n

    def visit_Raise(self, n):
        if isinstance(n.exc, ast.Call):
            n.exc.args = []
            n.exc.keywords = []
        return n


for arg in sys.argv[1:]:
    parts = arg.split('.')
    for i in range(len(parts), 0, -1):
        p = ROOT + '/'.join(parts[:i]) + '.pyx'
        if os.path.exists(p):
            break
        p = ROOT + '/'.join(parts[:i]) + '.py'
        if os.path.exists(p):
            break
        p = ROOT + '/'.join(parts[:i]) + '/__init__.py'
        if os.path.exists(p):
            break
    if parts[0] == 'lib':
        i = 2
        p = '/repo/py_gnome/lib_gnome/%s.cpp' % parts[1]
        if not os.path.exists(p):
            p = '/repo/py_gnome/gnome/utilities/geometry/%s.c' % parts[1]
        tree = cpp.parse(p, '/repo/py_gnome/lib_gnome')[0]
    else:
        tree = cyx.parse(open(p).read()) if p.endswith('.pyx') else ast.parse(open(p).read())
    mod = 'gnome.' + '.'.join(parts[:i])
    rest = parts[i:]
    scope, pre = tree, mod
    while len(rest) > 1:
        scope = ([c for c in scope.body if isinstance(c, ast.ClassDef) and c.name == rest[0]] or [None])[0]
        if scope is None:
            break
        pre += '.' + rest[0]
        rest = rest[1:]
    if scope is None:
        print('no such class', arg, file=sys.stderr)
        continue
    if rest[0] == '=':
        def consts(pre, body):
            for c in body:
                if isinstance(c, ast.Assign) and len(c.targets) == 1 and isinstance(c.targets[0], ast.Name) and c.targets[0].id != '__all__' \
                        and not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.DictComp, ast.GeneratorExp)) for x in ast.walk(c.value)) \
                        and not (isinstance(c.value, ast.Call) and ast.unparse(c.value.func) in ('property', 'logging.getLogger', 'TypeVar')):
                    print('@ const %s.%s' % (pre, c.targets[0].id))
                    print(ast.unparse(c.value))
                    print()
                elif isinstance(c, ast.ClassDef):
                    consts(pre + '.' + c.name, c.body)
        consts(pre, scope.body)
        continue
    for c in scope.body:
        if isinstance(c, ast.FunctionDef) and rest[0] in ('*', c.name):
            if rest[0] == '*' and c.name in ('__repr__', '__str__'):
                continue
            deco = [ast.unparse(d) for d in c.decorator_list]
            c.decorator_list = []
            kind = 'func ' if scope is tree else 'getter ' if 'property' in deco else 'setter ' if any(d.endswith('.setter') for d in deco) else ''
            extra = [d for d in deco if d != 'property' and not d.endswith('.setter')]
            print('@ %s%s.%s%s' % (kind, pre, c.name, '   # %s' % extra if extra else ''))
            print(ast.unparse(T().visit(c)))
            print()
