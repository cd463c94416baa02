"""the reference table of every attribute of every schema class and every '_schema' of /repo"""
import ast
import os
ROOT = '/repo/py_gnome/gnome/'
trees, bases = {}, {}
for d, _, fs in os.walk(ROOT):
    for f in sorted(fs):
        if f.endswith('.py'):
            p = os.path.join(d, f)
            m = 'gnome.' + p[len(ROOT):-3].replace('/', '.')
            m = m[:-9] if m.endswith('.__init__') else m
            trees[m] = ast.parse(open(p).read())
            for c in trees[m].body:
                if isinstance(c, ast.ClassDef):
                    bases[c.name] = [ast.unparse(b).split('.')[-1] for b in c.bases]


def is_schema(n, seen=()):
    return n.endswith('Schema') or n in bases and n not in seen and any(is_schema(b, seen + (n,)) for b in bases[n])


for m in sorted(trees):
    for c in trees[m].body:
        if isinstance(c, ast.ClassDef):
            if is_schema(c.name):
                print('%s.%s < %s' % (m, c.name, ', '.join(ast.unparse(b).split('.')[-1] for b in c.bases)))
            for s in c.body:
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                    if (is_schema(c.name) or s.targets[0].id == '_schema') and not any(isinstance(x, ast.Lambda) for x in ast.walk(s.value)):
                        print('%s.%s.%s = %s' % (m, c.name, s.targets[0].id, ast.unparse(s.value).replace('\n', ' ')))
