"""Program model of /repo/py_gnome/gnome: modules, imports, classes, MRO, properties."""
import ast
import os
import tokenize
import subprocess
from . import cyx, cpp

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.join(REPO, 'py_gnome')


class AnalysisError(Exception):
    pass


class FuncInfo:
    def __init__(self, node, module, cls=None, kind='def'):
        self.node, self.module, self.cls, self.kind = node, module, cls, kind
        self.name = node.name

    @property
    def qualname(self):
        return '.'.join(x for x in (self.module.name, self.cls.name if self.cls else None, self.name) if x)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return '<F %s>' % self.qualname


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods = {}      # plain functions
        self.getters, self.setters, self.deleters = {}, {}, {}
        self.attrs = {}        # class level assignments name -> value node
        self.decorated = {}
        for st in _flat(node.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = 'def'
                for d in st.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ('property', 'lazyproperty', 'cached_property'):
                        kind = 'get'
                    elif isinstance(d, ast.Attribute) and d.attr == 'cached_property':
                        kind = 'get'
                    elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                        kind = 'set'
                    elif isinstance(d, ast.Attribute) and d.attr == 'deleter':
                        kind = 'del'
                    elif isinstance(d, ast.Attribute) and d.attr == 'getter':
                        kind = 'get'
                    elif isinstance(d, ast.Name) and d.id == 'staticmethod':
                        kind = 'static'
                    elif isinstance(d, ast.Name) and d.id == 'classmethod':
                        kind = 'class'
                f = FuncInfo(st, module, self, kind)
                if kind == 'get':
                    self.getters[st.name] = f
                elif kind == 'set':
                    self.setters[st.name] = f
                elif kind == 'del':
                    self.deleters[st.name] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.attrs[st.target.id] = st.value
        # x = property(getter, setter)
        for k, v in list(self.attrs.items()):
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
                names = [a for a in v.args]
                kws = {k.arg: k.value for k in v.keywords}
                g = names[0] if names else kws.get('fget')
                s = names[1] if len(names) > 1 else kws.get('fset')
                for node, tab in ((g, self.getters), (s, self.setters)):
                    if isinstance(node, ast.Name) and node.id in self.methods:
                        tab[k] = self.methods[node.id]
                    elif isinstance(node, ast.Lambda):
                        fd = ast.FunctionDef(name=k, args=node.args, body=[ast.copy_location(ast.Return(value=node.body), node)],
                                             decorator_list=[], lineno=node.lineno, col_offset=0)
                        tab[k] = FuncInfo(fd, module, self)
        self.bases = []
        self._foreign = None
        self._mro = None

    @property
    def qualname(self):
        return self.module.name + '.' + self.name

    def __repr__(self):
        return '<C %s>' % self.qualname


def _flat(body):
    for st in body:
        if isinstance(st, ast.If):
            yield from _flat(st.body)
            yield from _flat(st.orelse)
        elif isinstance(st, ast.Try):
            yield from _flat(st.body)
            for h in st.handlers:
                yield from _flat(h.body)
            yield from _flat(st.orelse)
        else:
            yield st


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.classes, self.funcs, self.assigns, self.imports = {}, {}, {}, {}
        self.star = []
        self.assign_count = {}
        for st in _flat(tree.body):
            if isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(st, self)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = FuncInfo(st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.assign_count[n.id] = self.assign_count.get(n.id, 0) + 1
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                self.assign_count[st.target.id] = self.assign_count.get(st.target.id, 0) + 1
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.assigns[st.target.id] = st.value
                self.assign_count[st.target.id] = self.assign_count.get(st.target.id, 0) + 1
        # names rebound through 'global' inside functions are not constants
        for n in ast.walk(tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    self.assign_count[x] = self.assign_count.get(x, 0) + 5
        for st in _flat(tree.body):
            self._imp(st)

    def _imp(self, st):
        for k, v in import_bindings(st, self.name, self.is_pkg):
            if k == '*':
                self.star.append(v)
            else:
                self.imports[k] = v

    @property
    def rel(self):
        return os.path.relpath(self.path, REPO)


def import_bindings(st, modname, is_pkg):
    if isinstance(st, ast.Import):
        for a in st.names:
            if a.asname:
                yield a.asname, a.name
            else:
                yield a.name.split('.')[0], a.name.split('.')[0]
    elif isinstance(st, ast.ImportFrom):
        if st.level:
            parts = modname.split('.')
            if not is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            base = '.'.join(parts + ([st.module] if st.module else []))
        else:
            base = st.module or ''
        for a in st.names:
            if a.name == '*':
                yield '*', base
            else:
                yield a.asname or a.name, base + '.' + a.name


class Program:
    def __init__(self, root=None, pkg='gnome', native=False):
        self.root = root or ROOT
        self.modules = {}
        self.errors = []
        top = os.path.join(self.root, pkg)
        if not os.path.isdir(top):
            raise AnalysisError('no package directory ' + top)
        for dp, dn, fn in os.walk(top):
            dn[:] = sorted(d for d in dn if d not in ('__pycache__',))
            for f in sorted(fn):
                cy = native and f.endswith('.pyx')
                if not f.endswith('.py') and not cy:
                    continue
                p = os.path.join(dp, f)
                rel = os.path.splitext(os.path.relpath(p, self.root))[0].split(os.sep)
                is_pkg = rel[-1] == '__init__'
                if is_pkg:
                    rel = rel[:-1]
                name = '.'.join(rel)
                try:
                    with open(p, encoding='utf-8') as fh:
                        tree = cyx.parse(fh.read()) if cy else ast.parse(fh.read())
                except (SyntaxError, tokenize.TokenError) as e:
                    self.errors.append((p, str(e)))
                    continue
                self.modules[name] = Module(name, p, tree, is_pkg)
        for m in self.modules.values():
            for c in m.classes.values():
                c.bases = [self.resolve_expr(m, b) for b in c.node.bases]
        self.all_classes = [c for m in self.modules.values() for c in m.classes.values()]
        self._subs = None

    def add_lib(self, name):
        """gnome.lib.<file>: a C or C++ source of the native library"""
        if name in self.modules:
            return self.modules[name]
        f = name.split('.')[2]
        lib = os.path.join(self.root, 'lib_gnome')
        for p in (os.path.join(lib, f + '.cpp'), os.path.join(self.root, 'gnome', 'utilities', 'geometry', f + '.c')):
            if os.path.exists(p):
                try:
                    tree, bad = cpp.parse(p, lib)
                except (cpp.Unsupported, OSError, subprocess.SubprocessError, ValueError) as e:
                    raise AnalysisError('%s: %s' % (f, e))
                m = Module(name, p, tree, False)
                m.untranslated = bad
                for c in m.classes.values():
                    c.bases = []
                self.modules[name] = m
                self.all_classes += list(m.classes.values())
                return m
        raise AnalysisError('no native source ' + f)

    # ---- name resolution
    def lookup(self, qual, seen=()):
        """qualified dotted name -> ('mod',Module)|('cls',C)|('func',F)|('val',Module,name)|('ext',qual)"""
        if qual in self.modules:
            return ('mod', self.modules[qual])
        if '.' in qual:
            head, last = qual.rsplit('.', 1)
            r = self.lookup(head, seen)
            if r[0] == 'mod':
                return self.lookup_in(r[1], last, seen)
            if r[0] == 'cls':
                return ('clsattr', r[1], last)
        return ('ext', qual)

    def lookup_in(self, m, name, seen=()):
        key = (m.name, name)
        if key in seen:
            return ('ext', m.name + '.' + name)
        seen = seen + (key,)
        if name in m.classes:
            return ('cls', m.classes[name])
        if name in m.funcs:
            return ('func', m.funcs[name])
        if name in m.imports:
            return self.lookup(m.imports[name], seen)
        if name in m.assigns:
            v = m.assigns[name]
            if isinstance(v, ast.Name) and m.assign_count.get(name) == 1 and v.id != name:
                r = self.lookup_in(m, v.id, seen)
                if r[0] != 'ext':
                    return r
            return ('val', m, name)
        if m.name + '.' + name in self.modules:
            return ('mod', self.modules[m.name + '.' + name])
        for s in m.star:
            r = self.lookup(s, seen)
            if r[0] == 'mod':
                q = self.lookup_in(r[1], name, seen)
                if q[0] != 'ext':
                    return q
        return ('ext', m.name + '.' + name)

    def resolve_expr(self, m, node):
        """class expression in module m -> ClassInfo or dotted string"""
        d = dotted(node)
        if d is None:
            return None
        parts = d.split('.')
        r = self.lookup_in(m, parts[0])
        if r[0] == 'ext' and parts[0] not in m.imports:
            return d
        for p in parts[1:]:
            if r[0] == 'mod':
                r = self.lookup_in(r[1], p)
            elif r[0] == 'ext':
                r = ('ext', r[1] + '.' + p)
            else:
                return None
        if r[0] == 'cls':
            return r[1]
        if r[0] == 'ext':
            return r[1]
        return None

    # ---- classes
    def mro(self, c):
        if c._mro is not None:
            return c._mro
        c._mro = [c]      # recursion guard
        seqs = []
        for b in c.bases:
            if isinstance(b, ClassInfo):
                seqs.append(list(self.mro(b)))
        seqs.append([b for b in c.bases if isinstance(b, ClassInfo)])
        out = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        c._mro = out
        return out

    def cls(self, qual):
        r = self.lookup(qual)
        if r[0] != 'cls':
            raise AnalysisError('anchor class %s not found' % qual)
        return r[1]

    def func(self, qual):
        r = self.lookup(qual)
        if r[0] == 'func':
            return r[1]
        if r[0] == 'clsattr':
            f = self.method(r[1], r[2])
            if f:
                return f
        raise AnalysisError('anchor function %s not found' % qual)

    def method(self, c, name, after=None):
        seen = [after] if after is not None else []
        for k in self._after(c, after):
            if name in k.methods:
                if any(self._foreign_first(b, k) for b in seen):
                    return None       # a base class outside the repository comes first and may define it
                return k.methods[name]
            seen.append(k)
        return None

    def _foreign_first(self, b, k):
        """does class b inherit from a class outside the repository that precedes k in the method resolution order?"""
        if b._foreign is None:
            b._foreign = next((j for j, x in enumerate(b.bases) if str(x).startswith('gridded.')), -1)
        j = b._foreign
        return j >= 0 and not any(isinstance(x, ClassInfo) and k in self.mro(x) for x in b.bases[:j])

    def _after(self, c, after):
        m = self.mro(c)
        if after is not None:
            i = m.index(after) if after in m else -1
            m = m[i + 1:]
        return m

    def getter(self, c, name, after=None):
        for k in self._after(c, after):
            if name in k.getters:
                return k.getters[name]
            if name in k.methods or name in k.attrs:
                return None
        return None

    def setter(self, c, name, after=None):
        for k in self._after(c, after):
            if name in k.setters:
                return k.setters[name]
            if name in k.getters and name not in k.setters:
                # property redefined without setter: look whether "@Base.name.setter" style is used
                return None
        return None

    def class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
            if name in k.methods or name in k.getters:
                return None
        return None

    def subclasses(self, c, strict=False):
        out = [k for k in self.all_classes if c in self.mro(k)]
        if strict:
            out = [k for k in out if k is not c]
        return out

    def is_sub(self, c, base):
        return base in self.mro(c)


def dotted(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return '.'.join(reversed(parts))
    return None
