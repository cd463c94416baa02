"""May-alias analysis of array arguments inside a function: which parameters an in-place operation may change, and which
names are views of an array that was overwritten since."""
import ast
from .program import dotted

SAME = {'asarray', 'asanyarray', 'ascontiguousarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'ravel', 'reshape', 'squeeze', 'transpose',
        'view', 'swapaxes', 'broadcast_to', 'rollaxis', 'expand_dims'}
SAME_ATTR = {'T', 'flat', 'real', 'data'}
INPLACE_M = {'sort', 'fill', 'put', 'itemset', 'resize', 'partition'}
INPLACE_F = {'putmask': 0, 'copyto': 0, 'place': 0, 'put': 0, 'fill_diagonal': 0, 'shuffle': 0}


class Alias:
    def __init__(self, f, returns=None):
        self.f, self.returns = f, returns or {}
        self.hits = []          # (param, node)
        self.ret = set()
        env = {p: {p} for p in f.params if p not in ('self', 'cls')}
        self.block(f.node.body, env)

    def ev(self, n, env):
        """parameters the value of n may share storage with"""
        if isinstance(n, ast.Name):
            return env.get(n.id, set())
        if isinstance(n, ast.Attribute):
            return self.ev(n.value, env) if n.attr in SAME_ATTR else set()
        if isinstance(n, ast.Subscript):
            return self.ev(n.value, env) if self.basic(n.slice) else set()
        if isinstance(n, ast.IfExp):
            return self.ev(n.body, env) | self.ev(n.orelse, env)
        if isinstance(n, ast.NamedExpr):
            return self.ev(n.value, env)
        if isinstance(n, ast.Call):
            d = dotted(n.func)
            nm = d.rsplit('.', 1)[-1] if d else (n.func.attr if isinstance(n.func, ast.Attribute) else None)
            if nm in SAME:
                if isinstance(n.func, ast.Attribute) and not (d and d.split('.')[0] in ('np', 'numpy')):
                    return self.ev(n.func.value, env)
                return self.ev(n.args[0], env) if n.args else set()
            if nm == 'array' and n.args and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False for k in n.keywords):
                return self.ev(n.args[0], env)
            if nm == 'astype' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False for k in n.keywords):
                return self.ev(n.func.value, env)
            idx = self.returns.get(nm)
            if idx and not isinstance(n.func, ast.Attribute):
                out = set()
                for i in idx:
                    if i < len(n.args):
                        out |= self.ev(n.args[i], env)
                return out
        return set()

    def basic(self, s):
        """a slice index gives a view; an index array or a number does not"""
        if isinstance(s, ast.Slice):
            return True
        if isinstance(s, ast.Tuple):
            return any(isinstance(e, ast.Slice) or (isinstance(e, ast.Constant) and e.value is Ellipsis) for e in s.elts) and \
                all(isinstance(e, (ast.Slice, ast.Constant, ast.UnaryOp)) or isinstance(e, ast.Attribute) for e in s.elts)
        return isinstance(s, ast.Constant) and (s.value is Ellipsis or isinstance(s.value, str))

    def hit(self, ps, node):
        for p in ps:
            self.hits.append((p, node))

    def exprs(self, s, env):
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                nm = d.rsplit('.', 1)[-1] if d else (n.func.attr if isinstance(n.func, ast.Attribute) else None)
                np_ = bool(d) and d.split('.')[0] in ('np', 'numpy', 'random')
                if nm in INPLACE_F and np_ and len(n.args) > INPLACE_F[nm]:
                    self.hit(self.ev(n.args[INPLACE_F[nm]], env), n)
                elif nm in INPLACE_M and isinstance(n.func, ast.Attribute) and not np_:
                    self.hit(self.ev(n.func.value, env), n)
                for k in n.keywords:
                    if k.arg == 'out':
                        self.hit(self.ev(k.value, env), n)
                if np_ and nm in ('floor', 'ceil', 'sqrt', 'abs', 'exp') and len(n.args) == 2:
                    self.hit(self.ev(n.args[1], env), n)
                if np_ and nm in ('add', 'subtract', 'multiply', 'divide', 'maximum', 'minimum') and len(n.args) == 3:
                    self.hit(self.ev(n.args[2], env), n)

    def target(self, t, v, env, value=None):
        if isinstance(t, ast.Name):
            env[t.id] = set(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else None
            for i, e in enumerate(t.elts):
                self.target(e, self.ev(vals[i], env) if vals else set(), env, vals[i] if vals else None)
        elif isinstance(t, ast.Subscript):
            self.hit(self.ev(t.value, env), t)

    def block(self, body, env):
        for s in body:
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return env
        if isinstance(s, ast.If):
            self.exprs(s.test, env)
            return join(self.block(s.body, dict(env)), self.block(s.orelse, dict(env)))
        if isinstance(s, (ast.For, ast.While)):
            for _ in range(2):
                e = dict(env)
                if isinstance(s, ast.For):
                    self.exprs(s.iter, e)
                    self.target(s.target, set(), e)
                env = join(env, self.block(s.body, e))
            return self.block(s.orelse, env)
        if isinstance(s, ast.Try):
            e = self.block(s.body, dict(env))
            for h in s.handlers:
                e = join(e, self.block(h.body, join(env, e)))
            return self.block(s.finalbody, self.block(s.orelse, e))
        if isinstance(s, ast.With):
            for i in s.items:
                self.exprs(i.context_expr, env)
            return self.block(s.body, env)
        self.exprs(s, env)
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.target(t, v, env, s.value)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.target(s.target, self.ev(s.value, env), env, s.value)
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                # on an array this works in place; a bare parameter may be a number, so only derived names count
                ps = {p for p in env.get(s.target.id, ()) if self.arrayish(s.target.id, p)}
                self.hit(ps, s)
            elif isinstance(s.target, ast.Subscript):
                self.hit(self.ev(s.target.value, env), s)
        elif isinstance(s, ast.Return) and s.value is not None:
            self.ret |= self.ev(s.value, env)
        return env

    def arrayish(self, name, p):
        """name is known to be an array: it was indexed with a slice, asked for its shape, or came out of an array function"""
        if not hasattr(self, '_arr'):
            self._arr = set()
            for n in ast.walk(self.f.node):
                if isinstance(n, ast.Attribute) and n.attr in ('shape', 'dtype', 'reshape', 'astype') and isinstance(n.value, ast.Name):
                    self._arr.add(n.value.id)
                elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and isinstance(n.slice, ast.Tuple):
                    self._arr.add(n.value.id)
                elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                    d = dotted(n.value.func) or ''
                    if d.rsplit('.', 1)[-1] in SAME | set(self.returns):
                        self._arr |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        return name in self._arr


def join(a, b):
    out = {}
    for k in set(a) | set(b):
        out[k] = set(a.get(k, ())) | set(b.get(k, ()))
    return out


def return_aliases(funcs):
    """name -> positions of parameters that a package function may return (or a view of them)"""
    R = {}
    for _ in range(4):
        ch = False
        for f in funcs:
            if f.cls is not None:
                continue
            a = Alias(f, R)
            idx = {i for i, p in enumerate(f.params) if p in a.ret}
            if idx - R.get(f.name, set()):
                R[f.name] = R.get(f.name, set()) | idx
                ch = True
        if not ch:
            break
    return R


def mutated_params(f, R):
    a = Alias(f, R)
    out = {}
    for p, n in a.hits:
        out.setdefault(p, n)
    return out


def overlap(s1, s2):
    """may two index expressions select a common element?"""
    a = s1.elts if isinstance(s1, ast.Tuple) else [s1]
    b = s2.elts if isinstance(s2, ast.Tuple) else [s2]
    for x, y in zip(a, b):
        if isinstance(x, ast.Constant) and isinstance(y, ast.Constant) and x.value != y.value:
            return False
    return True


def stale_views(f):
    """(name, view node, store node, use node): a view is read after the array it belongs to was overwritten"""
    out = []

    def block(body):
        live = {}       # name -> (array name, index, node, dirty store or None)
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            loads = [n for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)]
            stored = {n.value.id for n in ast.walk(s) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store)
                      and isinstance(n.value, ast.Name)}
            for n in loads:
                if n.id in live and live[n.id][3] is not None and isinstance(s, ast.Assign) and live[n.id][0] in stored:
                    out.append((n.id, live[n.id][2], live[n.id][3], n))
                    live.pop(n.id)
            # half of a simultaneous update: the array is overwritten with a value computed from the view
            if isinstance(s, ast.Assign):
                rd = {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}
                for n in ast.walk(s):
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                        for k, (arr, ix, node, d) in list(live.items()):
                            if arr == n.value.id and d is None and k in rd and overlap(ix, n.slice):
                                live[k] = (arr, ix, node, n)
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    live.pop(n.id, None)
                    for k, v in list(live.items()):
                        if v[0] == n.id:
                            live.pop(k)
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                    and isinstance(s.value, ast.Subscript) and isinstance(s.value.value, ast.Name) and isinstance(s.value.slice, ast.Tuple) \
                    and any(isinstance(e, ast.Slice) for e in s.value.slice.elts) \
                    and all(isinstance(e, (ast.Slice, ast.Constant, ast.UnaryOp)) for e in s.value.slice.elts):
                live[s.targets[0].id] = (s.value.value.id, s.value.slice, s, None)
            for fld in ('body', 'orelse', 'finalbody'):
                sub = getattr(s, fld, None)
                if isinstance(sub, list) and sub and isinstance(sub[0], ast.stmt):
                    block(sub)
            for h in getattr(s, 'handlers', ()) or ():
                block(h.body)
    block(f.node.body)
    return out
