"""Which calls may not change places: two calls (or a call and an assignment) conflict when one writes state of the object the
other reads or writes, or when both act on the same receiver in a way that does not commute."""
import ast

# operations whose order on one receiver does not show
COMMUTE = {'add', 'update', 'setdefault', 'discard', 'debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'createVariable',
           'createDimension', 'setncattr', 'setncatts', 'get', 'keys', 'values', 'items', 'isEnabledFor', 'print'}
MUTATE = {'append', 'extend', 'update', 'clear', 'pop', 'popitem', 'remove', 'insert', 'add', 'sort', 'setdefault', 'discard', 'reverse', 'fill',
          'appendleft', 'popleft', 'resize'}


def self_effects(P, c, f, memo=None, depth=0):
    """(attributes of self read, attributes written) by a method, through the methods and properties of self it uses"""
    memo = P.__dict__.setdefault('_selfeff', {}) if memo is None else memo
    k = (c.qualname, id(f.node))
    if k in memo:
        return memo[k]
    memo[k] = (set(), set())
    rd, wr = set(), set()
    if not f.params or depth > 12:
        return rd, wr
    me = f.params[0]

    def sub(g):
        if g is not None:
            r, w = self_effects(P, c, g, memo, depth + 1)
            rd.update(r)
            wr.update(w)

    def is_self(n):
        return isinstance(n, ast.Name) and n.id == me

    def base_attr(n):
        """the attribute of self a target belongs to"""
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            if isinstance(n, ast.Attribute) and is_self(n.value):
                return n.attr
            n = n.value
        return None

    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and is_self(n.value):
            if isinstance(n.ctx, ast.Load):
                m = P.method(c, n.attr)
                g = P.getter(c, n.attr)
                if m is not None and m.node is not f.node:
                    sub(m)
                if g is not None:
                    sub(g)
                if m is None:
                    rd.add(n.attr)
            else:
                st = P.setter(c, n.attr)
                if st is not None:
                    sub(st)
                wr.add(n.attr)
        elif isinstance(n, (ast.Subscript, ast.Attribute)) and not isinstance(n.ctx, ast.Load):
            a = base_attr(n)
            if a:
                wr.add(a)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr in MUTATE:
                a = base_attr(n.func.value)
                if a:
                    wr.add(a)
            v = n.func.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and f.cls is not None:
                sub(P.method(c, n.func.attr, after=f.cls))
    memo[k] = (rd, wr)
    return rd, wr


def conflict(P, c, e, f, self_expr, slot):
    """may the two events not be exchanged"""
    def eff(x):
        if x.kind == 'call':
            if x.base == self_expr and c is not None:
                m = P.method(c, x.name)
                if m is not None:
                    return self_effects(P, c, m)
            return None
        t = x.target
        while t[0] in ('a', 's') and t[1] != self_expr:
            t = t[1]
        if t[0] == 'a' and t[1] == self_expr:
            return set(), {t[2]}
        return None
    if e.kind == 'call' and f.kind == 'call' and e.base is not None and e.base == f.base and e.base != self_expr and e.base[0] not in ('g', 'np', 'super'):
        if e.name in COMMUTE and f.name in COMMUTE:
            return False
        return True
    if e.kind != 'call' and f.kind != 'call':
        return False
    if e.kind == f.kind and e.base == f.base == self_expr and e.name == f.name and not e.name.lstrip('_').startswith(('check', 'valid')):
        return True
    a, b = eff(e), eff(f)
    if a is None or b is None:
        return False
    return bool(a[1] & b[1] or a[1] & b[0] or a[0] & b[1])
