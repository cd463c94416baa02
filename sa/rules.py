"""Query helpers shared by the property rules."""
import ast
from .summ import *
from .program import AnalysisError, ClassInfo, FuncInfo, dotted

SELF = ('p', 'self')


def A(*names, base=SELF):
    e = base
    for n in names:
        e = ('a', e, n)
    return e


def summary(ctx, cls, meth, **k):
    """summary of cls.meth as dispatched on an instance of cls (cached)"""
    key_ = (cls.qualname if cls else None, meth if isinstance(meth, str) else meth.qualname,
            tuple(sorted((a, str(b)) for a, b in k.items())))
    cache = ctx.__dict__.setdefault('_summ', {})
    if key_ not in cache:
        if isinstance(meth, str):
            f = ctx.P.method(cls, meth) or ctx.P.getter(cls, meth)
            if f is None:
                raise AnalysisError('%s has no method %s' % (cls.qualname, meth))
        else:
            f = meth
        s = Summ(ctx.P, cls=cls, **k).run(f)
        if s.truncated:
            raise AnalysisError('summary of %s truncated' % f.qualname)
        ctx.count('functions summarised')
        ctx.count('effects', len(s.events))
        cache[key_] = s
    return cache[key_]


def setter_summary(ctx, cls, prop, **k):
    f = ctx.P.setter(cls, prop)
    if f is None:
        raise AnalysisError('%s has no setter %s' % (cls.qualname, prop))
    s = Summ(ctx.P, cls=cls, **k).run(f)
    ctx.count('functions summarised')
    return s


def calls(s, name=None, base=None, pred=None):
    out = []
    for e in s.events:
        if e.kind != 'call':
            continue
        if name is not None and e.name != name:
            continue
        if base is not None and e.base != base:
            continue
        if pred is not None and not pred(e):
            continue
        out.append(e)
    return out


def stores(s, attr=None, base=SELF, kinds=('store',), pred=None):
    out = []
    for e in s.events:
        if e.kind not in kinds or e.target is None:
            continue
        if attr is not None and e.target != ('a', base, attr):
            continue
        if pred is not None and not pred(e):
            continue
        out.append(e)
    return out


def normal(s):
    """condition of normal completion of the entry function"""
    g = 0
    for pc, *_ in s.returns:
        g = B.OR(g, pc)
    return noexc(g)


def union(evs):
    g = 0
    for e in evs:
        g = B.OR(g, noexc(e.guard))
    return g


def drop_loops(g):
    return B.restrict(g, lambda a: False if a[0] in ('loopret', 'loopraise') else None)


def must(s, evs, given=1):
    """the event happens on every normally completing path"""
    return B.implies(B.AND(drop_loops(normal(s)), given), drop_loops(union(evs)))


def fname(f):
    return f.qualname


def all_functions(P, exclude=()):
    for m in P.modules.values():
        if any(m.name == x or m.name.startswith(x + '.') for x in exclude):
            continue
        for f in m.funcs.values():
            yield f
        for c in m.classes.values():
            for tab in (c.methods, c.getters, c.setters, c.deleters):
                for f in tab.values():
                    yield f


def resolve_call_name(P, f, node):
    """dotted callee resolved through the imports of f's module (and of the function) or None"""
    d = dotted(node)
    if d is None:
        return None
    parts = d.split('.')
    loc = {}
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            from .program import import_bindings
            for k, v in import_bindings(n, f.module.name, f.module.is_pkg):
                loc[k] = v
    if parts[0] in loc:
        r = P.lookup(loc[parts[0]])
    else:
        r = P.lookup_in(f.module, parts[0])
        if r[0] == 'ext' and parts[0] not in f.module.imports:
            return d
    for p in parts[1:]:
        if r[0] == 'mod':
            r = P.lookup_in(r[1], p)
        elif r[0] == 'ext':
            r = ('ext', r[1] + '.' + p)
        elif r[0] == 'cls':
            r = ('clsattr', r[1], p)
        else:
            return None
    if r[0] in ('cls', 'func'):
        return r[1].qualname
    if r[0] == 'ext':
        return r[1]
    if r[0] == 'mod':
        return r[1].name
    return None


def call_graph(ctx):
    """name-based over-approximate call graph: FuncInfo -> list of FuncInfo"""
    if hasattr(ctx, '_cg'):
        return ctx._cg
    P = ctx.P
    by_name = {}
    for f in all_functions(P):
        by_name.setdefault(f.name, []).append(f)
    g = {}
    for f in all_functions(P):
        outs = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute):
                    q = resolve_call_name(P, f, n.func)
                    r = P.lookup(q) if q and '.' in q else ('ext', q)
                    if r[0] == 'func':
                        outs.add(r[1])
                    else:
                        for x in by_name.get(n.func.attr, []):
                            if x.cls is not None:
                                outs.add(x)
                elif isinstance(n.func, ast.Name):
                    q = resolve_call_name(P, f, n.func)
                    r = P.lookup(q) if q and '.' in q else ('ext', q)
                    if r[0] == 'func':
                        outs.add(r[1])
                    elif r[0] == 'cls':
                        i = P.method(r[1], '__init__')
                        if i:
                            outs.add(i)
            elif isinstance(n, ast.Attribute):
                for x in by_name.get(n.attr, []):
                    if x.kind in ('get', 'set') and x.cls is not None:
                        outs.add(x)
        g[f] = outs
    ctx._cg = g
    return g


def reachable(ctx, roots):
    g = call_graph(ctx)
    seen, st = set(), list(roots)
    while st:
        f = st.pop()
        if f in seen:
            continue
        seen.add(f)
        st.extend(g.get(f, ()))
    return seen
