"""Contracts: a reference body (the specification of what a function must do) is summarised by the same
canonicaliser as the code, and the observable effects of the two summaries are compared.

The comparison is three-valued.  Effects are equal when their canonical forms are equal under equivalent
conditions.  A difference is *decided* only if every construct taking part in it is understood; a difference
that involves a construct outside the vocabulary of the reference is undecided and never an alarm.
"""
import ast
import os
import signal
import time
import traceback
import textwrap
from .rules import *
from .summ import State, cat
from . import summ as S
from .order import conflict

# functions whose meaning is fixed: their appearance or disappearance is a real difference
KNOWN_FN = {'abs', 'int', 'round', 'floor', 'ceil', 'min', 'max', 'sum', 'mean', 'sqrt', 'exp', 'log', 'clip', 'zeros',
            'ones', 'timedelta', 'cumsum', 'prod', 'any', 'all', 'len', 'isinstance', 'neg', 'FloorDiv', 'Mod', 'Pow',
            'copy', 'deepcopy', 'sorted', 'isfinite', 'isnan', 'cos', 'sin', 'tan', 'argmin', 'argmax', 'bool', 'total_seconds',
            'argsort', 'BitAnd', 'BitOr', 'BitXor'}
OPAQUE_NODES = {'unk', 'loopout', 'loopvar', 'phi', 'mu', 'mv', 'mutated', 'closure', 'missing', 'starred', 'kwget', 'localclass',
                'exception', 'enter', 'never', 'while'}
OPAQUE_ATOMS = {'exc', 'exck', 'excpt', 'match', 'loopret', 'which'}


# ------------------------------------------------------------------ deep rewriting through guards
def map_guard(g, f, memo):
    if g in (0, 1):
        return g
    if ('g', g) in memo:
        return memo[('g', g)]
    memo[('g', g)] = g        # cycles cannot occur; placeholder
    a, lo, hi = B.node(g)
    na = deep(a, f, memo)
    if isinstance(na, tuple) and na and na[0] == 'bddval':
        v = na[1]
    else:
        v = atom(na)
    r = B.ite(v, map_guard(hi, f, memo), map_guard(lo, f, memo))
    memo[('g', g)] = r
    return r


def deep(e, f, memo):
    """bottom-up rewriting of an expression or atom, including the conditions inside it"""
    if not isinstance(e, tuple):
        return e
    if e in memo:
        return memo[e]
    if e and e[0] == 'b' and len(e) == 2:
        r = ('b', map_guard(e[1], f, memo))
    elif e and e[0] == 'ite' and len(e) == 4:
        r = S.ite(map_guard(e[1], f, memo), deep(e[2], f, memo), deep(e[3], f, memo))
    elif e and e[0] in ('loopret', 'loopraise', 'which') and len(e) == 3:
        r = (e[0], deep(e[1], f, memo), map_guard(e[2], f, memo))
    elif e and e[0] == 'poly':
        r = rebuild_poly(e, f, memo)
    elif e and e[0] in ('lt0', 'eq0'):
        q = deep(e[1], f, memo)
        r = (e[0], q)
    else:
        r = tuple(deep(x, f, memo) for x in e)
    if isinstance(r, tuple) and r and isinstance(r[0], str):
        q = f(r)
        if q is not None:
            r = q
    memo[e] = r
    return r


def rebuild_poly(e, f, memo):
    r = S.C(0)
    for mono, coef in e[1]:
        t = S.from_poly({(): coef}) if coef != 1 else S.C(1)
        num, den = S.C(1), None
        for base, k in mono:
            b = deep(base, f, memo)
            for _ in range(abs(k)):
                t = S.mul(t, b) if k > 0 else S.div(t, b)
        r = S.add(r, t)
    return r


_INTERN = {}


def mu_terms(defs, cache):
    """phi number -> canonical term for the variable a loop carries: its initial value and how each round changes it,
    with other carried variables identified by their own definitions (partition refinement)"""
    if '#' in cache:
        return cache['#']
    col = {i: 0 for i in defs}

    def sub(e, col):
        memo = {}

        def f(x):
            if x[0] == 'phi' and len(x) > 2:
                return ('mv', col.get(x[2], -1))
            if x[0] in ('loopvar', 'loopout') and isinstance(x[1], str):
                return (x[0], '_') + x[2:]
            if x[0] == 'closure':
                return ('closure', '_')
        return deep(e, f, memo)
    for _ in range(6):
        t = {i: ('mu', sub(d[0], col), sub(d[1], col)) for i, d in defs.items()}
        col = {i: _INTERN.setdefault(x, len(_INTERN)) + 1 for i, x in t.items()}
    cache['#'] = {i: t[i] + (col[i],) for i in defs}
    return cache['#']


def alpha(s):
    """rename bound loop variables by what they stand for, others by order of appearance"""
    n = {}
    defs = getattr(s, 'phidef', None) or {}
    mus = mu_terms(defs, s.__dict__.setdefault('_mu', {})) if defs else {}

    def f(x):
        if x[0] == 'phi' and len(x) > 2:
            if x[2] in mus:
                return mus[x[2]]
            k = ('phi', x[2])
            return ('phi', n.setdefault(k, len(n)))
        if x[0] in ('loopvar', 'loopout') and isinstance(x[1], str):
            return (x[0], '_') + x[2:]
        if x[0] == 'closure':
            return ('closure', '_')
        if x[0] == 'eq' and len(x) == 3 and key(x[2]) < key(x[1]):
            return ('eq', x[2], x[1])
        return None
    return f


def needs_alpha(e):
    return contains(e, lambda x: x[0] in ('phi', 'loopvar', 'loopout', 'closure'))


# ------------------------------------------------------------------ gated normal form
def open_refs(e, lim=4000):
    """large values kept by number are written out where they depend on conditions"""
    refs = {x for x in walk(e) if x[0] == 'ref'}
    if not refs:
        return e
    refs = {x for x in refs if any(y[0] == 'ite' for y in walk(S.REFS[x[1]]))}
    if not refs or sum(S._size(S.REFS[x[1]], lim) for x in refs) > lim:
        return e

    def rec(x):
        if not isinstance(x, tuple):
            return x
        if x in refs:
            return rec(S.REFS[x[1]])
        if x and x[0] in ('b', 'ref'):
            return x
        return tuple(rec(y) for y in x)
    return rec(e)


def gnf(e, pc=1, limit=400):
    """[(guard, ite-free expression)] by distributing conditionals outward (bounded), infeasible ones pruned"""
    out, work, n = [], [(pc, e)], 0
    while work:
        q, x = work.pop()
        its = None
        for y in walk_novals(x):
            if y[0] == 'ite':
                its = y
                break
        if its is not None and n >= limit:
            its, x = None, x + (('unk', 'big', S.BIGS.setdefault(x, len(S.BIGS))),)
        if its is None:
            out.append((q, x))
            continue
        n += 1
        g = its[1]
        for c, alt in ((B.AND(q, B.NOT(g)), its[3]), (B.AND(q, g), its[2])):
            if c:
                work.append((c, replace(x, its, alt)))
    return out


def split_bools(leaves):
    """a payload that is a truth value is told apart by cases, however the conditionals were nested"""
    for q, p in leaves:
        i = next((i for i, x in enumerate(p) if isinstance(x, tuple) and x and x[0] == 'b' and x[1] > 1), None)
        if i is None:
            yield q, p
            continue
        g = p[i][1]
        for c, v in ((B.AND(q, g), S.TRUE), (B.AND(q, B.NOT(g)), S.FALSE)):
            if c:
                for r in split_bools([(c, p[:i] + (v,) + p[i + 1:])]):
                    yield r


def walk_novals(e):
    """sub-expressions evaluated in the same scope (not inside comprehensions / loops / conditions)"""
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
                if x[0] in ('b', 'comp', 'sumover', 'loopout', 'c'):
                    continue
                if x[0] == 'ite':
                    st += [x[2], x[3]]
                    continue
            st.extend(x)


def replace(e, old, new):
    if e == old:
        return new
    if not isinstance(e, tuple):
        return e
    if e and e[0] in ('b', 'comp', 'sumover', 'loopout', 'c'):
        return e
    if e and e[0] == 'ite':
        return S.ite(e[1], replace(e[2], old, new), replace(e[3], old, new))
    if e and e[0] == 'poly':
        if not any(old == y for y in walk(e)):
            return e
        r = S.C(0)
        for mono, coef in e[1]:
            t = S.from_poly({(): coef})
            for base, k in mono:
                b = replace(base, old, new)
                for _ in range(abs(k)):
                    t = S.mul(t, b) if k > 0 else S.div(t, b)
            r = S.add(r, t)
        return r
    r = tuple(replace(x, old, new) for x in e)
    if r and r[0] in ('min', 'max'):
        r = S.sym(*r)
    if len(r) == 4 and r[0] == 'call' and r[1] == ('g', 'math.sqrt') and r[2] in ((S.C(0),), (S.C(1),)):
        r = r[2][0]
    return r


# ------------------------------------------------------------------ theory of the atoms
def axioms(gs):
    sup = set()
    for g in gs:
        sup |= set(B.support(g))
    ax = 1
    for a in sup:
        if a[0] == 'lt0':
            p = S.to_poly(a[1])
            if p is None:
                continue
            n = {m: -c for m, c in p.items()}
            lead = sorted(n.items(), key=lambda t: key(t[0]))
            s = abs(lead[0][1])
            n = {m: c / s for m, c in n.items()}
            b = ('lt0', S.from_poly(n))
            if b in sup:
                ax = B.AND(ax, B.NOT(B.AND(atom(a), atom(b))))
            # equality atom of the same difference
            l0 = sorted(p.items(), key=lambda t: key(t[0]))
            q = {m: c / l0[0][1] for m, c in p.items()}
            for e in sup:
                same = e[0] == 'eq0' and e[1] == S.from_poly(q)
                if e[0] == 'eq':
                    pa, pb = S.to_poly(e[1]), S.to_poly(e[2])
                    if pa is not None and pb is not None:
                        d = S.padd(pa, pb, -1)
                        ld = sorted(d.items(), key=lambda t: key(t[0]))
                        if ld:
                            d = {m: c / ld[0][1] for m, c in d.items()}
                            same = d == q
                if same:
                    ax = B.AND(ax, B.NOT(B.AND(atom(a), atom(e))))
                    if b in sup:
                        ax = B.AND(ax, B.OR(atom(a), atom(b), atom(e)))
                    else:
                        pass
        elif a[0] == 't' and a[1][0] in ('call', 'poly', 'op') and ('eq0', a[1]) in sup:
            ax = B.AND(ax, B.XOR(atom(a), atom(('eq0', a[1]))))
        elif a[0] == 't' and a[1][0] in ('call', 'poly', 'op') and any(e in sup for e in (('eq', S.C(0), a[1]), ('eq', a[1], S.C(0)))):
            for e in (('eq', S.C(0), a[1]), ('eq', a[1], S.C(0))):
                if e in sup:
                    ax = B.AND(ax, B.XOR(atom(a), atom(e)))
        elif a[0] == 'nonempty':
            for e in sup:
                if e == ('t', a[1]):
                    ax = B.AND(ax, B.IFF(atom(a), atom(e)))
        elif a[0] == 'isnone':
            for e in sup:
                if e == ('t', a[1]):
                    ax = B.AND(ax, B.NOT(B.AND(atom(a), atom(e))))
        elif a[0] == 'eq' and (S.isconst(a[1]) or S.isconst(a[2])):
            k, x = (a[1], a[2]) if S.isconst(a[1]) else (a[2], a[1])
            for e in sup:
                if e != a and e[0] == 'eq' and x in (e[1], e[2]):
                    k2 = e[1] if e[2] == x else e[2]
                    if S.isconst(k2) and k2[1] != k[1]:
                        ax = B.AND(ax, B.NOT(B.AND(atom(a), atom(e))))
    return ax


def equiv(a, b, ctx=1):
    if a == b:
        return True
    x = B.AND(B.XOR(a, b), ctx)
    if x == 0:
        return True
    return B.AND(x, axioms([a, b, ctx])) == 0


# ------------------------------------------------------------------ effects
ROOTS = ('p', 'g', 'elt', 'val', 'call', 'mcall', 'np', 'enter', 'copy')


def root(e):
    while e[0] in ('a', 's', 'upd', 'mutated', 'val', 'hphi'):
        e = e[1]
    return e


def visible(s, t, depth=4):
    """is a store into t seen by others: t belongs to an argument, a global or a value handed out"""
    r = root(t)
    if r[0] in ROOTS:
        return True
    if r[0] == 'phi' and len(r) > 2 and depth:
        d = (getattr(s, 'phidef', None) or {}).get(r[2])
        return d is not None and root(d[0])[0] in ('p', 'phi', 'loopout') and visible(s, d[0], depth - 1)
    if r[0] == 'loopout' and len(r) == 5 and depth and isinstance(r[4], tuple):
        return root(r[4])[0] in ('p', 'phi', 'loopout') and visible(s, r[4], depth - 1)
    return False


def objects(t, g):
    """the locations a store into t may reach, with the guards: an array is the same object after elements of it were set"""
    if t[0] != 's':
        return [(t, g)]

    def obj(e, g, d=40):
        if not g:
            return []
        if e[0] == 'upd' and d:
            return obj(e[1], g, d - 1)
        if e[0] == 'ite' and len(e) == 4 and isinstance(e[1], int) and d:
            return obj(e[2], B.AND(g, e[1]), d - 1) + obj(e[3], B.AND(g, B.NOT(e[1])), d - 1)
        return [(e, g)]
    out = {}
    for e, q in obj(t[1], g):
        out[e] = B.OR(out.get(e, 0), q)
    return [(('s', e, t[2]), q) for e, q in out.items()]


def slot_of(t):
    if t[0] == 'a':
        return t[2]
    if t[0] == 's':
        if t[2][0] == 'c' and isinstance(t[2][1], str):
            return t[2][1]
        return slot_of(t[1])
    if t[0] == 'g':
        return t[1].rsplit('.', 1)[-1]
    if t[0] == 'p':
        return t[1]
    return t[0]


def exc_name(v):
    if v[0] == 'call' and v[1][0] == 'g':
        return v[1][1].rsplit('.', 1)[-1]
    if v[0] == 'g':
        return v[1].rsplit('.', 1)[-1]
    return v[0]


class Effects(dict):
    """key -> guard ; key = (kind, slot, payload...)"""
    ignore = False

    def put(self, k, g):
        if g:
            self[k] = B.OR(self.get(k, 0), g)


def effects(s, calls=(), returns=True, raises=True, yields=True, attrs=None, noattrs=(), raise_state=False, ignore_exc=True,
            argmap=None, loops=True):
    E = Effects()
    E.ignore = ignore_exc

    def put(kind, slot, payload, g):
        """payload: tuple of expressions; bound names renamed, conditionals distributed"""
        if ignore_exc:
            g = noexc(g)
        pl = ('pl',) + tuple(payload)
        if needs_alpha(pl) or any(needs_alpha(a) for a in B.support(g)):
            f, memo = alpha(s), {}
            pl = deep(pl, f, memo)
            g = map_guard(g, f, memo)
        pl = open_refs(pl)
        pl = tuple(S.ite2(x) if isinstance(x, tuple) and x and x[0] == 'b' and x[1] > 1 else x for x in pl)
        for q, p in split_bools(gnf(pl, g)) if g else ():
            if q:
                k = (kind, slot) + p[1:]
                if kind == 'call':
                    # a call made a second time on the same path is another effect
                    again = B.AND(E.get(k, 0), q)
                    if again:
                        E.put(k + (('again',),), again)
                E.put(k, q)

    want = lambda n: (attrs is None or n in attrs) and n not in noattrs
    for e in s.events:
        if ignore_exc and e.handler and noexc(e.guard) == 0:
            continue
        if e.kind == 'call' and e.name in calls and not e.inlined:
            a, kw = tuple(e.args or ()), dict(e.kw or {})
            if argmap and e.name in argmap:
                a, kw = argmap[e.name](a, kw)
            kw = tuple(('kw', k, v) for k, v in sorted(kw.items()))
            put('call', e.name, (e.base or ('fn',),) + a + kw + (('loops',) + tuple(e.loops),), e.guard)
        elif e.kind in ('store',) and e.target is not None and not _heapable(e.target):
            for t, g in objects(e.target, e.guard):
                if visible(s, t) and want(slot_of(t)):
                    put('store', slot_of(t), (t, e.value, ('loops',) + tuple(e.loops)), g)
        elif e.kind == 'del' and e.target is not None and visible(s, e.target):
            if want(slot_of(e.target)):
                put('del', slot_of(e.target), (e.target, ('loops',) + tuple(e.loops)), e.guard)
        elif e.kind == 'raise' and raises:
            put('raise', 'raise', (('exc', exc_name(e.value)),), e.guard)
            if raise_state and e.ret:
                for loc, v in e.ret.items():
                    if v != loc and root(loc)[0] in ROOTS and want(slot_of(loc)):
                        put('raise-state', slot_of(loc), (loc, v), e.guard)
        elif e.kind == 'yield' and yields:
            put('yield', 'yield', (e.value, ('loops',) + tuple(e.loops)), e.guard)
    if returns:
        for pc, v, node, heap in s.returns:
            put('return', 'return', (v,), pc)
    # final values of the locations written
    locs = set()
    for pc, v, node, heap in s.returns:
        for loc, val in heap.items():
            if val != loc and visible(s, loc) and want(slot_of(loc)):
                locs.add(loc)
    for loc in locs:
        for pc, v, node, heap in s.returns:
            val = heap.get(loc, loc)
            if val != loc:
                put('set', slot_of(loc), (loc, val), pc)
    # a store of the value already there is no effect
    for k in [k for k in E if k[0] == 'set' and k[2] == k[3]]:
        del E[k]
    return E


def _heapable(t):
    if t[0] == 'a':
        return True
    if t[0] == 's':
        if t[2][0] == 'c' and isinstance(t[2][1], str):
            return True
        return t[1][0] in ('a', 's')
    return False


# ------------------------------------------------------------------ vocabulary
def fn_names(e):
    out = set()
    for x in walk(e):
        if x[0] == 'call':
            if x[1][0] == 'g':
                out.add(x[1][1].rsplit('.', 1)[-1])
            else:
                out.add('?')
        elif x[0] == 'mcall':
            out.add(x[1])
        elif x[0] == 'np':
            out.add(x[1])
        elif x[0] == 'op':
            out.add(x[1])
        elif x[0] == 'unk' and x[1] == 'big':
            out.add('#big')
        elif x[0] in OPAQUE_NODES:
            out.add('#' + x[0])
        elif x[0] in OPAQUE_ATOMS:
            out.add('#' + x[0])
    return out


def looping(e):
    return any(x[0] in ('comp', 'sumover', 'each', 'upd', 'loopout', 'loopvar', 'phi', 'starred') for x in walk(e))


def guard_names(g):
    out = set()
    for a in B.support(g):
        if a[0] in OPAQUE_ATOMS:
            out.add('#' + a[0])
        out |= fn_names(a)
    return out


def spec_vocab(text, E):
    v = set()
    for n in ast.walk(ast.parse(text)):
        if isinstance(n, ast.Name):
            v.add(n.id)
        elif isinstance(n, ast.Attribute):
            v.add(n.attr)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str):
            v.add(n.value)
        elif isinstance(n, ast.keyword) and n.arg:
            v.add(n.arg)
        elif isinstance(n, ast.FunctionDef):
            v.add(n.name)
    for k, g in E.items():
        v |= fn_names(k[2:]) | guard_names(g)
    v.discard('#big')
    return v


# ------------------------------------------------------------------ contract
def parse_spec(text, module, cls):
    tree = ast.parse(textwrap.dedent(text))
    if module.name.startswith('gnome.lib.'):
        from .cpp import Pointers
        tree = ast.fix_missing_locations(Pointers().visit(tree))
    fns = [n for n in tree.body if isinstance(n, ast.FunctionDef)]
    return [FuncInfo(n, module, cls) for n in fns]


def called_names(fns):
    out = set()
    for f in fns:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute):
                    out.add(n.func.attr)
                elif isinstance(n.func, ast.Name):
                    out.add(n.func.id)
    return out


# utilities with a contract of their own, never looked into from a caller
LEAVES = {'date_to_sec', 'sec_to_date', 'sec_to_datetime', 'sec_to_timestruct'}


def contract(ctx, rule, where, spec, kind='method', calls=None, order=(), assume=None, types=None, getters='simple',
             construct=None, depth=8, cls=None, opaque=(), fresh=(), order_pairs=None, nosuper=False, noorder=False, **eff):
    """where: 'pkg.mod.Class.meth' or 'pkg.mod.func'.  spec: python text, first function is the reference body,
    the others are its helpers."""
    P = ctx.P
    if kind == 'func':
        f, c = P.func(where), None
    else:
        cq, meth = where.rsplit('.', 1)
        c = P.cls(cls or cq)
        f = {'method': P.method, 'getter': P.getter, 'setter': P.setter}[kind](c, meth)
        if f is None:
            raise AnalysisError('%s not found' % where)
    name = construct or where
    fns = parse_spec(spec, f.module, f.cls)
    entry, helpers = fns[0], {x.name: x for x in fns[1:]}
    entry.kind = f.kind
    opq = (called_names(fns) - set(helpers)) | set(opaque) | (LEAVES - {f.name} - set(helpers))
    if c is not None:
        # methods the reference passes around are opaque too
        opq |= {n.attr for x in fns for n in ast.walk(x.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)
                and n.attr not in helpers and P.method(c, n.attr) is not None}
    given = calls
    ty = {}
    for k, v in (types or {}).items():
        ty[k] = P.cls(v) if isinstance(v, str) else v
    s1 = Summ(P, cls=c, types=dict(ty), opaque=opq - set(helpers), overrides=helpers, max_depth=depth, getters=getters, fresh=fresh, inline_super=not nosuper).run(entry, env=None)
    if given is None:
        # a method of a base class that is part of the contract counts with the calls it makes
        calls = tuple(set(effect_calls(fns, set(helpers)))
                      | set(effect_calls([x for x in s1.inlined_fns.values() if x not in fns], set(helpers))) - CHATTER)
    # the code may call a parameter by another name: positional correspondence
    pc_, ps = f.params, entry.params
    args = {}
    for i, (a, b) in enumerate(zip(pc_, ps)):
        if a != b and not (i == 0 and c is not None):
            args[a] = ('p', b)
    hid_helpers = set(helpers)
    s2 = Summ(P, cls=c, types=dict(ty), opaque=opq - {x for x in opq if False}, max_depth=depth, getters=getters, uniq=True, fresh=fresh, inline_super=not nosuper).run(f, args=args)
    if s2.truncated or s1.truncated:
        raise AnalysisError('summary of %s truncated' % where)
    ctx.count('contracts compared')
    ctx.__dict__.setdefault('contracts', set()).add((f.module.path, f.node.lineno, f.qualname))
    ctx.count('effects', len(s2.events))
    E1 = effects(s1, calls=calls, **eff)
    E2 = effects(s2, calls=calls, **eff)
    vocab = spec_vocab(textwrap.dedent(spec), E1) | KNOWN_FN
    g0 = 1
    if assume:
        E = Expr(P, f.module, c)
        g0 = E.g(assume)
    loc = '%s:%d' % (f.module.rel, f.node.lineno)
    hidden = hidden_calls(P, s2, vocab) - hidden_calls(P, s1, vocab)
    loose = whiles(fns + list(s1.inlined_fns.values())) != whiles([f] + list(s2.inlined_fns.values()))
    d1, d2 = defaults_of(entry), defaults_of(f)
    for i, p in enumerate(entry.params):
        if p in d1 and i < len(f.params):
            a, b = d1[p], d2.get(f.params[i])
            ctx.check(same_text(P, f.module, c, a, b), rule, '%s:default %s' % (name, p),
                      'the default of %s must be %s, found %s' % (p, a, b), loc)
    compare(ctx, rule, name, E1, E2, vocab, hidden, g0, loc, loose)
    closures(ctx, rule, name, s1, s2, dict(calls=calls, **eff), vocab, g0, loc)
    if order:
        check_order(ctx, rule, name, s1, s2, order, loc, eff.get('argmap'), order_pairs)
    if calls and not noorder:
        sl = {'store:' + slot_of(e.target) for e in s1.events if e.kind == 'store' and e.target is not None and visible(s1, e.target)}
        me = ('p', entry.params[0]) if c is not None and entry.params else ('p', 'self')
        check_order(ctx, rule, name, s1, s2, (set(calls) | sl) - set(order), loc, eff.get('argmap'),
                    lambda e, f: conflict(P, c, e, f, me, slot_of), precise=True)


def escaping(s, skip=()):
    """the local functions that a summary hands to others, in the order they are defined"""
    cl = getattr(s, '_closures', {})
    if not cl:
        return []
    out = set()

    def scan(e):
        for x in walk(e):
            if x[0] == 'closure' and len(x) > 2:
                out.add(x[2])
    for e in s.events:
        for v in (e.args or ()) if e.kind == 'call' and not e.inlined else ():
            scan(v)
        for v in (e.kw or {}).values() if e.kind == 'call' and not e.inlined else ():
            scan(v)
        for v in (e.value,):
            if isinstance(v, tuple):
                scan(v)
    for pc, v, node, heap in s.returns:
        scan(v)
        for x in heap.values():
            scan(x)
    return [cl[i] + (i,) for i in cl if i in out and i not in skip]


def closures(ctx, rule, name, s1, s2, eff, vocab, g0, loc, depth=3, skip1=(), skip2=()):
    """local functions handed out (callbacks) behave as those of the reference"""
    a, b = escaping(s1, skip1), escaping(s2, skip2)
    if not a or not depth:
        return
    nm = lambda x: x[0].node.name
    names = [nm(x) for x in a]
    pairs = []
    for i, x in enumerate(a):
        k = names[:i].count(nm(x))
        same = [y for y in b if nm(y) == nm(x)]
        if len(same) > k:
            pairs.append((x, same[k]))
        elif len(a) == len(b):
            pairs.append((x, b[i]))
        else:
            ctx.unk(rule, '%s.%s' % (name, nm(x)), 'no local function to compare with', loc)
    for i, (x, y) in enumerate(pairs):
        t1 = s1.run_closure(x)
        t2 = s2.run_closure(y)
        n = '%s.%s' % (name, nm(x)) + ('#%d' % names[:i].count(nm(x)) if names[:i].count(nm(x)) else '')
        if t1.truncated or t2.truncated:
            ctx.unk(rule, n, 'summary truncated', loc)
            continue
        E1, E2 = effects(t1, **eff), effects(t2, **eff)
        v = vocab | spec_vocab('', E1)
        ctx.count('local functions compared')
        compare(ctx, rule, n, E1, E2, v, hidden_calls(ctx.P, t2, v), g0, loc)
        closures(ctx, rule, n, t1, t2, eff, vocab, g0, loc, depth - 1, tuple(s1._closures), tuple(s2._closures))


CHATTER = {'info', 'debug', 'warning', 'warn', 'error', 'critical', 'exception', 'print', 'log'}


def effect_calls(fns, helpers):
    """names called as statements in the reference: called for their effect"""
    out = set()
    for f in fns:
        for n in ast.walk(f.node):
            c = n.value if isinstance(n, ast.Expr) else None
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
                c = c.elt
            if isinstance(c, ast.Call):
                c = c.func
                nm = c.attr if isinstance(c, ast.Attribute) else getattr(c, 'id', None)
                if nm and nm not in helpers:
                    out.add(nm)
                if not isinstance(c, ast.Attribute) and (nm is None or nm in f.params or nm in S.own_locals(f.node)):
                    out.add('<value>')
    return tuple(out)


def defaults_of(f):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    d = {p: ast.unparse(v) for p, v in zip(pos[len(pos) - len(a.defaults):], a.defaults)}
    d.update({x.arg: ast.unparse(v) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return d


PLAIN = (ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.Set, ast.UnaryOp, ast.BinOp, ast.operator, ast.unaryop, ast.expr_context,
         ast.Attribute, ast.Name)


def spelled_out(P, m, node, depth=5):
    """the expression with the names of module constants replaced by what they stand for"""
    class T(ast.NodeTransformer):
        def visit_Name(self, n):
            r = P.lookup_in(m, n.id)
            if r[0] == 'val' and depth > 0 and r[1].assign_count.get(r[2], 0) == 1:
                return spelled_out(P, r[1], r[1].assigns[r[2]], depth - 1)
            return n

        def visit_Call(self, n):
            n = self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == 'dict' and not n.args and all(k.arg for k in n.keywords):
                return ast.Dict(keys=[ast.Constant(k.arg) for k in n.keywords], values=[k.value for k in n.keywords])
            if isinstance(n.func, ast.Name) and n.func.id in ('set', 'tuple', 'list', 'frozenset') and len(n.args) == 1 \
                    and isinstance(n.args[0], (ast.List, ast.Tuple, ast.Set)):
                return {'set': ast.Set, 'frozenset': ast.Set, 'tuple': ast.Tuple, 'list': ast.List}[n.func.id](elts=n.args[0].elts, ctx=ast.Load())
            return n
    import copy
    return T().visit(copy.deepcopy(node))


def same_value(P, m, c, a, b):
    """do two constant expressions denote the same value: True, False or None (not decided)"""
    if isinstance(a, ast.Set) and isinstance(b, (ast.Set, ast.List, ast.Tuple)):
        x, y = ({ast.unparse(e) for e in v.elts} for v in (a, b))
        return True if x == y else False if all(isinstance(n, PLAIN) for v in (a, b) for n in ast.walk(v)) else None
    try:
        E = Expr(P, m, c)
        if E(ast.unparse(a)) == E(ast.unparse(b)) or ast.unparse(a) == ast.unparse(b):
            return True
    except AnalysisError:
        return None
    if all(isinstance(n, PLAIN) for v in (a, b) for n in ast.walk(v)):
        return False
    if isinstance(a, ast.Call) and isinstance(b, ast.Call) and ast.unparse(a.func) == ast.unparse(b.func) and len(a.args) == len(b.args) \
            and {k.arg for k in a.keywords} == {k.arg for k in b.keywords} and None not in {k.arg for k in a.keywords}:
        kb = {k.arg: k.value for k in b.keywords}
        res = [same_value(P, m, c, x, y) for x, y in list(zip(a.args, b.args)) + [(k.value, kb[k.arg]) for k in a.keywords]]
        return False if False in res else None if None in res else True
    return None


def same_text(P, m, c, a, b):
    if a is None or b is None:
        return a == b
    if a == b:
        return True
    x, y = (spelled_out(P, m, ast.parse(t, mode='eval').body) for t in (a, b))
    return same_value(P, m, c, x, y)


def const_contract(ctx, rule, where, text):
    """a module or class level constant has the given value; a table is compared entry by entry"""
    P = ctx.P
    pre, name = where.rsplit('.', 1)
    c = None
    if pre in P.modules:
        m = P.modules[pre]
        node, n = m.assigns.get(name), m.assign_count.get(name, 0)
    else:
        c = P.cls(pre)
        got = P.class_attr(c, name)
        m, node, n = (got[0].module if hasattr(got[0], 'module') else c.module) if got else c.module, got[1] if got else None, 1
    if node is None:
        raise AnalysisError('%s not found' % where)
    loc = '%s:%d' % (m.rel, node.lineno)
    ctx.count('constants compared')
    if n != 1:
        ctx.unk(rule, where, 'assigned %d times' % n, loc)
        return
    a = spelled_out(P, m, ast.parse(text.strip(), mode='eval').body)
    b = spelled_out(P, m, node)

    def cmp(x, y, nm):
        if isinstance(x, ast.Dict) and isinstance(y, ast.Dict) and None not in x.keys and None not in y.keys:
            kx = {ast.unparse(k): v for k, v in zip(x.keys, x.values)}
            ky = {ast.unparse(k): v for k, v in zip(y.keys, y.values)}
            for k in kx:
                if k in ky:
                    cmp(kx[k], ky[k], '%s[%s]' % (nm, k))
                else:
                    ctx.bad(rule, '%s[%s]' % (nm, k), 'entry %s is missing' % k, loc)
            for k in ky:
                if k not in kx:
                    ctx.unk(rule, '%s[%s]' % (nm, k), 'entry %s is new' % k, loc)
            return
        r = same_value(P, m, c, x, y)
        ctx.check(r, rule, nm, 'must be %s, found %s' % (ast.unparse(x)[:300], ast.unparse(y)[:300]), loc)
    cmp(a, b, where)


def hidden_calls(P, s, vocab):
    """calls into the package that were neither inlined nor mentioned by the reference"""
    names = getattr(P, '_defnames', None)
    if names is None:
        names = {f.name for f in all_functions(P)}
        P._defnames = names
    out = set()
    for e in s.events:
        if e.kind == 'call' and not e.inlined and e.name and e.name not in vocab and e.name in names \
                and e.name not in S.COMMON_METHODS and e.name not in S.NPM and e.name not in PURE:
            out.add(e.name)
        elif e.kind == 'call' and e.name in S.MUTATORS and e.name not in vocab and not e.inlined \
                and e.base is not None and visible(s, e.base):
            # a container changed in a way the reference does not
            out.add(e.name)
    return out


PURE = {'date_to_sec', 'sec_to_date', 'is_valid', 'get', 'keys', 'values', 'items', 'set', 'gat', 'update', 'append', 'close'}


def foreign(k, g, vocab):
    return {n for n in fn_names(k[2:]) | guard_names(g) if n not in vocab}


def whiles(fns):
    """the while loops of some functions, by kind: a different set means the loops were written anew, which is not compared"""
    out = [0, 0]
    for n in {id(x.node): x.node for x in fns}.values():
        for w in ast.walk(n):
            if isinstance(w, ast.While):
                out[isinstance(w.test, ast.Constant)] += 1
    return out


def has_exc(e, memo=None):
    """a condition inside the value asks whether an exception was raised"""
    memo = {} if memo is None else memo
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, tuple) and x:
            if len(x) > 1 and x[0] in ('b', 'ite') and isinstance(x[1], int):
                if x[1] not in memo:
                    memo[x[1]] = False
                    memo[x[1]] = any(a[0] in ('exc', 'exck', 'excpt') or has_exc(a, memo) for a in B.support(x[1]))
                if memo[x[1]]:
                    return True
            st.extend(x)
    return False


def lost_exc(k1, g1, k2, g2):
    """the reference looks at exceptions inside a loop, the code does not: it may test instead of catching"""
    return has_exc((k1, tuple(B.support(g1)))) and not has_exc((k2, tuple(B.support(g2))))


def own_record(k):
    """the effect is on a record of the function itself (native code copies records)"""
    if k[0] not in ('set', 'store') or len(k) < 4 or not isinstance(k[2], tuple):
        return False
    t = k[2]
    while t[0] in ('a', 's'):
        t = t[1]
    return t[0] == 'copy' or t[0] == 'call' and (t[1] == ('g', 'copy.copy') or t[1][0] == 'g' and t[1][1].startswith('gnome.lib.'))


def uncopied(e):
    if isinstance(e, tuple):
        if e and e[0] == 'copy' and len(e) == 2:
            return uncopied(e[1])
        if len(e) == 4 and e[0] == 'call' and e[1] == ('g', 'copy.copy') and len(e[2]) == 1:
            return uncopied(e[2][0])
        return tuple(uncopied(x) for x in e)
    return e


def split_value(E1, E2):
    """what is known to equal a constant where it is returned is that constant"""
    known = {}
    for E in (E1, E2):
        for k, g in E.items():
            if k[0] == 'return':
                for a in B.support(g):
                    if a[0] == 'eq' and S.isconst(a[1]) != S.isconst(a[2]):
                        c, v = (a[1], a[2]) if S.isconst(a[1]) else (a[2], a[1])
                        for q, x in gnf(v, limit=20):
                            known.setdefault(x, []).append((q, c, a))
    for E in (E1, E2):
        for k in [k for k in E if k[0] == 'return' and k[-1] in known]:
            c, a = next(((c, a) for q, c, a in known[k[-1]] if B.implies(E[k], q)), (None, None))
            if a is None:
                continue
            g = E.pop(k)
            for q, h in ((k[:-1] + (c,), B.AND(g, S.atom(a))), (k, B.AND(g, B.NOT(S.atom(a))))):
                if h:
                    E[q] = B.OR(E.get(q, 0), h)


def split_none(E1, E2):
    """what is known to be None where it is used is None, however it is named"""
    known = {}
    for E in (E1, E2):
        for k, g in E.items():
            for a in B.support(g):
                if a[0] == 'isnone':
                    known.setdefault((k[0], k[1]), set()).add(a[1])
    flags = {(k[0], k[1]) for E in (E1, E2) for k in E if k[0] in ('set', 'return') and k[-1] in (S.TRUE, S.FALSE)}
    for E in (E1, E2):
        for k in [k for k in E if (k[0], k[1]) in flags and not S.isconst(k[-1]) and k[-1][0] != 'b']:
            # a flag that is some truth value: that truth value
            t = S.truth(k[-1])
            for v in (S.TRUE, S.FALSE):
                if B.implies(E[k], t if v == S.TRUE else B.NOT(t)):
                    q = k[:-1] + (v,)
                    E[q] = B.OR(E.get(q, 0), E.pop(k))
                    break
    out = []
    for E in (E1, E2):
        R = {}
        for k, g in E.items():
            S_ = known.get((k[0], k[1]), ())
            i = next((i for i in range(3 if k[0] in ('set', 'store') else 2, len(k)) if k[i] in S_), None)
            if i is None:
                R[k] = B.OR(R.get(k, 0), g)
                continue
            n = S.atom(('isnone', k[i]))
            for q, h in ((k[:i] + (S.NONE,) + k[i + 1:], B.AND(g, n)), (k, B.AND(g, B.NOT(n)))):
                if h:
                    R[q] = B.OR(R.get(q, 0), h)
        out.append(R)
    return out


def short(s):
    return s if len(s) <= 600 else s[:420] + ' ... ' + s[-170:]


def compare(ctx, rule, name, E1, E2, vocab, hidden, g0, loc, loose=False):
    ignore = getattr(E1, 'ignore', False)
    split_value(E1, E2)
    E1, E2 = split_none(E1, E2)
    slots = {}
    only1, only2 = {}, {}
    for k, g in E1.items():
        g = B.AND(g, g0)
        h = B.AND(E2.get(k, 0), g0)
        if equiv(g, h) or ignore and noexc(g) and equiv(noexc(g), noexc(h)):
            if g:
                slots.setdefault((k[0], k[1]), []).append('ok')
            continue
        if h == 0:
            only1[k] = g
        else:
            slots.setdefault((k[0], k[1]), []).append(
                ('unk' if foreign(k, h, vocab) or lost_exc(k, g, k, h) else 'bad',
                 '%s happens when %s; it must happen exactly when %s' % (show_key(k), show_guard(h)[:300], show_guard(g)[:300])))
            if foreign(k, h, vocab):
                pass
    for k, g in E2.items():
        if k not in E1:
            g = B.AND(g, g0)
            if g and not equiv(g, 0):
                only2[k] = g
    by2 = {}
    for k, g in only2.items():
        by2.setdefault((k[0], k[1]), []).append((k, g))
    for k, g in only1.items():
        sl = (k[0], k[1])
        cand = by2.get(sl, [])
        if cand:
            fo = set()
            for k2, g2 in cand:
                fo |= foreign(k2, g2, vocab)
            w1 = fn_names(k[2:]) & {'#while', '#mu', '#big'}
            if w1 and not any(w1 <= fn_names(k2[2:]) for k2, g2 in cand) \
                    and ('#big' in w1 or any(looping(k2) or fn_names(k2[2:]) - fn_names(k[2:]) for k2, g2 in cand)):
                # a loop may have become a comprehension or a library call
                fo |= w1
            if all(lost_exc(k, g, k2, g2) for k2, g2 in cand):
                fo |= {'exc'}
            if own_record(k) and (uncopied(k) in [uncopied(k2) for k2, g2 in cand]
                                  or uncopied(k[2]) not in [uncopied(k2[2]) for k2, g2 in cand]):
                fo |= {'copy'}
            slots.setdefault(sl, []).append(
                ('unk' if fo else 'bad', 'expected %s when %s; found %s%s' % (
                    show_key(k), show_guard(g)[:200], '; '.join('%s when %s' % (show_key(a), show_guard(b)[:200]) for a, b in cand[:3]),
                    (' [not understood: %s]' % sorted(fo)) if fo else '')))
        else:
            slots.setdefault(sl, []).append(
                ('unk' if hidden or own_record(k) else 'bad', 'missing effect: %s when %s%s' % (
                    show_key(k), show_guard(g)[:300], (' [uninspected calls: %s]' % sorted(hidden)) if hidden else '')))
    exp = {(k[0], k[1]) for k in only1}
    for sl, ks in by2.items():
        if sl in exp:
            continue
        for k, g in ks:
            fo = foreign(k, g, vocab)
            if own_record(k):
                fo = fo | {'own record'}
            if sl[1] in vocab and not fo:
                slots.setdefault(sl, []).append(('bad', 'unexpected effect: %s when %s' % (show_key(k), show_guard(g)[:300])))
            elif sl[0] in ('return', 'raise', 'yield') and not fo:
                slots.setdefault(sl, []).append(('bad', 'unexpected effect: %s when %s' % (show_key(k), show_guard(g)[:300])))
            else:
                slots.setdefault(sl, []).append(('unk', 'unexpected effect: %s [outside the vocabulary %s]' % (show_key(k), sorted(fo))))
    for sl, res in sorted(slots.items()):
        cons = '%s:%s %s' % (name, sl[0], sl[1])
        bads = [r for r in res if r != 'ok' and r[0] == 'bad']
        unks = [r for r in res if r != 'ok' and r[0] == 'unk']
        if bads and not unks and not loose:
            ctx.bad(rule, cons, bads[0][1][:1200], loc)
        elif bads or unks:
            ctx.unk(rule, cons, short((unks or bads)[0][1]), loc)
        else:
            ctx.ok(rule, cons, loc)


def show_key(k):
    return '%s %s' % (k[0], ', '.join(show(x) for x in k[2:] if x != ('loops',)))[:400]


def check_order(ctx, rule, name, s1, s2, order, loc, argmap=None, pairs=None, precise=False):
    """events named in `order` (call names, or 'store:slot') keep the relative order of the reference: events with the
    same payload are matched individually, otherwise by name"""
    def evs(s):
        out = []
        for e in s.events:
            if e.handler and noexc(e.guard) == 0:
                continue
            n = None
            if e.kind == 'call' and not e.inlined and e.name in order:
                n = e.name
                a, kw = tuple(e.args or ()), dict(e.kw or {})
                if argmap and n in argmap:
                    a, kw = argmap[n](a, kw)
                pl = (e.base or ('fn',),) + a + tuple(('kw', k, v) for k, v in sorted(kw.items()))
            elif e.kind == 'store' and e.target is not None and 'store:' + slot_of(e.target) in order:
                n = 'store:' + slot_of(e.target)
                pl = (e.target, e.value)
            if n is None or (precise and e.kind == 'store' and not visible(s, e.target)):
                continue
            k = ('pl', n) + pl
            if needs_alpha(k):
                k = deep(k, alpha(s), {})
            out.append((n, k, e))
        return out
    a, b = evs(s1), evs(s2)
    ka, kb = {x[1] for x in a}, {x[1] for x in b}
    # names whose payloads do not all match are compared as one group
    coarse = {n for n, k, e in a if k not in kb} | {n for n, k, e in b if k not in ka}
    gid = lambda n, k: n if n in coarse else k

    def rel(seq):
        """(first, second) -> condition under which both happen in this order, and the events"""
        r = {}
        for i, (n, k, e) in enumerate(seq):
            for (m, q, f) in seq[i + 1:]:
                if n[:6] == m[:6] == 'store:' or (pairs is not None and not (pairs(e, f) or pairs(f, e))):
                    continue      # the order of two assignments shows only in the final values, compared elsewhere
                # inside the same innermost loop the two alternate; the first of the body comes first
                g = B.AND(noexc(e.guard), noexc(f.guard))
                if g != 0:
                    z = (gid(n, k), gid(m, q))
                    r[z] = (B.OR(r[z][0], g) if z in r else g, (e, f))
        return r
    ra, rb = rel(a), rel(b)
    for (x, y), (g, _) in ra.items():
        if x == y:
            continue
        if precise and (isinstance(x, str) or isinstance(y, str)):
            continue
        only = B.AND(g, B.NOT(ra[(y, x)][0])) if (y, x) in ra else g
        if not precise and (y, x) in ra:
            continue
        if not only:
            continue
        n1 = x if isinstance(x, str) else x[1]
        n2 = y if isinstance(y, str) else y[1]
        inv = rb.get((y, x))
        cons = '%s:order %s<%s' % (name, n1, n2)
        wrong = 0
        if inv is not None:
            wrong = inv[0]
            if precise:
                if (x, y) in rb:
                    wrong = B.AND(wrong, B.NOT(rb[(x, y)][0]))
                wrong = B.AND(wrong, only)
                if wrong and B.AND(wrong, axioms([wrong])) == 0:
                    wrong = 0
        if wrong:
            ctx.bad(rule, cons, '%s must come before %s' % (n1, n2), inv[1][0].loc())
        elif (x, y) in rb:
            if precise:
                ctx.count('orderings kept')
            else:
                ctx.ok(rule, cons, loc)


class TimeLimit(BaseException):
    pass


class limit:
    """a contract whose comparison takes too long is undecided: the check always answers"""
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.t0 = time.process_time()
        used = getattr(self.ctx, 'slow', 0)
        k = 10 if getattr(self.ctx, 'tier', '') == 'thorough' else 1
        t = k * (30 if used < 240 * k else 4 if used < 420 * k else 0.5)
        t = float(os.environ.get('VERIF_LIMIT', t))

        def fire(*a):
            raise TimeLimit()
        self.old = signal.signal(signal.SIGPROF, fire)
        signal.setitimer(signal.ITIMER_PROF, t)

    def __exit__(self, t, v, tb):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)
        self.ctx.slow = getattr(self.ctx, 'slow', 0) + time.process_time() - self.t0
        if t is TimeLimit:
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_tb(tb)
            raise AnalysisError('time limit')


def specs(ctx, rule, text):
    """several contracts in one text: blocks headed by '@ [getter|setter|func] where [| keyword arguments]'"""
    blocks, cur = [], None
    for line in textwrap.dedent(text).split('\n'):
        if line.startswith('@ '):
            cur = [line[2:].strip(), []]
            blocks.append(cur)
        elif cur is not None:
            cur[1].append(line)
    for head, body in blocks:
        head = head.split('  #')[0]
        head, _, kws = head.partition('|')
        w = head.split()
        kw = eval('dict(%s)' % kws, {}) if kws.strip() else {}
        kind = w[0] if w[0] in ('getter', 'setter', 'func', 'method') else 'method'
        where = w[-1]
        if os.environ.get('VERIF_ONLY') and os.environ['VERIF_ONLY'] not in where:      # tools only
            continue
        try:
            if w[0] == 'const':
                const_contract(ctx, rule, where, '\n'.join(body))
                continue
            if ctx.skipped(rule, where):
                raise AnalysisError('time limit in the first run')
            plain = ctx.P
            try:
                if '.cy_' in where or where.startswith('gnome.lib.'):
                    ctx._p = ctx.native
                    if where.startswith('gnome.lib.'):
                        ctx._p.add_lib('.'.join(where.split('.')[:3]))
                with limit(ctx):
                    contract(ctx, rule, where, '\n'.join(body) + '\n', kind=kind, **kw)
            finally:
                ctx._p = plain
        except (AnalysisError, RecursionError) as e:
            if isinstance(e, RecursionError) or str(e) == 'time limit':
                ctx.cut(rule, where)
            ctx.unk(rule, kw.get('construct', where), str(e) or type(e).__name__)
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                raise
            ctx.unk(rule, kw.get('construct', where), '%s: %s' % (type(e).__name__, e))


def spec_rules(prop):
    """the rules of specs/<prop>.spec: sections headed by '## Rn text'"""
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', prop + '.spec')
    out, cur = [], None
    for line in open(path):
        if line.startswith('## '):
            rid, _, text = line[3:].strip().partition(' ')
            cur = [rid, text, []]
            out.append(cur)
        elif cur is not None:
            cur[2].append(line)
    return [(rid, text, (lambda rid, body: lambda ctx: specs(ctx, rid, body))(rid, ''.join(lines))) for rid, text, lines in out]
