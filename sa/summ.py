"""Gated-effect summaries.

A flow-sensitive abstract interpretation of function bodies.  Locals are
propagated into canonical expressions, helpers are inlined through the class
hierarchy, and every observable effect (attribute/subscript store, call, return,
raise, delete, yield) is recorded together with the boolean condition under
which it is reached (a BDD over canonicalised conditions), the loops it is
nested in, and its position.  Nothing of the analysed program is executed.
"""
import ast
from fractions import Fraction
from .bdd import BDD
from .program import Program, ClassInfo, FuncInfo, dotted, import_bindings, AnalysisError

B = BDD()          # one manager per process: equal functions <=> equal ids
_rc = {}


def key(e):
    """sort key of an expression: order of first appearance (consistent within a process)"""
    r = _rc.get(e)
    if r is None:
        r = len(_rc)
        _rc[e] = r
    return r


# ---------------------------------------------------------------- expressions
C = lambda v: ('c', v)
NONE, TRUE, FALSE = ('c', None), ('b', 1), ('b', 0)


def isconst(e):
    return e[0] == 'c'


def isnum(e):
    return e[0] == 'c' and isinstance(e[1], (int, float)) and not isinstance(e[1], bool)


def _frac(v):
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return None
        return Fraction(repr(v)) if 'e' not in repr(v) and 'n' not in repr(v) else Fraction(v)
    return Fraction(v)


def to_poly(e):
    """-> dict monomial -> Fraction, or None"""
    if e[0] == 'poly':
        return dict(e[1])
    if isnum(e):
        f = _frac(e[1])
        if f is None:
            return {((e, 1),): Fraction(1)}
        return {(): f} if f else {}
    if e[0] == 'c' and not isinstance(e[1], (bool, type(None))):
        return None
    if e[0] in ('tuple', 'list', 'dict', 'fstr', 'cat', 'set'):
        return None
    return {((e, 1),): Fraction(1)}


ALL = ('slice', ('c', None), ('c', None), ('c', None))


def unsliced(e):
    """x[:] used as an operand is x"""
    while e[0] == 's' and e[2] == ALL or e[0] == 'copy':
        e = e[1]
    return e


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return C(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return C(int(c)) if c.denominator == 1 else C(float(c))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ('poly', tuple(sorted(p.items(), key=lambda t: key(t[0]))))


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def mmul(m1, m2):
    d = {}
    for a, k in m1 + m2:
        d[a] = d.get(a, 0) + k
    return tuple(sorted(((a, k) for a, k in d.items() if k), key=key))


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
            if r[m] == 0:
                del r[m]
    return r


def is_text(e):
    return e[0] == 'fstr' or e[0] == 'c' and isinstance(e[1], str)


def text(*parts):
    '''strings put together, however they were'''
    out = []
    for p in parts:
        while p[0] == 'call' and p[1] == ('g', 'str') and len(p[2]) == 1 and not p[3]:
            p = p[2][0]
        for x in p[1:] if p[0] == 'fstr' else (p,):
            if x[0] == 'c' and isinstance(x[1], str):
                if out and out[-1][0] == 'c' and isinstance(out[-1][1], str):
                    out[-1] = ('c', out[-1][1] + x[1])
                elif x[1]:
                    out.append(x)
            else:
                out.append(x)
    if not out:
        return ('c', '')
    if len(out) == 1 and out[0][0] == 'c' and isinstance(out[0][1], str):
        return out[0]
    return ('fstr',) + tuple(out)


def formatted(s, args, kw):
    '''s.format(*args, **kw) as a text, or None'''
    import string
    parts, auto = [], 0
    try:
        fields = list(string.Formatter().parse(s))
    except ValueError:
        return None
    for lit, name, spec, conv in fields:
        if lit:
            parts.append(('c', lit))
        if name is None:
            continue
        head, *attrs = name.split('.')
        if '[' in name or '{' in (spec or '') or not all(a.isidentifier() for a in attrs):
            return None
        if head == '':
            head, auto = str(auto), auto + 1
        if head.isdigit() and int(head) < len(args) and not any(a[0] == 'starred' for a in args):
            v = args[int(head)]
        elif head in kw:
            v = kw[head]
        else:
            return None
        for a in attrs:
            v = ('a', v, a)
        if spec or conv:
            v = ('fmt', v, conv or '', spec or '')
        parts.append(v)
    return text(*parts)


def add(a, b, s=1):
    pa, pb = to_poly(a), to_poly(b)
    if pa is None or pb is None:
        if s == 1 and (is_text(a) or is_text(b)):
            return text(a, b)
        return ('cat' if s == 1 else 'sub', a, b)
    if a[0] == 'ite' and s and isnum(b) is False and False:
        pass
    return from_poly(padd(pa, pb, s))


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if pa is None or pb is None:
        return ('op', '*', a, b)
    if len(pa) * len(pb) > 64:
        return ('op', '*') + tuple(sorted((a, b), key=key))
    return from_poly(pmul(pa, pb))


def div(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if pa is None or pb is None:
        return ('op', '/', a, b)
    if not pb:
        return ('op', '/', a, b)
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = {tuple((x, -k) for x, k in m): 1 / c}
    else:
        # take out what all terms share, normalise the leading coefficient
        ms = [dict(m) for m in pb]
        common = {x: min(m[x] for m in ms) for x in ms[0] if all(m.get(x, 0) > 0 for m in ms)}
        if common:
            pb = pmul(pb, {tuple((x, -k) for x, k in sorted(common.items(), key=lambda t: key(t[0]))): 1})
            pa = pmul(pa, {tuple((x, -k) for x, k in sorted(common.items(), key=lambda t: key(t[0]))): 1})
        lead = sorted(pb.items(), key=lambda t: key(t[0]))[0][1]
        nb = from_poly({m: c / lead for m, c in pb.items()})
        inv = {((nb, -1),): 1 / lead}
    return from_poly(pmul(pa, inv))


def neg(a):
    return mul(C(-1), a)


def sym(tag, *xs):
    return (tag,) + tuple(sorted(xs, key=key))


def updated(base, idx, v):
    if base[0] == 'upd' and base[2] == idx:
        base = base[1]       # written again at the same place
    return ('upd', base, idx, v)


# ---------------------------------------------------------------- truth
def atom(a):
    return B.var(a)


def truth(e):
    t = e[0]
    if t == 'b':
        return e[1]
    if t == 'c':
        return 1 if e[1] else 0
    if t == 'ite':
        return B.ite(e[1], truth(e[2]), truth(e[3]))
    if t == 'call' and e[1] == ('g', 'bool') and len(e[2]) == 1:
        return truth(e[2][0])
    if t == 'len':
        if e[1][0] not in ('b', 'tuple', 'list', 'c', 'ite'):
            return truth(e[1])
        return atom(('nonempty', e[1]))
    if t == 'tuple' and len(e) > 1:
        return 1
    if t == 'tuple':
        return 0
    return atom(('t', e))


def cmp_(op, a, b):
    """-> bdd node"""
    if op in ('NotEq',):
        return B.NOT(cmp_('Eq', a, b))
    if op == 'IsNot':
        return B.NOT(cmp_('Is', a, b))
    if op == 'NotIn':
        return B.NOT(cmp_('In', a, b))
    if op == 'Gt':
        return cmp_('Lt', b, a)
    if op == 'LtE':
        return B.NOT(cmp_('Lt', b, a))
    if op == 'GtE':
        return B.NOT(cmp_('Lt', a, b))
    for x, o in ((a, b), (b, a)):
        if o == C(0) and (op == 'Eq' or op == 'Lt' and x is b) and x[0] in ('np', 'call'):
            # the number of elements a mask selects
            m = x[2][0] if x[0] == 'np' and x[1] == 'sum' and len(x[2]) == 1 and not x[3] else \
                x[2][0] if x[0] == 'call' and x[1] in (('g', 'numpy.count_nonzero'), ('g', 'sum')) and len(x[2]) == 1 and not x[3] else None
            if m is not None and m[0] == 'b' and m[1] > 1:
                g = truth(('len', m))
                return g if op == 'Lt' else B.NOT(g)
    # distribute over ite
    for i, x in enumerate((a, b)):
        if x[0] == 'ite' and _size(x) < 60:
            o = (a, b)[1 - i]
            f = (lambda y: cmp_(op, y, o)) if i == 0 else (lambda y: cmp_(op, o, y))
            return B.ite(x[1], f(x[2]), f(x[3]))
    if op == 'Eq':
        if a == b:
            return 1
        if isconst(a) and isconst(b):
            return 1 if a[1] == b[1] else 0
        if a == NONE or b == NONE:
            return cmp_('Is', a, b)
        for x, o in ((a, b), (b, a)):
            if x[0] == 'b' and o[0] == 'c' and o[1] in (0, 1, True, False):
                return x[1] if o[1] else B.NOT(x[1])
            if x[0] == 'len' and o == C(0):
                return B.NOT(truth(x))
            if o[0] == 'c' and isinstance(o[1], bool):
                return truth(x) if o[1] else B.NOT(truth(x))
            if o[0] == 'b' and o[1] in (0, 1):
                return truth(x) if o[1] else B.NOT(truth(x))
        pa, pb = to_poly(a), to_poly(b)
        if pa is not None and pb is not None:
            p = padd(pa, pb, -1)
            if len(p) <= 2 and (isconst(a) or isconst(b) or len(p) == 2):
                x, y = sorted((a, b), key=key)
                if a[0] != 'poly' and b[0] != 'poly':
                    return atom(('eq', x, y))
            lead = sorted(p.items(), key=lambda t: key(t[0]))
            if lead:
                p = {m: c / lead[0][1] for m, c in p.items()}
            return atom(('eq0', from_poly(p)))
        x, y = sorted((a, b), key=key)
        return atom(('eq', x, y))
    if op == 'Is':
        if a == b:
            return 1
        if a == NONE or b == NONE:
            x = b if a == NONE else a
            if x[0] in ('c', 'tuple', 'list', 'dict', 'b', 'poly', 'len', 'fstr'):
                return 0
            if x[0] == 's' and isnum(x[2]) and x[1][0] == 'a' and x[1][2] in ('data', '_data'):
                return 0   # an element of an array of numbers
            return atom(('isnone', x))
        for x, o in ((a, b), (b, a)):
            if o[0] == 'b' and o[1] in (0, 1) or (o[0] == 'c' and isinstance(o[1], bool)):
                v = o[1]
                return truth(x) if v else B.NOT(truth(x))
        x, y = sorted((a, b), key=key)
        return atom(('is', x, y))
    if op == 'In':
        if b[0] in ('tuple', 'list', 'set') and len(b) <= 8:
            r = 0
            for x in b[1:]:
                r = B.OR(r, cmp_('Eq', a, x))
            return r
        if b[0] == 'mcall' and b[1] == 'keys' and len(b[3]) == 0:
            b = b[2]
        return atom(('in', a, b))
    if op == 'Lt':
        if isnum(a) and isnum(b):
            return 1 if a[1] < b[1] else 0
        if a == b:
            return 0
        # len comparisons
        if b[0] == 'len' and a == C(0):
            return truth(b)
        if a[0] == 'len' and b == C(1):
            return B.NOT(truth(a))
        if a[0] == 'len' and b == C(0):
            return 0
        pa, pb = to_poly(a), to_poly(b)
        if pa is None or pb is None:
            return atom(('lt', a, b))
        p = padd(pa, pb, -1)
        # normalise sign so that p<0 and -p<0 share structure: (p<0) kept, scaled positively
        lead = sorted(p.items(), key=lambda t: key(t[0]))
        if not lead:
            return 0
        s = abs(lead[0][1])
        p = {m: c / s for m, c in p.items()}
        return atom(('lt0', from_poly(p)))
    raise ValueError(op)


BIG = 20000
BIGS = {}


def _size(e, lim=400):
    n, st = 0, [e]
    while st:
        x = st.pop()
        n += 1
        if n > lim:
            return n
        if isinstance(x, tuple):
            st.extend(x)
    return n


REFS, REFIDX = [], {}


def compact(e, label):
    """a large call value is kept once and referred to by number"""
    if _size(e, 250) <= 250 or contains(e, lambda x: x[0] in ('phi', 'loopvar', 'loopout', 'closure')):
        return e
    i = REFIDX.get(e)
    if i is None:
        i = REFIDX[e] = len(REFS)
        REFS.append(e)
    return ('ref', i, label)


def ite(g, a, b):
    if g == 1:
        return a
    if g == 0:
        return b
    if a == b:
        return a
    if a[0] == 'b' and b[0] == 'b':
        return ('b', B.ite(g, a[1], b[1]))
    if _size(a, BIG) > BIG or _size(b, BIG) > BIG or a[0] == 'gdict' or b[0] == 'gdict':
        r = gdict(('ite', g, a, b))
        if r is not None:
            return r
        if a[0] != 'gdict' and b[0] != 'gdict' or _size(a, BIG) > BIG or _size(b, BIG) > BIG:
            return ('unk', 'big', BIGS.setdefault((g, a, b), len(BIGS)))
    # canonical: the alternatives with the exact condition of each, in a fixed order
    d = {}
    for gg, l in leaves(('ite', g, a, b)):
        d[l] = B.OR(d.get(l, 0), gg)
    if len(d) == 1:
        return next(iter(d))
    if len(d) <= 8:
        ls = sorted(d, key=key)
        r = ls[-1]
        for l in reversed(ls[:-1]):
            r = ('ite', d[l], l, r)
        return r
    return ('ite', g, a, b)


ABSENT = ('absent',)


def gdict(e):
    """alternatives that are all dictionaries with constant keys: one dictionary whose entries are conditional"""
    ls = leaves(e)
    if not ls or not all(l[0] in ('dict', 'gdict') and all(isconst(k) for k, _ in l[1]) for _, l in ls):
        return None
    ks = sorted({k for _, l in ls for k, _ in l[1]}, key=key)
    out = []
    for k in ks:
        v = None
        for g, l in ls:
            x = dict(l[1]).get(k, ABSENT)
            v = x if v is None else ite(g, x, v)
        out.append((k, v))
    return ('gdict', tuple(out))


def ite2(e):
    return ('ite', e[1], TRUE, FALSE)


def map_leaves(e, f):
    if e[0] == 'ite':
        return ite(e[1], map_leaves(e[2], f), map_leaves(e[3], f))
    return f(e)


def is_dict(e):
    if e[0] == 'ite':
        return is_dict(e[2]) and is_dict(e[3])
    if e[0] in ('upd', 'mutated'):
        return is_dict(e[1])
    if e[0] == 'phi':
        return e[3] == ('dict',)
    if e[0] == 'loopout':
        return bool(e[4]) and is_dict(e[4])
    return e[0] in ('dict', 'gdict')


def apart(i, j):
    '''do two subscripts name different elements for certain: integers (or tuples with an integer at the same place) of one sign'''
    if isnum(i) and isnum(j) and isinstance(i[1], int) and isinstance(j[1], int):
        return i[1] != j[1] and (i[1] >= 0) == (j[1] >= 0)
    if i[0] == 'tuple' and j[0] == 'tuple' and len(i) == len(j):
        return any(apart(x, y) for x, y in zip(i[1:], j[1:]))
    return False


def mkdict(items):
    '''dictionary value: entries with constant keys are unordered'''
    items = tuple(items)
    if all(isconst(k) for k, _ in items):
        d = {}
        for k, v in items:
            d[k] = v
        items = tuple(sorted(d.items(), key=lambda t: key(t[0])))
    return ('dict', items)


def cat(a, b):
    if a == ('list',):
        return b
    if a[0] == 'list' and b[0] == 'list':
        return a + b[1:]
    if a[0] == 'ite':
        return ite(a[1], cat(a[2], b), cat(a[3], b))
    return ('cat', a, b)


def is_set(e):
    return e[0] in ('set', 'sadd') or e[0] == 'comp' and e[1] == 'set' or e[0] == 'phi' and e[3] == ('set',) \
        or e[0] == 'ite' and is_set(e[2]) and is_set(e[3])


def own_list(e):
    '''a list made here, given a small enough value'''
    return e[0] in ('list', 'cat') or e[0] == 'comp' and e[1] == 'list' or e[0] == 'phi' and e[3] == ('list',) \
        or e[0] == 'ite' and _size(e) < 120 and len(leaves(e)) <= 4 and all(own_list(l) for _, l in leaves(e))


def sadd(a, x):
    if a[0] == 'set':
        return ('set',) + tuple(sorted(set(a[1:]) | {x}, key=key))
    if a[0] == 'ite':
        return ite(a[1], sadd(a[2], x), sadd(a[3], x))
    return ('sadd', a, x)


def origin(e):
    while e[0] in ('upd', 'mutated', 'hphi'):
        e = e[1]
    return e


def leaves(e, g=1):
    """alternatives of a gated value: [(guard, expr)]"""
    if e[0] == 'ite':
        return leaves(e[2], B.AND(g, e[1])) + leaves(e[3], B.AND(g, B.NOT(e[1])))
    return [(g, e)] if g != 0 else []


def walk(e):
    """all sub-expressions (shared ones once), including those in conditions"""
    st = [e]
    seen, gs = set(), set()
    keep = []
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if id(x) in seen:
                continue
            seen.add(id(x))
            keep.append(x)
            if x and isinstance(x[0], str):
                yield x
                if x[0] == 'ref':
                    st.append(REFS[x[1]])
                    continue
                if x[0] in ('ite', 'b'):
                    if x[1] not in gs:
                        gs.add(x[1])
                        st.extend(B.support(x[1]))
                    if x[0] == 'ite':
                        st += [x[2], x[3]]
                    continue
            st.extend(x)


def contains(e, pred):
    return any(pred(x) for x in walk(e))


def subst(e, f, memo=None):
    """bottom-up rewriting by f (expr->expr or None)"""
    memo = {} if memo is None else memo
    if not isinstance(e, tuple):
        return e
    if e in memo:
        return memo[e]
    r = tuple(subst(x, f, memo) for x in e)
    if r and isinstance(r[0], str):
        q = f(r)
        if q is not None:
            r = q
    memo[e] = r
    return r


# ---------------------------------------------------------------- pretty
_shown = {}


def show(e):
    """the expression as text for a message, shortened where it is long"""
    r = _shown.get(e)
    if r is None:
        if len(_shown) > 200000:
            _shown.clear()
        r = _show(e)
        if len(r) > 600:
            r = r[:600] + '...'
        _shown[e] = r
    return r


def _show(e):
    if not isinstance(e, tuple):
        return str(e)
    if not e:
        return '()'
    t = e[0]
    if not isinstance(t, str):
        return '(' + ', '.join(show(x) for x in e) + ')'
    if t == 'c':
        return repr(e[1])
    if t in ('p', 'g'):
        return e[1]
    if t == 'a':
        return show(e[1]) + '.' + e[2]
    if t == 's':
        return show(e[1]) + '[' + show(e[2]) + ']'
    if t == 'call':
        return show(e[1]) + '(' + ', '.join([show(x) for x in e[2]] + ['%s=%s' % (k, show(v)) for k, v in e[3]]) + ')'
    if t == 'mcall':
        return show(e[2]) + '.' + e[1] + '(' + ', '.join([show(x) for x in e[3]] + ['%s=%s' % (k, show(v)) for k, v in e[4]]) + ')'
    if t == 'b':
        return '{' + B.show(e[1], show_atom) + '}'
    if t == 'ite':
        return '(' + show(e[2]) + ' if {' + B.show(e[1], show_atom) + '} else ' + show(e[3]) + ')'
    if t == 'poly':
        out = []
        for m, c in e[1]:
            s = '*'.join(show(a) + ('' if k == 1 else '^%d' % k) for a, k in m)
            if not s:
                s = str(c)
            elif c != 1:
                s = str(c) + '*' + s
            out.append(s)
        return '(' + ' + '.join(out) + ')'
    if t == 'len':
        return 'len(' + show(e[1]) + ')'
    if t == 'elt':
        return 'each(' + show(e[1]) + ')'
    return t + '(' + ', '.join(show(x) if isinstance(x, tuple) else str(x) for x in e[1:]) + ')'


def show_atom(a):
    t = a[0]
    if t == 't':
        return show(a[1])
    if t == 'lt0':
        return show(a[1]) + ' < 0'
    if t == 'eq':
        return show(a[1]) + ' == ' + show(a[2])
    if t == 'eq0':
        return show(a[1]) + ' == 0'
    if t == 'isnone':
        return show(a[1]) + ' is None'
    if t == 'in':
        return show(a[1]) + ' in ' + show(a[2])
    if t == 'nonempty':
        return 'len(' + show(a[1]) + ')>0'
    return '%s(%s)' % (t, ', '.join(show(x) if isinstance(x, tuple) else str(x) for x in a[1:]))


def show_guard(g):
    return B.show(g, lambda a: show_atom(a)[:600])


# ---------------------------------------------------------------- events
class Event:
    __slots__ = ('kind', 'target', 'value', 'args', 'kw', 'guard', 'loops', 'node', 'stack', 'seq',
                 'inlined', 'aug', 'name', 'base', 'ret', 'handler', 'resolved', 'local')

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    @property
    def func(self):
        return self.stack[-1] if self.stack else None

    def loc(self):
        f = self.func
        return '%s:%s (%s)' % (f.module.rel, getattr(self.node, 'lineno', '?'), f.qualname) if f else '?'

    def __repr__(self):
        return '<%s %s %s | %s%s @%s>' % (
            self.kind, show(self.target) if self.target else self.name or '',
            ('= ' + show(self.value)) if self.value is not None and isinstance(self.value, tuple) else
            '(' + ', '.join(show(a) for a in self.args or ()) + ')' if self.kind == 'call' else '',
            show_guard(self.guard), ' loops=' + str([show(l) for l in self.loops]) if self.loops else '',
            getattr(self.node, 'lineno', '?'))


class State:
    __slots__ = ('env', 'heap', 'pc')

    def __init__(self, env, heap, pc):
        self.env, self.heap, self.pc = env, heap, pc

    def fork(self, pc):
        return State(dict(self.env), dict(self.heap), pc)


def merge(g, a, b):
    """state a if g else state b"""
    if a.pc == 0:
        return State(b.env, b.heap, b.pc)
    if b.pc == 0:
        return State(a.env, a.heap, a.pc)
    env = {}
    for k in set(a.env) | set(b.env):
        x, y = a.env.get(k), b.env.get(k)
        if x is None:
            x = ('unbound', k)
        if y is None:
            y = ('unbound', k)
        env[k] = ite(g, x, y)
    heap = {}
    for k in set(a.heap) | set(b.heap):
        heap[k] = ite(g, a.heap.get(k, k), b.heap.get(k, k))
    return State(env, heap, B.OR(a.pc, b.pc))


def accumulate(x, ph, y, X):
    '''value after a loop over X of a variable that starts as x and is ph -> y in one iteration'''
    alts = leaves(y)
    # list building
    if all(l == ph or (l[0] == 'cat' and l[1] == ph and l[2][0] == 'list' and len(l[2]) == 2) for _, l in alts):
        grow = [(g, l[2][1]) for g, l in alts if l != ph]
        if len(grow) == 1 and not contains(grow[0][1], lambda q: q == ph) and x[0] in ('list', 'cat', 'comp'):
            g, e = grow[0]
            return cat(x, ('comp', 'list', e, ((X, ('b', g)),)))
        return None
    if x == ('dict', ()) and all(l == ph or (l[0] == 'upd' and l[1] == ph) for _, l in alts):
        grow = [(g, l[2], l[3]) for g, l in alts if l != ph]
        if len(grow) == 1 and not contains(grow[0][1:], lambda q: q == ph):
            return ('comp', 'dict', ('tuple',) + grow[0][1:], ((X, ('b', grow[0][0])),))
        return None
    if all(l == ph or (l[0] == 'sadd' and l[1] == ph) for _, l in alts) and is_set(x):
        grow = [(g, l[2]) for g, l in alts if l != ph]
        if len(grow) == 1 and not contains(grow[0][1], lambda q: q == ph):
            c = ('comp', 'set', grow[0][1], ((X, ('b', grow[0][0])),))
            return c if x == ('set',) else ('sunion', x, c)
        return None
    if len(alts) > 1 and all(to_poly(l) is not None for _, l in alts) and to_poly(x) is not None:
        ds = [(g, add(l, ph, -1)) for g, l in alts]
        if not any(contains(d, lambda q: q == ph) for _, d in ds):
            r = C(0)
            for g, d in ds:
                r = ite(g, d, r)
            return add(x, ('sumover', r, X))
    return None


class Frame:
    def __init__(self, func, module, cls, parent=None):
        self.func, self.module, self.cls, self.parent = func, module, cls, parent
        self.returns = []
        self.ret_envs = []
        self.loops_stack = []
        self.local_imports = {}
        self.globals = set()


MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'pop', 'remove', 'setdefault', 'sort', 'clear',
            'reverse', 'popitem', 'discard', 'appendleft'}
NPM = {'sum', 'mean', 'any', 'all', 'prod', 'cumsum', 'copy', 'ravel', 'clip', 'argsort', 'nonzero', 'reshape',
       'min', 'max', 'argmin', 'argmax', 'round', 'repeat', 'squeeze', 'astype', 'transpose', 'dot'}
COMMON_METHODS = {'get', 'items', 'keys', 'values', 'copy', 'format', 'join', 'split', 'replace', 'strip', 'read', 'write',
                  'close', 'open', 'index', 'count', 'encode', 'decode', 'lower', 'upper', 'startswith', 'endswith', 'isoformat',
                  'total_seconds', 'timetuple', 'date', 'time', 'fill', 'flatten', 'tolist', 'at', 'save', 'load', 'info',
                  'debug', 'warning', 'error', 'exception', 'send', 'recv', 'next', 'seek', 'flush', 'is_valid'}
BUILTINS = set(dir(__import__('builtins')))


class Summ:
    """Summarise one entry function."""

    def __init__(self, prog, cls=None, inline=None, max_depth=6, heap=True, getters='simple',
                 types=None, max_events=6000, inline_init=False, opaque=(), subst_self_attr=None,
                 setters=True, overrides=None, uniq=False, fresh=(), inline_super=True):
        self.inline_super = inline_super
        self.p = prog
        self.overrides = overrides or {}
        self.uniq = uniq
        self.fresh = set(fresh)      # attributes whose stores are not forwarded to later reads
        self.cls = cls
        self.inline_pred = inline or (lambda f: True)
        self.max_depth = max_depth
        self.use_heap = heap
        self.getters = getters
        self.types = dict(types or {})
        self.events = []
        self.max_events = max_events
        self.loops = []
        self.stack = []
        self.handler = 0
        self.nexc = 0
        self.inlined_fns = {}
        self.nphi = 0
        self.phidef = {}
        self.opaque = set(opaque)
        self.inline_init = inline_init
        self.setters = setters
        self.mute = 0
        self.trial = 0
        self.truncated = False
        self.reads = []          # (attr, guard, node-less stack) exposed reads of self.<attr>

    # -- entry
    def run(self, func, args=None, cls=None, env=None):
        self.cls = cls or self.cls or func.cls
        st = State({}, {}, 1)
        fr = Frame(func, func.module, func.cls)
        a = func.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        for n in pos + [x.arg for x in a.kwonlyargs]:
            st.env[n] = ('p', n)
        if a.vararg:
            st.env[a.vararg.arg] = ('p', a.vararg.arg)
        if a.kwarg:
            st.env[a.kwarg.arg] = ('p', a.kwarg.arg)
        if func.cls is not None and func.kind in ('def', 'get', 'set', 'del') and pos:
            self.types[('p', pos[0])] = self.cls
            if pos[0] != 'self':
                st.env[pos[0]] = ('p', 'self')
                self.types[('p', 'self')] = self.cls
        if func.cls is not None and func.kind == 'class' and pos:
            st.env[pos[0]] = ('g', self.cls.qualname)
        for k, v in (args or {}).items():
            st.env[k] = v
        self.stack.append(func)
        end = self.block(func.node.body, st, fr)
        self.stack.pop()
        if end.pc != 0:
            fr.returns.append((end.pc, NONE, None, end.heap))
            self.emit('return', func.node, end.pc, value=NONE, name='implicit')
        self.end = end
        self.returns = fr.returns
        self.ret = self._merge_returns(fr)
        return self

    def run_closure(self, rec):
        '''summary of a local function for any arguments, in the environment where it was created'''
        info, cfr, node, env, heap = rec[:5]
        import copy
        t = copy.copy(self)
        t.events, t.loops, t.stack, t.handler, t.mute, t.trial, t.truncated, t.reads = [], [], [info], 0, 0, 0, False, []
        t.phidef = dict(self.phidef)
        t.types = dict(self.types)
        t._closures = dict(self._closures)
        t.__dict__.pop('_mu', None)
        a = info.node.args
        st = State(dict(env), dict(heap), 1)
        for i, x in enumerate(a.posonlyargs + a.args):
            st.env[x.arg] = ('p', '#%d' % i)
        for x in a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            st.env[x.arg] = ('p', '#' + x.arg)
        fr = Frame(info, cfr.module, cfr.cls, None)
        end = t.block(info.node.body, st, fr)
        if end.pc != 0:
            fr.returns.append((end.pc, NONE, None, end.heap))
        # what was already so when the function was created is no effect of it
        fr.returns = [(g, v, n, {k: x for k, x in h.items() if heap.get(k) != x}) for g, v, n, h in fr.returns]
        t.end, t.returns, t.ret = end, fr.returns, t._merge_returns(fr)
        return t

    def _merge_returns(self, fr):
        if not fr.returns:
            return ('never',)
        r = fr.returns[-1][1]
        for g, e, _, _h in reversed(fr.returns[:-1]):
            r = ite(g, e, r)
        return r

    # -- emit
    def emit(self, kind, node, guard, **k):
        if self.mute or guard == 0:
            return None
        if len(self.events) >= self.max_events:
            self.truncated = True
            return None
        e = Event(kind=kind, node=node, guard=guard, loops=tuple(self.loops), stack=tuple(self.stack),
                  seq=len(self.events), handler=self.handler, **k)
        self.events.append(e)
        return e

    # -- statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if st.pc == 0:
                break
            st = self.stmt(s, st, fr)
        return st

    def stmt(self, s, st, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return st
        return m(s, st, fr) or st

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st, fr)
        return st

    def s_Pass(self, s, st, fr):
        return st

    def s_Import(self, s, st, fr):
        for k, v in import_bindings(s, fr.module.name, fr.module.is_pkg):
            if k != '*':
                st.env[k] = ('g', self.canon_global(v))
        return st

    s_ImportFrom = s_Import

    def s_Global(self, s, st, fr):
        fr.globals.update(s.names)
        for n in s.names:
            st.env.pop(n, None)
        return st

    def s_Nonlocal(self, s, st, fr):
        return st

    def s_FunctionDef(self, s, st, fr):
        st.env[s.name] = ('closure', s.name, id(s))
        self._closures = getattr(self, '_closures', {})
        self._closures[id(s)] = (FuncInfo(s, fr.module, None), fr, s, dict(st.env), dict(st.heap))
        return st

    def s_ClassDef(self, s, st, fr):
        st.env[s.name] = ('localclass', s.name)
        return st

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr, s)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr, s)
        return st

    def s_AugAssign(self, s, st, fr):
        t = s.target
        import copy as _c
        load = _c.copy(t)
        load.ctx = ast.Load()
        old = self.ev(load, st, fr)
        rhs = self.ev(s.value, st, fr)
        v = self.binop(type(s.op).__name__, old, rhs)
        if isinstance(t, ast.Name):
            o = origin(old)
            if o[0] in ('s', 'a'):
                self.emit('maybe_store', s, st.pc, target=o, value=v, aug=(type(s.op).__name__, rhs))
            al = self.arrayloc(st.env.get(t.id))
            if t.id in fr.globals:
                self.emit('store', s, st.pc, target=('g', fr.module.name + '.' + t.id), value=v,
                          aug=(type(s.op).__name__, rhs))
            elif al is not None:
                # another name of a data array: the array itself changes
                self.emit('store', s, st.pc, target=al, value=v, aug=(type(s.op).__name__, rhs))
                st.heap[al] = v
                st.env[t.id] = ('alias', al)
            else:
                st.env[t.id] = v
            return st
        self.assign(t, v, st, fr, s, aug=(type(s.op).__name__, rhs))
        return st

    def assign(self, t, v, st, fr, node, aug=None):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                self.emit('store', node, st.pc, target=('g', fr.module.name + '.' + t.id), value=v, aug=aug)
            else:
                st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            elts = t.elts
            if v[0] in ('tuple', 'list') and len(v) - 1 == len(elts) and not any(isinstance(e, ast.Starred) for e in elts):
                for e, x in zip(elts, v[1:]):
                    self.assign(e, x, st, fr, node)
            else:
                for i, e in enumerate(elts):
                    if isinstance(e, ast.Starred):
                        self.assign(e.value, ('unk', 'star'), st, fr, node)
                    elif v[0] == 'ite':
                        self.assign(e, self.dist_sub(v, C(i), st), st, fr, node)
                    else:
                        self.assign(e, self.sub(v, C(i), st), st, fr, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, node)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            for g, b in leaves(origin(base)):
                self.store_attr(b, t.attr, v, st, fr, node, B.AND(st.pc, g), aug)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            idx = self.index(t.slice, st, fr)
            if idx[0] == 'tuple' and len(idx) > 2 and all(x == ALL for x in idx[1:]):
                idx = ALL
            b = origin(base)
            if idx == ALL and b[0] == 's' and b[2][0] == 'tuple' and any(x[0] == 'slice' for x in b[2][1:]) \
                    and all(x[0] == 'slice' or isnum(x) for x in b[2][1:]):
                # all of a view: that part of what it is a view of
                base, idx = b[1], b[2]
                b = origin(base)
            self.emit('store', node, st.pc, target=('s', b, idx), value=v, aug=aug,
                      local=isinstance(t.value, ast.Name))
            whole = idx == ALL
            named = idx[0] == 'c' and isinstance(idx[1], str)
            if base[0] == 'dict' and isconst(idx):
                new = mkdict(base[1] + ((idx, v),))
                self.revalue(base, new, st)
                if isinstance(t.value, ast.Subscript) and isinstance(t.value.value, ast.Name) and t.value.value.id in st.env:
                    # an entry of a dict that is itself an entry of a local dict
                    w, i0 = st.env[t.value.value.id], self.index(t.value.slice, st, fr)
                    if w[0] == 'upd' and w[3] == base:
                        st.env[t.value.value.id] = ('upd', w[1], w[2], new)
                    elif w[0] == 'dict':
                        st.env[t.value.value.id] = mkdict((k, new if k == i0 else x) for k, x in w[1])
                return
            if base[0] == 'gdict' and isconst(idx):
                self.revalue(base, ('gdict', mkdict(base[1] + ((idx, v),))[1]), st)
                return
            if not named and isinstance(t.value, ast.Subscript) and isinstance(t.value.value, ast.Name) \
                    and b[0] == 's' and t.value.value.id in st.env:
                # a[i][j] = v with a local array a: v shows in a
                whole_a = st.env[t.value.value.id]
                if origin(whole_a)[0] in ('ite', 'call', 'mcall', 'np') and not (b[2][0] == 'c' and isinstance(b[2][1], str)):
                    new = ('upd', whole_a, b[2], ('upd', base, idx, v))
                    self.revalue(whole_a, new, st)
                    st.env[t.value.value.id] = new
                    return
            if self.use_heap:
                if b[0] not in ('s', 'a', 'p', 'g', 'elt', 'val') and not named:
                    self.revalue(base, updated(base, idx, v), st)
                elif named:
                    st.heap[('s', b, idx)] = v
                else:
                    nv = v if whole else updated(base, idx, v)
                    if b[0] in ('s', 'a'):
                        st.heap[b] = nv
            al = self.arrayloc(st.env.get(t.value.id)) if isinstance(t.value, ast.Name) and not named else None
            if al is not None:
                st.heap[al] = v if whole else updated(st.heap.get(al, al) if st.env[t.value.id][0] == 'alias' else base, idx, v)
                st.env[t.value.id] = ('alias', al)
            elif isinstance(t.value, ast.Name) and t.value.id in st.env and not named:
                st.env[t.value.id] = updated(base, idx, v)
            elif isinstance(t.value, ast.Name) and named and t.value.id in st.env and is_dict(base):
                if base[0] == 'dict':
                    st.env[t.value.id] = mkdict(base[1] + ((idx, v),))
                elif base[0] == 'ite' and all(l[0] == 'dict' and all(isconst(k) for k, _ in l[1]) for _, l in leaves(base)):
                    st.env[t.value.id] = map_leaves(base, lambda d: mkdict(d[1] + ((idx, v),)))
                else:
                    st.env[t.value.id] = ('upd', base, idx, v)

    def revalue(self, old, new, st):
        '''the object that is the value `old` changed in place: every name and location that holds this very object sees it'''
        for d in (st.env, st.heap) if self.use_heap else (st.env,):
            for k, x in list(d.items()):
                if x is old:
                    d[k] = new

    def store_attr(self, base, attr, v, st, fr, node, pc, aug=None):
        c = self.type_of(base)
        if c is not None and self.setters:
            f = self.p.setter(c, attr)
            if f is not None and len(self.stack) < self.max_depth and f not in self.stack:
                self.emit('setprop', node, pc, target=('a', base, attr), value=v, aug=aug, resolved=f)
                if self.inline_pred(f) and f.qualname not in self.opaque:
                    sub = st.fork(pc)
                    self.call_inline(f, [base, v], {}, sub, fr, node)
                    st.heap = sub.heap
                    return
                return
        if base == ('p', 'self') or c is not None:
            pass
        self.emit('store', node, pc, target=('a', base, attr), value=v, aug=aug)
        if self.use_heap:
            loc = ('a', base, attr)
            if pc == st.pc:
                st.heap[loc] = v
            else:
                st.heap[loc] = ite(pc, v, st.heap.get(loc, loc))

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = origin(self.ev(t.value, st, fr))
                self.emit('del', s, st.pc, target=('s', b, self.index(t.slice, st, fr)))
            elif isinstance(t, ast.Attribute):
                self.emit('del', s, st.pc, target=('a', origin(self.ev(t.value, st, fr)), t.attr))
        return st

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        fr.returns.append((st.pc, v, s, st.heap))
        fr.ret_envs.append((st.pc, st.env))
        self.emit('return', s, st.pc, value=v)
        self._mark_loop_exit(fr, st.pc)
        return State(st.env, st.heap, 0)

    def _mark_loop_exit(self, fr, pc):
        for l in fr.loops_stack:
            l['ret'] = B.OR(l['ret'], pc)

    def s_Raise(self, s, st, fr):
        v = self.ev(s.exc, st, fr) if s.exc is not None else ('reraise',)
        ev = self.emit('raise', s, st.pc, value=v)
        if ev is not None:
            ev.ret = dict(st.heap)
        for l in fr.loops_stack:
            l['rs'] = B.OR(l.get('rs', 0), st.pc)
        return State(st.env, st.heap, 0)

    def s_Assert(self, s, st, fr):
        c = truth(self.ev(s.test, st, fr))
        self.emit('raise', s, B.AND(st.pc, B.NOT(c)), value=('assert',))
        return State(st.env, st.heap, B.AND(st.pc, c))

    def s_If(self, s, st, fr):
        c = truth(self.ev(s.test, st, fr))
        n0 = self.nexc
        a = self.block(s.body, st.fork(B.AND(st.pc, c)), fr)
        na, self.nexc = self.nexc, n0      # exclusive branches number their try statements alike
        b = self.block(s.orelse, st.fork(B.AND(st.pc, B.NOT(c))), fr)
        self.nexc = max(na, self.nexc)
        return merge(c, a, b)

    def s_Match(self, s, st, fr):
        self.ev(s.subject, st, fr)
        out = None
        for i, c in enumerate(s.cases):
            g = atom(('match', id(s), i))
            a = self.block(c.body, st.fork(B.AND(st.pc, g)), fr)
            out = a if out is None else merge(g, a, out)
        return out or st

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            self.emit('with', s, st.pc, value=v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ('enter', v) if v[0] != 'call' or True else v, st, fr, s)
        st = self.block(s.body, st, fr)
        self.emit('endwith', s, st.pc)
        return st

    def s_Try(self, s, st, fr):
        self.nexc += 1
        ex = atom(('exc', self.nexc))
        pre = st.fork(st.pc)
        n0 = len(self.events)
        nr = len(fr.returns)
        body = self.block(s.body, st.fork(st.pc), fr)
        assigned = assigned_names(s.body) | {n for n, v in body.env.items() if n in pre.env and pre.env[n] != v}
        if s.handlers:
            self.regate(fr, nr, lambda g: B.AND(g, B.NOT(ex)))
        body_pc = body.pc
        b2 = State(dict(body.env), dict(body.heap), B.AND(body.pc, B.NOT(ex)) if s.handlers else body.pc)
        b2 = self.block(s.orelse, b2, fr)
        out = b2
        if s.handlers:
            for i, h in enumerate(s.handlers):
                hg = ex if len(s.handlers) == 1 else B.AND(ex, atom(('exck', self.nexc, i)))
                hs = pre.fork(B.AND(pre.pc, hg))
                for n in assigned:
                    if n in body.env or n in pre.env:
                        hs.env[n] = ite(atom(('excpt', self.nexc)), body.env.get(n, ('unbound', n)),
                                        pre.env.get(n, ('unbound', n)))
                # heap: stores in the try body may or may not have happened
                for k2 in body.heap:
                    if body.heap[k2] != pre.heap.get(k2, k2):
                        hs.heap[k2] = ite(atom(('excpt', self.nexc)), body.heap[k2], pre.heap.get(k2, k2))
                if h.name:
                    hs.env[h.name] = ('exception', h.name)
                self.handler += 1
                hv = self.emit('handler', h, hs.pc, value=self.ev(h.type, pre, fr) if h.type is not None else NONE)
                hs = self.block(h.body, hs, fr)
                self.handler -= 1
                out = merge(hg, hs, out)
        if s.finalbody:
            pc0 = out.pc
            fin = State(out.env, out.heap, B.OR(out.pc, pre.pc))
            fin = self.block(s.finalbody, fin, fr)
            out = State(fin.env, fin.heap, B.AND(pc0, fin.pc) if fin.pc else 0)
        return out

    s_TryStar = s_Try

    # -- loops
    def iter_spec(self, it, target=True):
        pair = target if isinstance(target, bool) else isinstance(target, (ast.Tuple, ast.List))
        sub_t = lambda i: target.elts[i] if pair and not isinstance(target, bool) and i < len(target.elts) else pair
        """canonical iteration: list of (kind, ...) -> ('unroll', [exprs]) or ('elt', iterexpr, valueexpr)"""
        it = origin(it) if it[0] == 'mutated' and False else it
        while True:
            if it[0] == 'call' and it[1][0] == 'g' and it[1][1] in ('list', 'tuple', 'iter') and len(it[2]) == 1 and not it[3]:
                it = it[2][0]
                continue
            if it[0] == 's' and it[2] == ('slice', NONE, NONE, NONE):
                it = it[1]
                continue
            if it[0] == 'mcall' and it[1] == 'copy' and not it[3]:
                it = it[2]
                continue
            break
        if it[0] in ('tuple', 'list') and len(it) - 1 <= 12:
            return ('unroll', [('one', x) for x in it[1:]])
        if it[0] == 'call' and it[1][0] == 'g':
            fn = it[1][1]
            if fn == 'range' and len(it[2]) == 1 and it[2][0][0] == 'len':
                X = it[2][0][1]
                return ('elt', X, ('idx', X))
            if fn == 'range' and len(it[2]) == 2 and it[2][1][0] == 'len' and not (isnum(it[2][0]) and it[2][0][1] < 0):
                X = ('s', it[2][1][1], ('slice', it[2][0], NONE, NONE))
                return ('elt', X, add(('idx', X), it[2][0]))
            if fn == 'enumerate' and it[2]:
                X = it[2][0]
                s = self.iter_spec(X, sub_t(1))
                if s[0] == 'unroll':
                    return ('unroll', [('one', ('tuple', C(i), x[1])) if x[0] == 'one' else x for i, x in enumerate(s[1])])
                st = C(0)
                if len(it[2]) > 1:
                    st = it[2][1]
                for k, v in it[3]:
                    if k == 'start':
                        st = v
                return ('elt', s[1], ('tuple', add(('idx', s[1]), st), s[2]))
            if fn == 'zip':
                ss = [self.iter_spec(x, sub_t(i)) for i, x in enumerate(it[2])]
                if ss and all(s[0] == 'unroll' and all(x[0] == 'one' for x in s[1]) for s in ss):
                    n = min(len(s[1]) for s in ss)
                    return ('unroll', [('one', ('tuple',) + tuple(s[1][i][1] for s in ss)) for i in range(n)])
                return ('elt', it, ('tuple',) + tuple(s[2] if s[0] == 'elt' else ('elt', x) for s, x in zip(ss, it[2])))
            if fn == 'itertools.chain':
                return ('unroll', [('many', x) for x in it[2]])
            if fn == 'reversed' and len(it[2]) == 1 and it[2][0][0] in ('tuple', 'list'):
                return ('unroll', [('one', x) for x in reversed(it[2][0][1:])])
        if it[0] == 'mcall' and not it[3]:
            X = it[2]
            if it[1] == 'items' and pair:
                return ('elt', X, ('tuple', ('elt', X), ('val', X)))
            if it[1] == 'values':
                return ('elt', X, ('val', X))
            if it[1] == 'keys':
                return ('elt', X, ('elt', X))
        if it[0] == 'comp' and len(it[3]) == 1 and it[1] in ('list', 'gen'):
            return ('elt', it, it[2])
        if it[0] == 'poly':
            # list + list
            pass
        if it[0] == 'cat':
            return ('unroll', [('many', it[1]), ('many', it[2])])
        return ('elt', it, ('elt', it))

    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        return self.do_for(s, it, st, fr)

    s_AsyncFor = s_For

    def do_for(self, s, it, st, fr):
        if it[0] == 'call' and it[1][0] == 'g' and it[1][1] in ('list', 'tuple', 'iter', 'enumerate', 'sorted', 'reversed') \
                and it[2] and it[2][0][0] == 'ite':
            def wrap(x):
                if x[0] == 'ite':
                    return ('ite', x[1], wrap(x[2]), wrap(x[3]))
                return ('call', it[1], (x,) + it[2][1:], it[3])
            it = wrap(it[2][0])
        alts = leaves(it)
        if len(alts) > 1 and len(alts) <= 3:
            pc0 = st.pc
            n0 = n1 = self.nexc
            for g, x in alts:
                sub = st.fork(B.AND(pc0, g))
                self.nexc = n0
                r = self.do_for(s, x, sub, fr)
                n1 = self.nexc = max(n1, self.nexc)
                st = merge(g, r, State(st.env, st.heap, B.AND(pc0, B.NOT(g)))) if r.pc or True else st
                st.pc = pc0 if r.pc else B.AND(pc0, B.NOT(g))
            return st
        spec = self.iter_spec(it, s.target)
        if spec[0] == 'unroll':
            has_brk = any(isinstance(n, (ast.Break,)) for b in s.body for n in ast.walk(b))
            if not has_brk:
                for k, x in spec[1]:
                    if st.pc == 0:
                        return st
                    if k == 'one':
                        self.assign(s.target, x, st, fr, s)
                        info = {'ret': 0, 'brk': 0, 'cont': 0, 'nr': len(fr.returns)}
                        fr.loops_stack.append(info)
                        pc0 = st.pc
                        st = self.block(s.body, st, fr)
                        fr.loops_stack.pop()
                        st = self.join_exits(st, info)
                    else:
                        st = self.do_for(s, x, st, fr)
                return self.block(s.orelse, st, fr)
            spec = ('elt', it, ('elt', it))
        _, X, val = spec
        only = 1
        if it[0] == 'comp' and len(it[3]) == 1 and it[1] in ('list', 'gen'):
            # the elements selected by a comprehension: those of its source, under its condition
            X, only, val = it[3][0][0], truth(it[3][0][1]), it[2]
        pre = st.fork(st.pc)

        def start(st):
            self.assign(s.target, val, st, fr, s)
            return st.fork(st.pc)
        self.havoc(s.body, st, fr, s, X, start)
        body = start(st)
        info = {'ret': 0, 'brk': 0, 'cont': 0, 'nr': len(fr.returns), 'n0': len(self.events)}
        fr.loops_stack.append(info)
        self.loops.append(X)
        phis = (dict(st.env), dict(st.heap))
        if only != 1:
            skip = State(dict(body.env), dict(body.heap), B.AND(body.pc, B.NOT(only)))
            body = body.fork(B.AND(body.pc, only))
        end = self.block(s.body, body, fr)
        end = self.join_exits(end, info)
        if only != 1:
            tot = B.OR(end.pc, skip.pc)
            end = merge(only, end, skip)
            end = State(end.env, end.heap, tot)
        self.loops.pop()
        fr.loops_stack.pop()
        return self.loop_exit(s, X, pre, phis, end, info, fr)

    def regate(self, fr, nr, f):
        for i in range(nr, len(fr.returns)):
            r = fr.returns[i]
            fr.returns[i] = (f(r[0]),) + tuple(r[1:])
        for i in range(nr, len(fr.ret_envs)):
            fr.ret_envs[i] = (f(fr.ret_envs[i][0]), fr.ret_envs[i][1])

    def loop_exit(self, s, X, pre, phis, end, info, fr):
        pc = pre.pc
        X0, brk = X, info['brk']
        if brk:
            # the iterations after a break are not made
            X = ('until', X0, ('b', B.constrain(brk, pre.pc)))
            d = len(self.loops)
            for e in self.events[info['n0']:]:
                if len(e.loops or ()) > d and e.loops[d] == X0:
                    e.loops = tuple(e.loops[:d]) + (X,) + tuple(e.loops[d + 1:])
        elif isinstance(s, ast.While) and X[1] == ('b', 1):
            pc = 0          # left by return or an exception only

        def once(ph, y):
            '''is the break of no consequence: the variable gets one and the same value whenever it is set'''
            vs = {l for _, l in leaves(y) if l != ph}
            return len(vs) == 1 and all(isconst(v) for v in vs)
        for n, ph in phis[0].items():
            if ph[0] == 'phi' and pre.env.get(n) != ph and n in pre.env:
                self.phidef[ph[2]] = (pre.env[n], end.env.get(n, ph))
        if info['ret'] != 0:
            cond = B.constrain(info['ret'], pre.pc)
            L = atom(('loopret', X, cond))
            mine = fr.returns[info['nr']:]
            if len(mine) == 1:
                self.regate(fr, info['nr'], lambda g: B.AND(pre.pc, L))
            else:
                self.regate(fr, info['nr'], lambda g: B.AND(pre.pc, L, atom(('which', X, B.constrain(g, pre.pc)))))
            pc = B.AND(pc, B.NOT(L))
        if info.get('rs'):
            pc = B.AND(pc, B.NOT(atom(('loopraise', X, info['rs']))))
        if end.pc == 0 and info['brk'] == 0 and not isinstance(s, ast.While):
            # body never completes normally: after the loop only if the iterable was empty
            pc = B.AND(pre.pc, B.NOT(truth(('len', X))))
            out = State(dict(pre.env), dict(pre.heap), pc)
            return self.block(s.orelse, out, fr) if s.orelse else out
        out = State(dict(pre.env), dict(pre.heap), pc)
        for n in set(end.env) | set(pre.env):
            x, y = pre.env.get(n), end.env.get(n)
            if y is None or y == phis[0].get(n) or x == y:
                if x is None and y is not None:
                    out.env[n] = ('loopvar', n, X)
                continue
            ph = phis[0].get(n)
            X = X0 if brk and ph is not None and once(ph, y) else ('until', X0, ('b', B.constrain(brk, pre.pc))) if brk else X0
            acc = accumulate(x, ph, y, X) if ph is not None and x is not None else None
            if acc is not None:
                out.env[n] = acc
                continue
            d = add(y, ph, -1) if ph is not None and to_poly(y) is not None else None
            if ph is not None and x is not None and d is not None and not contains(d, lambda q: q == ph):
                out.env[n] = add(x, ('sumover', d, X))
            else:
                out.env[n] = ('loopout', n, y, X, x if x is not None else ())
        for k, v in end.heap.items():
            x, ph = pre.heap.get(k, k), phis[1].get(k, k)
            if v == x or (v == ph and ph[0] == 'hphi'):
                continue
            X = X0 if brk and once(ph, v) else ('until', X0, ('b', B.constrain(brk, pre.pc))) if brk else X0
            if ph[0] == 'hphi':
                acc = accumulate(x, ph, v, X)
                if acc is None and to_poly(v) is not None:
                    d = add(v, ph, -1)
                    if not contains(d, lambda q: q == ph):
                        acc = add(x, ('sumover', d, X))
                if acc is not None:
                    out.heap[k] = acc
                    continue
            out.heap[k] = ('loopout', 'heap', v, X, x)
        if s.orelse:
            if info['brk']:
                L = atom(('loopbreak', X0, B.constrain(info['brk'], pre.pc)))
                broke = State(dict(out.env), dict(out.heap), B.AND(out.pc, L))
                els = self.block(s.orelse, State(out.env, out.heap, B.AND(out.pc, B.NOT(L))), fr)
                if not els.pc:
                    return broke
                tot = B.OR(broke.pc, els.pc)
                out = merge(B.constrain(broke.pc, tot), broke, els)
                out.pc = tot
                return out
            out = self.block(s.orelse, out, fr)
        return out

    def join_exits(self, end, info):
        tot = B.OR(end.pc, info['cont'], info['brk'])
        for g, env, heap in info.get('states', ()):
            end = merge(B.constrain(g, tot), State(env, heap, g), end) if end.pc else State(env, heap, g)
        return State(end.env, end.heap, tot)

    def havoc(self, body, st, fr, node, X, start):
        """what one iteration can change is unknown at the start of the next: found by a silent trial iteration"""
        names = assigned_names(body, self.trial >= 1)
        locs = ()
        if self.trial < 1:
            saved = self.nphi, self.nexc, self.truncated, len(fr.returns)
            nr = len(self.reads)
            self.trial += 1
            self.mute += 1
            info = {'ret': 0, 'brk': 0, 'cont': 0, 'nr': len(fr.returns)}
            fr.loops_stack.append(info)
            outer = [dict(l) for l in fr.loops_stack[:-1]]
            self.loops.append(X)
            t0 = st.fork(st.pc)
            b0 = start(t0)
            base_env, base_heap = dict(b0.env), dict(b0.heap)
            end = self.join_exits(self.block(body, b0, fr), info)
            self.loops.pop()
            fr.loops_stack.pop()
            for l, o in zip(fr.loops_stack, outer):
                l.clear()
                l.update(o)
            self.mute -= 1
            self.trial -= 1
            self.nphi, self.nexc, self.truncated = saved[:3]
            del fr.returns[saved[3]:]
            del self.reads[nr:]
            if end.pc:
                names = names | {k for k, v in end.env.items() if k in st.env and base_env.get(k) != v}
                own = (('elt', X), ('val', X), ('idx', X))
                locs = [k for k, v in end.heap.items() if base_heap.get(k, k) != v and not contains(k, lambda q: q in own)]
        for n in names:
            if n in st.env:
                al = self.arrayloc(st.env[n])
                if al is not None and not rebound(body, n):
                    st.env[n] = ('alias', al)
                    continue
                self.nphi += 1
                st.env[n] = ('phi', n, self.nphi, ('dict',) if is_dict(st.env[n]) else ('set',) if is_set(st.env[n]) else ('list',) if own_list(st.env[n]) else origin(st.env[n]) if st.env[n][0] == 'upd' else ())
        for k in locs:
            pre = st.heap.get(k, k)
            fresh = all(origin(l) != k or (l[0] == 'hphi' and l[3]) for _, l in leaves(pre))
            st.heap[k] = ('hphi', k, X, fresh)     # fresh: certainly assigned before the loop

    def s_While(self, s, st, fr):
        pre = st.fork(st.pc)
        self.mute += 1
        X0 = ('while', ('b', truth(self.ev(s.test, st.fork(st.pc), fr))))
        self.mute -= 1
        self.havoc(s.body, st, fr, s, X0, lambda t: t.fork(t.pc))
        phis = (dict(st.env), dict(st.heap))
        c = truth(self.ev(s.test, st, fr))
        info = {'ret': 0, 'brk': 0, 'cont': 0, 'nr': len(fr.returns), 'n0': len(self.events)}
        fr.loops_stack.append(info)
        X = ('while', ('b', c))
        self.loops.append(X)
        end = self.block(s.body, st.fork(B.AND(st.pc, c)), fr)
        end = self.join_exits(end, info)
        self.loops.pop()
        fr.loops_stack.pop()
        return self.loop_exit(s, X, pre, phis, end, info, fr)

    def s_Break(self, s, st, fr):
        if fr.loops_stack:
            fr.loops_stack[-1]['brk'] = B.OR(fr.loops_stack[-1]['brk'], st.pc)
            fr.loops_stack[-1].setdefault('states', []).append((st.pc, st.env, st.heap))
        self.emit('break', s, st.pc)
        return State(st.env, st.heap, 0)

    def s_Continue(self, s, st, fr):
        if fr.loops_stack:
            fr.loops_stack[-1]['cont'] = B.OR(fr.loops_stack[-1]['cont'], st.pc)
            fr.loops_stack[-1].setdefault('states', []).append((st.pc, st.env, st.heap))
        return State(st.env, st.heap, 0)

    # -- expressions
    def ev(self, n, st, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return ('unk', type(n).__name__)
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        if n.value is True:
            return TRUE
        if n.value is False:
            return FALSE
        if n.value is Ellipsis:
            return ('c', '...')
        return ('c', n.value)

    def arrayloc(self, v):
        '''the data array that a local name stands for'''
        if v is None or not self.use_heap:
            return None
        if v[0] == 'alias':
            return v[1]
        v = origin(v)
        if v[0] == 's' and v[2][0] == 'c' and isinstance(v[2][1], str) and v[2][1] in self.array_names():
            return v
        return None

    def array_names(self):
        r = getattr(self.p, '_array_names', None)
        if r is None:
            m = self.p.modules.get('gnome.array_types')
            r = {n.value for n in ast.walk(m.tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)
                 and n.value.isidentifier()} if m is not None else set()
            self.p._array_names = r
        return r

    def e_Name(self, n, st, fr):
        if n.id in st.env:
            v = st.env[n.id]
            if v[0] == 'alias':
                return st.heap.get(v[1], v[1])
            if v[0] == 'ite' and any(l[0] == 'alias' for _, l in leaves(v)):
                return map_leaves(v, lambda l: st.heap.get(l[1], l[1]) if l[0] == 'alias' else l)
            return v
        f = fr.parent
        while f is not None:
            if hasattr(f, 'closure_env') and n.id in f.closure_env:
                return f.closure_env[n.id]
            f = f.parent
        if fr.func is not None and n.id not in fr.globals:
            loc = getattr(fr.func, '_locals', None)
            if loc is None:
                loc = fr.func._locals = own_locals(fr.func.node)
            if n.id in loc:
                return ('unbound', n.id)
        return self.glob(fr.module, n.id)

    def glob(self, module, name):
        r = self.p.lookup_in(module, name)
        if r[0] == 'cls' or r[0] == 'func':
            return ('g', r[1].qualname)
        if r[0] == 'mod':
            return ('g', r[1].name)
        if r[0] == 'val':
            return self.const_of(r[1], r[2])
        if r[0] == 'clsattr':
            return ('a', ('g', r[1].qualname), r[2])
        if name in module.imports:
            return ('g', r[1])
        if name in BUILTINS:
            return ('g', name)
        return ('g', r[1])

    def const_of(self, m, name):
        v = m.assigns.get(name)
        if m.assign_count.get(name, 0) == 1 and v is not None:
            c = literal(v)
            if c is not None:
                return c
        return ('g', m.name + '.' + name)

    def canon_global(self, qual):
        r = self.p.lookup(qual)
        if r[0] in ('cls', 'func'):
            return r[1].qualname
        if r[0] == 'mod':
            return r[1].name
        if r[0] == 'val':
            return r[1].name + '.' + r[2]
        return r[1] if r[0] == 'ext' else qual

    def type_of(self, e):
        if e in self.types:
            return self.types[e]
        if e[0] == 'call' and e[1][0] == 'g':
            r = self.p.lookup(e[1][1])
            if r[0] == 'cls':
                return r[1]
        return None

    def e_Attribute(self, n, st, fr):
        base = self.ev(n.value, st, fr)
        return self.attr(base, n.attr, st, fr)

    def attr(self, base, name, st, fr):
        if base[0] == 'ite':
            return ite(base[1], self.attr(base[2], name, st, fr), self.attr(base[3], name, st, fr))
        if base[0] == 'g':
            q = base[1] + '.' + name
            r = self.p.lookup(q)
            if r[0] in ('cls', 'func'):
                return ('g', r[1].qualname)
            if r[0] == 'mod':
                return ('g', r[1].name)
            if r[0] == 'val':
                return self.const_of(r[1], r[2])
            if r[0] == 'clsattr':
                got = self.p.class_attr(r[1], r[2])
                if got:
                    c = literal(got[1])
                    if c is not None and r[2] not in self.assigned_anywhere():
                        return c
                return ('a', base, name)
            return ('g', r[1])
        ob = origin(base)
        if name == 'shape':
            return ('shape', ob)
        if name == 'size' and one_row(ob):
            return C(0) if ob[0] == 'call' else ('len', ob)
        loc = ('a', ob, name)
        if ob == ('p', 'self'):
            g = 1
            if self.use_heap and loc in st.heap:
                g = 0
                for gg, l in leaves(st.heap[loc]):
                    if origin(l) == loc and not (l[0] == 'hphi' and l[3]):
                        g = B.OR(g, gg)
            g = B.AND(st.pc, g)
            if g != 0:
                self.reads.append((name, g, tuple(self.stack)))
        if self.use_heap and loc in st.heap and name not in self.fresh:
            return st.heap[loc]
        c = self.type_of(ob)
        if c is not None:
            f = self.p.getter(c, name)
            if f is not None and self.getters and f not in self.stack and len(self.stack) < self.max_depth:
                body = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                if self.getters == 'all' or straight(body):
                    if f.qualname not in self.opaque and self.inline_pred(f):
                        self.mute += 0 if self.getters == 'all' else 1
                        try:
                            return self.call_inline(f, [ob], {}, st, fr, f.node)
                        finally:
                            self.mute -= 0 if self.getters == 'all' else 1
            if f is None:
                got = self.p.class_attr(c, name)
                if got and name not in self.assigned_anywhere():
                    k = literal(got[1])
                    if k is not None:
                        return k
        return loc

    def assigned_anywhere(self):
        s = getattr(self.p, '_assigned_attrs', None)
        if s is None:
            s = set()
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        s.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' \
                            and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        s.add(n.args[1].value)
            self.p._assigned_attrs = s
        return s

    def index(self, n, st, fr):
        return self.strip_where(self.ev(n, st, fr))

    def strip_where(self, e):
        return e

    def e_Slice(self, n, st, fr):
        f = lambda x: self.ev(x, st, fr) if x is not None else NONE
        lo, hi, step = f(n.lower), f(n.upper), f(n.step)
        if lo == C(0) :
            lo = NONE
        return ('slice', lo, hi, step)

    def e_Subscript(self, n, st, fr):
        base = self.ev(n.value, st, fr)
        idx = self.index(n.slice, st, fr)
        return self.sub(base, idx, st)

    def dist_sub(self, v, idx, st):
        if v[0] == 'ite':
            return ite(v[1], self.dist_sub(v[2], idx, st), self.dist_sub(v[3], idx, st))
        return self.sub(v, idx, st)

    def sub(self, base, idx, st):
        if idx[0] == 'tuple' and len(idx) > 2 and all(x == ALL for x in idx[1:]):
            return base
        if base[0] == 'ite' and _size(base) < 80:
            return self.dist_sub(base, idx, st)
        if base[0] in ('tuple', 'list') and len(base) == 3 and idx[0] == 'b':
            return ite(idx[1], base[2], base[1])
        if base[0] in ('tuple', 'list') and idx[0] == 'slice' and all(x == NONE or isnum(x) and isinstance(x[1], int) for x in idx[1:]) \
                and not any(x[0] == 'starred' for x in base[1:]):
            return (base[0],) + base[1:][slice(*[x[1] for x in idx[1:]])]
        if base[0] in ('tuple', 'list') and isnum(idx) and isinstance(idx[1], int) and -len(base) < idx[1] < len(base) - 1:
            return base[1:][idx[1]]
        if base[0] == 'shape' and idx == C(0):
            return ('len', base[1])
        if base[0] == 'where' and idx == C(0):
            return base[1]
        if base[0] == 'upd' and base[2] == idx and is_dict(base):
            return base[3]
        if base[0] == 'upd' and apart(base[2], idx):
            return self.sub(base[1], idx, st)
        if base[0] in ('dict', 'gdict') and isconst(idx):
            for k, v in base[1]:
                if k == idx:
                    return v
        named = idx[0] == 'c' and isinstance(idx[1], str)
        b = origin(base) if named else base
        if idx == ('idx', b):
            return ('elt', b)
        if idx[0] == 'poly':
            for m, c in idx[1]:
                if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'idx':
                    X = m[0][0][1]
                    if X[0] == 's' and X[1] == b and X[2][0] == 'slice' and X[2][2:] == (NONE, NONE) \
                            and add(idx, m[0][0], -1) == X[2][1]:
                        return ('elt', X)
        if base[0] == 'np' and base[1] in ('min', 'max', 'sum', 'mean') and base[3] == (('axis', C(0)),) \
                and isnum(idx) and isinstance(idx[1], int) and len(base[2]) == 1:
            return ('np', base[1], (self.sub(base[2][0], ('tuple', ALL, idx), st),), ())
        if idx == ('elt', b):
            return ('val', b)
        loc = ('s', b, idx)
        if self.use_heap and loc in st.heap:
            return st.heap[loc]
        return loc

    def e_Index(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Tuple(self, n, st, fr):
        return ('tuple',) + tuple(self.ev(x, st, fr) for x in n.elts)

    def e_List(self, n, st, fr):
        return ('list',) + tuple(self.ev(x, st, fr) for x in n.elts)

    def e_Set(self, n, st, fr):
        return ('set',) + tuple(sorted((self.ev(x, st, fr) for x in n.elts), key=key))

    def e_Dict(self, n, st, fr):
        return mkdict(((self.ev(k, st, fr) if k is not None else ('star',), self.ev(v, st, fr))
                              for k, v in zip(n.keys, n.values)))

    def e_Starred(self, n, st, fr):
        return ('starred', self.ev(n.value, st, fr))

    def e_JoinedStr(self, n, st, fr):
        return text(*[self.ev(x, st, fr) for x in n.values])

    def e_FormattedValue(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        conv = chr(n.conversion) if n.conversion and n.conversion > 0 else ''
        spec = self.ev(n.format_spec, st, fr) if n.format_spec is not None else C('')
        if conv or spec != C(''):
            return ('fmt', v, conv, spec[1] if isconst(spec) else spec)
        return v if is_text(v) else ('fstr', v)

    def e_NamedExpr(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        st.env[n.target.id] = v
        return v

    def e_Lambda(self, n, st, fr):
        fd = ast.FunctionDef(name='<lambda>', args=n.args, body=[ast.copy_location(ast.Return(value=n.body), n)],
                             decorator_list=[], lineno=n.lineno, col_offset=n.col_offset)
        self._closures = getattr(self, '_closures', {})
        self._closures[id(n)] = (FuncInfo(fd, fr.module, None), fr, n, dict(st.env), dict(st.heap))
        return ('closure', '<lambda>', id(n))

    def e_IfExp(self, n, st, fr):
        c = truth(self.ev(n.test, st, fr))
        pc = st.pc
        st.pc = B.AND(pc, c)
        a = self.ev(n.body, st, fr)
        st.pc = B.AND(pc, B.NOT(c))
        b = self.ev(n.orelse, st, fr)
        st.pc = pc
        return ite(c, a, b)

    def e_BoolOp(self, n, st, fr):
        pc = st.pc
        vals = []
        cur = pc
        isand = isinstance(n.op, ast.And)
        for x in n.values:
            st.pc = cur
            v = self.ev(x, st, fr)
            vals.append(v)
            t = truth(v)
            cur = B.AND(cur, t if isand else B.NOT(t))
        st.pc = pc
        r = vals[-1]
        for v in reversed(vals[:-1]):
            r = ite(truth(v), r, v) if isand else ite(truth(v), v, r)
        return r

    def e_UnaryOp(self, n, st, fr):
        v = self.ev(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return ('b', B.NOT(truth(v)))
        if isinstance(n.op, ast.USub):
            return neg(v) if to_poly(v) is not None else ('op', 'neg', v)
        if isinstance(n.op, ast.Invert):
            return ('b', B.NOT(truth(v)))
        return v

    def e_BinOp(self, n, st, fr):
        return self.binop(type(n.op).__name__, self.ev(n.left, st, fr), self.ev(n.right, st, fr))

    def binop(self, op, a, b):
        a, b = unsliced(a), unsliced(b)
        if op == 'Add':
            return add(a, b)
        if op == 'Sub':
            return add(a, b, -1)
        if op == 'Mult':
            return mul(a, b)
        if op == 'Div':
            return div(a, b)
        if op == 'Pow' and isnum(b) and isinstance(b[1], int) and 0 < b[1] <= 4:
            r = a
            for _ in range(b[1] - 1):
                r = mul(r, a)
            return r
        if op in ('BitAnd', 'BitOr') and a[0] == 'b' and b[0] == 'b':
            return ('b', B.AND(a[1], b[1]) if op == 'BitAnd' else B.OR(a[1], b[1]))
        if op in ('BitAnd', 'BitOr'):
            return sym('op' + op, a, b)
        return ('op', op, a, b)

    def e_Compare(self, n, st, fr):
        left = self.ev(n.left, st, fr)
        g = 1
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, st, fr)
            g = B.AND(g, cmp_(type(op).__name__, left, right))
            left = right
        return ('b', g)

    def e_Await(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Yield(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else NONE
        self.emit('yield', n, st.pc, value=v)
        return ('unk', 'yield')

    def e_YieldFrom(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        self.emit('yield', n, st.pc, value=('elt', v))
        return ('unk', 'yield')

    def comp(self, n, kind, elts, st, fr):
        gens = []
        env0 = dict(st.env)
        pc0 = st.pc
        nl = 0
        # single generator over a literal: unroll for list/gen kinds
        for i, g in enumerate(n.generators):
            it = self.ev(g.iter, st, fr)
            spec = self.iter_spec(it, g.target)
            if spec[0] == 'unroll' and len(n.generators) == 1 and all(k == 'one' for k, _ in spec[1]) and kind != 'dict' \
                    and not g.ifs:
                vals = []
                for k, x in spec[1]:
                    self.assign(g.target, x, st, fr, n)
                    vals.append(self.ev(elts[0], st, fr))
                st.env = env0
                st.pc = pc0
                return ('list',) + tuple(vals)
            X, val = (spec[1], spec[2]) if spec[0] == 'elt' else (it, ('elt', it))
            cond = 1
            if it[0] == 'comp' and len(it[3]) == 1 and it[1] in ('list', 'gen'):
                X, cond, val = it[3][0][0], truth(it[3][0][1]), it[2]
            self.assign(g.target, val, st, fr, n)
            self.loops.append(X)
            nl += 1
            for c in g.ifs:
                t = truth(self.ev(c, st, fr))
                cond = B.AND(cond, t)
                st.pc = B.AND(st.pc, t)
            gens.append((X, ('b', cond)))
        vals = [self.ev(e, st, fr) for e in elts]
        for _ in range(nl):
            self.loops.pop()
        st.env = env0
        st.pc = pc0
        v = vals[0] if len(vals) == 1 else ('tuple',) + tuple(vals)
        return ('comp', kind, v, tuple(gens))

    def e_ListComp(self, n, st, fr):
        return self.comp(n, 'list', [n.elt], st, fr)

    def e_SetComp(self, n, st, fr):
        return self.comp(n, 'set', [n.elt], st, fr)

    def e_GeneratorExp(self, n, st, fr):
        return self.comp(n, 'list', [n.elt], st, fr)

    def e_DictComp(self, n, st, fr):
        return self.comp(n, 'dict', [n.key, n.value], st, fr)

    # -- calls
    def e_Call(self, n, st, fr):
        f = n.func
        out = [k.value for k in n.keywords if k.arg == 'out']
        if out and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('np', 'numpy') \
                and isinstance(out[0], (ast.Name, ast.Subscript, ast.Attribute)):
            v = self.ev(ast.copy_location(ast.Call(f, n.args, [k for k in n.keywords if k.arg != 'out']), n), st, fr)
            t = out[0] if isinstance(out[0], ast.Subscript) else \
                ast.copy_location(ast.Subscript(out[0], ast.copy_location(ast.Slice(), n), ast.Store()), n)
            self.assign(t, v, st, fr, n)
            return self.ev(out[0], st, fr)
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == 'super':
            return self.call_super(n, f.attr, st, fr)
        if isinstance(f, ast.Attribute):
            base = self.ev(f.value, st, fr)
            args, kw = self.args(n, st, fr)
            alts = leaves(base)
            if len(alts) > 1:
                pc0 = st.pc
                res = None
                for g, b in alts:
                    st.pc = B.AND(pc0, g)
                    if st.pc == 0:
                        continue
                    r = self.method_call(b, f.attr, args, kw, st, fr, n, f.value)
                    res = r if res is None else ite(g, r, res)
                st.pc = pc0
                return res if res is not None else ('unk', 'dead')
            return self.method_call(base, f.attr, args, kw, st, fr, n, f.value)
        fn = self.ev(f, st, fr)
        args, kw = self.args(n, st, fr)
        return self.call(fn, args, kw, st, fr, n)

    def args(self, n, st, fr):
        args = [self.ev(a, st, fr) for a in n.args]
        kw = {}
        out = []
        for a in args:
            if a[0] == 'starred' and a[1][0] in ('tuple', 'list'):
                out.extend(a[1][1:])
            else:
                out.append(a)
        for k in n.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                if v[0] == 'dict' and all(isconst(a) for a, _ in v[1]):
                    for a, b in v[1]:
                        kw[a[1]] = b
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return out, kw

    def call_super(self, n, name, st, fr):
        args, kw = self.args(n, st, fr)
        sc = n.func.value
        after = fr.cls
        if len(sc.args) >= 1:
            c = self.p.resolve_expr(fr.module, sc.args[0])
            if isinstance(c, ClassInfo):
                after = c
        selfe = st.env.get('self', ('p', 'self'))
        dyn = self.type_of(selfe) or self.cls
        f = self.p.method(dyn, name, after=after) if dyn is not None and after is not None else None
        sup = self.inline_super and f is not None and self.can_inline(f, True)
        self.emit('call', n, st.pc, target=('super', name), name=name, base=('super',), args=tuple(args), kw=kw,
                  resolved=f, inlined=bool(sup))
        if sup:
            if f.kind == 'static':
                return self.call_inline(f, args, kw, st, fr, n)
            return self.call_inline(f, [selfe] + args, kw, st, fr, n)
        return ('call', ('super', name), tuple(args), tuple(sorted(kw.items())))

    def can_inline(self, f, sup=False):
        return (len(self.stack) < self.max_depth and f not in self.stack and f.qualname not in self.opaque
                and (sup or f.name not in self.opaque) and self.inline_pred(f) and not is_generator(f.node))

    def method_call(self, base, name, args, kw, st, fr, n, basenode):
        ob = origin(base)
        if base[0] == 'g':
            q = base[1] + '.' + name
            r = self.p.lookup(q)
            if r[0] == 'clsattr':
                f = self.p.method(r[1], r[2])
                if f is not None:
                    self.emit('call', n, st.pc, target=('a', base, name), name=name, base=base, args=tuple(args), kw=kw, resolved=f)
                    if self.can_inline(f):
                        if f.kind == 'static':
                            return self.call_inline(f, args, kw, st, fr, n)
                        if f.kind == 'class':
                            return self.call_inline(f, [base] + args, kw, st, fr, n)
                        if args and args[0] == ('p', 'self'):
                            return self.call_inline(f, args, kw, st, fr, n)
                    return self.canon_call(('a', base, name), args, kw)
            return self.call(self.attr(base, name, st, fr), args, kw, st, fr, n)
        c = self.type_of(ob)
        f = self.p.method(c, name) if c is not None else None
        if ob == ('p', 'self') and name in self.overrides:
            f = self.overrides[name]
        if f is None and c is None and self.uniq and ob[0] not in ('g', 'c', 'list', 'dict', 'tuple'):
            f = self.unique_method(name)
        if name == 'update' and f is None and self.use_heap and (len(args) == 1 and not kw and args[0][0] == 'dict' and all(
                isconst(k) and isinstance(k[1], str) for k, v in args[0][1]) or not args and kw):
            new = args[0][1] if args else tuple((C(k), v) for k, v in kw.items())
            if base[0] == 'dict':
                for k, v in new:
                    self.emit('store', n, st.pc, target=('s', ob, k), value=v, local=isinstance(basenode, ast.Name))
                self.revalue(base, mkdict(base[1] + tuple(new)), st)
                return NONE
            if ob[0] in ('a', 's', 'p'):
                for k, v in new:
                    self.emit('store', n, st.pc, target=('s', ob, k), value=v, local=isinstance(basenode, ast.Name))
                    st.heap[('s', ob, k)] = v
                return NONE
        if name == 'pop' and f is None and len(args) == 1 and not kw and ob[0] in ('a', 's') and not isnum(args[0]):
            # the entry is read and deleted
            v = self.sub(base, args[0], st)
            self.emit('del', n, st.pc, target=('s', ob, args[0]))
            return v
        if name == 'append' and len(args) == 1 and isinstance(basenode, ast.Name) and basenode.id in st.env \
                and own_list(st.env[basenode.id]) and not any(v == st.env[basenode.id] for v in st.heap.values()):
            st.env[basenode.id] = cat(st.env[basenode.id], ('list', args[0]))
            return NONE
        if name == 'add' and len(args) == 1 and isinstance(basenode, ast.Name) and basenode.id in st.env \
                and is_set(st.env[basenode.id]) and _size(st.env[basenode.id]) < 120:
            st.env[basenode.id] = sadd(st.env[basenode.id], args[0])
            return NONE
        bulk = {'update': 'add', 'difference_update': 'discard', 'extend': 'append'}.get(name)
        if bulk and f is None and len(args) == 1 and not kw and ob[0] in ('a', 's') \
                and (name == 'difference_update' or args[0][0] == 'comp' and args[0][1] in ('list', 'set')
                     and len(args[0][3]) == 1 and args[0][2][0] != 'tuple'):
            # every element on its own
            a = args[0]
            X, cond, e = (a[3][0][0], truth(a[3][0][1]), a[2]) if a[0] == 'comp' else (a, 1, ('elt', a))
            self.loops.append(X)
            self.emit('call', n, B.AND(st.pc, cond), target=('a', ob, bulk), name=bulk, base=ob, args=(e,), kw={}, resolved=None)
            self.loops.pop()
            if self.use_heap:
                st.heap.pop(ob, None)
            return NONE
        ev = self.emit('call', n, st.pc, target=('a', ob, name), name=name, base=ob, args=tuple(args), kw=kw, resolved=f,
                       local=isinstance(basenode, ast.Name))
        if ev is not None:
            ev.inlined = bool(f is not None and self.can_inline(f))
        if name == 'append' and len(args) == 1 and isinstance(basenode, ast.Name) and basenode.id in st.env:
            cur = st.env[basenode.id]
            if cur[0] in ('list', 'cat', 'comp', 'phi') or (cur[0] == 'ite' and _size(cur) < 120 and len(leaves(cur)) <= 4 and all(
                    l[0] in ('list', 'cat', 'comp', 'phi') for _, l in leaves(cur))):
                st.env[basenode.id] = cat(cur, ('list', args[0]))
                return NONE
        if f is not None and self.can_inline(f):
            if f.kind == 'static':
                return self.call_inline(f, args, kw, st, fr, n)
            if f.kind == 'class':
                return self.call_inline(f, [('g', c.qualname)] + args, kw, st, fr, n)
            return self.call_inline(f, [ob] + args, kw, st, fr, n)
        if name in MUTATORS and isinstance(basenode, ast.Name) and basenode.id in st.env and \
                st.env[basenode.id][0] in ('list', 'dict', 'set', 'comp', 'tuple', 'cat', 'ite'):
            st.env[basenode.id] = ('mutated', st.env[basenode.id])
        if self.use_heap and name in MUTATORS and ob[0] in ('a', 's') and ob in st.heap:
            st.heap.pop(ob)
        # attribute holding a list mutated: heap forwarding of literal must stop
        if self.use_heap and name in MUTATORS and base[0] in ('list', 'dict', 'set', 'call', 'comp') \
                and isinstance(basenode, ast.Attribute):
            for k, v in list(st.heap.items()):
                if v == base:
                    st.heap.pop(k)
        if name in ('readline', 'popleft') or name in ('read', '__next__') and not args:
            # reading advances the stream: the next call gives something else
            k = ('io', ob)
            tok = st.heap.get(k, k)
            st.heap[k] = ('ion', tok)
            if tok != k:
                kw = dict(kw)
                kw['#after'] = tok
        return self.canon_mcall(base, name, args, kw)

    def unique_method(self, name):
        t = getattr(self.p, '_uniq', None)
        if t is None:
            t = {}
            for c in self.p.all_classes:
                for f in c.methods.values():
                    t.setdefault(f.name, []).append(f)
            self.p._uniq = t
        if name in NPM or name in MUTATORS or name in COMMON_METHODS:
            return None
        fs = t.get(name, [])
        return fs[0] if len(fs) == 1 and fs[0].kind == 'def' else None

    def canon_mcall(self, base, name, args, kw):
        if name == '__len__' and not args:
            return ('len', base)
        if name == 'format' and base[0] == 'c' and isinstance(base[1], str):
            r = formatted(base[1], args, kw)
            if r is not None:
                return r
        if name in NPM:
            return canon_np(name, [base] + list(args), dict(kw))
        return compact(('mcall', name, base, tuple(args), tuple(sorted(kw.items()))), name)

    def canon_call(self, fn, args, kw):
        if fn[0] == 'g':
            q = fn[1]
            if q == 'len' and len(args) == 1:
                a = origin(args[0])
                while True:
                    if a[0] == 'call' and a[1][0] == 'g' and a[1][1] in ('list', 'tuple', 'sorted', 'reversed') and len(a[2]) == 1:
                        a = a[2][0]
                    elif a[0] == 'mcall' and a[1] in ('keys', 'values') and not a[3] and not a[4]:
                        a = a[2]
                    else:
                        break
                if a[0] in ('tuple',):
                    return C(len(a) - 1)
                return ('len', a)
            if q == 'type' and len(args) == 1:
                return ('a', origin(args[0]), '__class__')
            if q == 'copy.copy' and len(args) == 1:
                return ('copy', args[0])
            if q == 'dict' and len(args) == 1 and not kw and args[0][0] in ('a', 's', 'p'):
                return ('copy', args[0])
            if q == 'getattr' and len(args) == 2 and isconst(args[1]):
                return ('a', origin(args[0]), args[1][1])
            if q == 'getattr' and len(args) == 3 and isconst(args[1]) and isinstance(args[1][1], str) and not kw:
                has = truth(self.canon_call(('g', 'hasattr'), args[:2], {}))
                return ite(has, ('a', origin(args[0]), args[1][1]), args[2])
            if q == 'divmod' and len(args) == 2:
                return ('tuple', self.binop('FloorDiv', *args), self.binop('Mod', *args))
            if q in ('tuple', 'list') and len(args) == 1 and args[0][0] in ('tuple', 'list') and not kw:
                return (q,) + args[0][1:]
            if q in ('bool',) and len(args) == 1:
                return ('b', truth(args[0]))
            if q == 'isinstance' and len(args) == 2 and args[1][0] == 'tuple':
                g = 0
                for x in args[1][1:]:
                    g = B.OR(g, atom(('t', ('call', fn, (args[0], x), ()))))
                return ('b', g)
            if q in ('min', 'max') and len(args) >= 2 and not kw:
                return sym(q, *args)
            if q in ('numpy.minimum', 'numpy.maximum') and len(args) == 2 and not kw:
                return sym(q[6:9], *args)
            if q == 'math.sqrt' and args in ([C(0)], (C(0),), [C(1)], (C(1),)):
                return args[0]
            if q == 'abs' and len(args) == 1:
                return ('call', ('g', 'numpy.abs'), tuple(args), ())
            if q in ('numpy.logical_and', 'numpy.bitwise_and') and len(args) == 2:
                return self.binop('BitAnd', *[('b', truth(a)) for a in args])
            if q in ('numpy.logical_or', 'numpy.bitwise_or') and len(args) == 2:
                return self.binop('BitOr', *[('b', truth(a)) for a in args])
            if q in ('numpy.logical_not', 'numpy.invert') and len(args) == 1:
                return ('b', B.NOT(truth(args[0])))
            if q in ('numpy.where', 'numpy.nonzero') and len(args) == 1 and not kw:
                return ('where', args[0])
            if q in ('numpy.flatnonzero',) and len(args) == 1:
                return args[0]
            if q in ('any', 'all') and len(args) == 1 and args[0][0] == 'b' and args[0][1] > 1:
                return some(q, args[0])
            if q in ('any', 'all') and len(args) == 1 and not kw:
                a = args[0]
                neg = (lambda g: g) if q == 'any' else B.NOT
                if a[0] == 'comp' and a[1] == 'list' and len(a[3]) == 1:
                    X, cond = a[3][0]
                    t = B.AND(truth(cond), neg(truth(a[2])))
                    return ('b', neg(0 if t == 0 else atom(('loopret', X, t))))
                if a[0] in ('list', 'tuple') and not any(x[0] == 'starred' for x in a[1:]):
                    g = 0
                    for x in a[1:]:
                        g = B.OR(g, neg(truth(x)))
                    return ('b', neg(g))
            if q == 'numpy.delete' and len(args) == 2 and kw == {'axis': C(0)} and args[1][0] == 'b':
                return ('s', args[0], ('b', B.NOT(args[1][1])))
            if q == 'range' and len(args) == 2 and args[0] == C(0) and not kw:
                args = args[1:]
            if q in ('numpy.equal',) and len(args) == 2:
                return ('b', cmp_('Eq', *args))
            if q in ('numpy.not_equal',) and len(args) == 2:
                return ('b', cmp_('NotEq', *args))
            for a, o in (('numpy.add', 'Add'), ('numpy.subtract', 'Sub'), ('numpy.multiply', 'Mult'),
                         ('numpy.divide', 'Div'), ('numpy.true_divide', 'Div')):
                if q == a and len(args) == 2 and not kw:
                    return self.binop(o, *args)
            if q in ('dict',) and not args and '**' not in kw:
                return mkdict((C(k), v) for k, v in kw.items())
            if q in ('list', 'tuple', 'set') and not args and not kw:
                return (q,)
            if q == 'set' and len(args) == 1 and args[0][0] in ('list', 'tuple') and not any(x[0] == 'starred' for x in args[0][1:]):
                return ('set',) + tuple(sorted(set(args[0][1:]), key=key))
            if q == 'set' and len(args) == 1 and args[0][0] == 'comp' and args[0][1] == 'list':
                return ('comp', 'set') + args[0][2:]
            if q in ('list',) and len(args) == 1 and args[0][0] in ('list', 'comp'):
                return args[0]
            if q == 'numpy.zeros_like' or q == 'numpy.ones_like':
                pass
            if q.startswith('numpy.') and q[6:] in NPM and args:
                return canon_np(q[6:], list(args), dict(kw))
            if q == 'sum' and len(args) == 1 and args[0][0] == 'comp' and len(args[0][3]) == 1 and args[0][1] == 'list':
                X, cond = args[0][3][0]
                return ('sumover', ite(truth(cond), args[0][2], C(0)), X)
            if q in ('numpy.clip',) and len(args) == 3 and not kw:
                return sym('max', args[1], sym('min', args[0], args[2]))
        return compact(('call', fn, tuple(args), tuple(sorted(kw.items()))), fn[1] if fn[0] == 'g' else '?')

    def call(self, fn, args, kw, st, fr, n):
        if fn[0] == 'ite':
            pc0 = st.pc
            st.pc = B.AND(pc0, fn[1])
            a = self.call(fn[2], args, kw, st, fr, n) if st.pc else ('unk', 'dead')
            st.pc = B.AND(pc0, B.NOT(fn[1]))
            b = self.call(fn[3], args, kw, st, fr, n) if st.pc else ('unk', 'dead')
            st.pc = pc0
            return ite(fn[1], a, b)
        if fn[0] == 'closure':
            info, cfr, node = self._closures[fn[2]][:3]
            if len(self.stack) < self.max_depth and info not in self.stack:
                return self.call_inline(info, args, kw, st, fr, n, closure=True)
            return ('call', ('closure', fn[1]), tuple(args), tuple(sorted(kw.items())))
        if fn[0] == 'a' and fn[1] in self.types:
            f = self.p.method(self.types[fn[1]], fn[2])
            self.emit('call', n, st.pc, target=fn, name=fn[2], base=fn[1], args=tuple(args), kw=kw, resolved=f)
            if f is not None and self.can_inline(f):
                return self.call_inline(f, [fn[1]] + list(args), kw, st, fr, n)
            return self.canon_mcall(fn[1], fn[2], args, kw)
        if fn[0] == 'a':
            self.emit('call', n, st.pc, target=fn, name=fn[2], base=fn[1], args=tuple(args), kw=kw)
            return self.canon_mcall(fn[1], fn[2], args, kw)
        if fn[0] == 'g':
            q = fn[1]
            r = self.p.lookup(q)
            if q == 'setattr' and len(args) == 3:
                if isconst(args[1]):
                    self.store_attr(origin(args[0]), args[1][1], args[2], st, fr, n, st.pc)
                else:
                    d = ('a', origin(args[0]), '__dict__')
                    self.emit('store', n, st.pc, target=('s', d, args[1]), value=args[2])
                    if self.use_heap:
                        st.heap[d] = ('upd', st.heap.get(d, d), args[1], args[2])
                return NONE
            if q == 'getattr' and len(args) == 2 and not isconst(args[1]):
                d = ('a', origin(args[0]), '__dict__')
                return self.sub(st.heap.get(d, d) if self.use_heap else d, args[1], st)
            if q == 'delattr' and len(args) == 2 and isconst(args[1]):
                self.emit('del', n, st.pc, target=('a', origin(args[0]), args[1][1]))
                return NONE
            f = r[1] if r[0] == 'func' else None
            if q.rsplit('.', 1)[-1] in self.overrides and (f is not None or r[0] == 'ext'):
                f = self.overrides[q.rsplit('.', 1)[-1]]
            ev = self.emit('call', n, st.pc, target=fn, name=q.rsplit('.', 1)[-1], base=None, args=tuple(args), kw=kw, resolved=f)
            if ev is not None:
                ev.inlined = bool(f is not None and self.can_inline(f))
            if f is not None and self.can_inline(f):
                return self.call_inline(f, args, kw, st, fr, n)
            if r[0] == 'cls' and self.inline_init:
                f = self.p.method(r[1], '__init__')
                obj = ('call', fn, tuple(args), tuple(sorted(kw.items())))
                if f is not None and self.can_inline(f):
                    self.call_inline(f, [obj] + list(args), kw, st, fr, n)
                return obj
            return self.canon_call(fn, args, kw)
        self.emit('call', n, st.pc, target=fn, name='<value>', base=fn, args=tuple(args), kw=kw)
        return self.canon_call(fn, args, kw)

    def call_inline(self, f, args, kw, st, fr, n, closure=False):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        rest = []
        star_at = None
        for i, v in enumerate(args):
            if v[0] == 'starred':
                star_at = i
                for p in pos[i:]:
                    env[p] = ('s', v[1], C(pos.index(p) - i))
                if a.vararg:
                    env[a.vararg.arg] = v[1]
                break
            if i < len(pos):
                env[pos[i]] = v
            else:
                rest.append(v)
        extra = []
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k == '**':
                continue
            if k in pos or k in kwonly:
                env[k] = v
            else:
                extra.append((C(k), v))
        if a.vararg and a.vararg.arg not in env:
            env[a.vararg.arg] = ('tuple',) + tuple(rest)
        dfr = Frame(f, f.module, f.cls, None)
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for x, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[x] = d
        for p in pos + kwonly:
            if p not in env:
                if '**' in kw:
                    env[p] = ('kwget', kw['**'], p)
                elif p in defaults:
                    self.mute += 1
                    env[p] = self.ev(defaults[p], State({}, {}, 1), dfr)
                    self.mute -= 1
                else:
                    env[p] = ('missing', p)
        if a.kwarg:
            if '**' in kw:
                env[a.kwarg.arg] = kw['**'] if not extra else ('dict', tuple(extra) + ((('star',), kw['**']),))
            else:
                env[a.kwarg.arg] = ('dict', tuple(extra))
        nfr = Frame(f, f.module, f.cls if not closure else fr.cls, None)
        if closure:
            nenv = dict(st.env)
            nenv.update(env)
            env = nenv
            nfr.module = fr.module
        env0 = dict(env)
        self.inlined_fns[f.qualname] = f
        sub = State(env, st.heap if self.use_heap else {}, st.pc)
        sub.heap = dict(st.heap)
        self.stack.append(f)
        end = self.block(f.node.body, sub, nfr)
        self.stack.pop()
        if end.pc != 0:
            nfr.returns.append((end.pc, NONE, None, end.heap))
            nfr.ret_envs.append((end.pc, end.env))
        self.mutated_args(f, pos, env0, nfr, st, n)
        if not nfr.returns:
            # never returns normally
            st.pc = 0
            return ('never',)
        # path condition after the call: paths that returned
        pc = 0
        for g, _, _, _h in nfr.returns:
            pc = B.OR(pc, g)
        hp = dict(nfr.returns[-1][3])
        for g, _, _, h in reversed(nfr.returns[:-1]):
            for k in set(hp) | set(h):
                x, y = h.get(k, k), hp.get(k, k)
                if x != y:
                    hp[k] = ite(g, x, y)
        st.heap = hp
        st.pc = pc
        r = nfr.returns[-1][1]
        for g, e, _, _h in reversed(nfr.returns[:-1]):
            r = ite(g, e, r)
        return r


def mutated_args(self, f, pos, env0, nfr, st, n):
    '''a local container handed to an inlined helper that mutates it in place: the caller's name sees the change'''
    if not isinstance(n, ast.Call) or not nfr.ret_envs:
        return
    names = pos[1:] if pos[:1] in (['self'], ['cls']) and f.kind != 'static' and f.cls is not None else pos
    pairs = [(p, a) for p, a in zip(names, n.args) if isinstance(a, ast.Name)]
    pairs += [(k.arg, k.value) for k in n.keywords if k.arg in pos and isinstance(k.value, ast.Name)]
    for p, a in pairs:
        if p not in env0 or st.env.get(a.id) != env0[p]:
            continue
        if any(isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
            continue
        v = nfr.ret_envs[-1][1].get(p)
        for g, e in reversed(nfr.ret_envs[:-1]):
            v = ite(g, e.get(p), v)
        if v is not None and v != env0[p]:
            st.env[a.id] = v


Summ.mutated_args = mutated_args


def one_row(e):
    '''is this an array of one dimension for sure'''
    if e[0] == 's':
        return one_row(e[1]) and e[2][0] == 'b'
    return e[0] == 'b' and e[1] > 1 or e[0] == 'call' and e[1] == ('g', 'numpy.array') and e[2][:1] == (('tuple',),)


def some(name, m):
    '''any or all of a mask, by the number of elements it selects'''
    if name == 'any':
        return ('b', truth(('len', m)))
    return ('b', B.NOT(truth(('len', ('b', B.NOT(m[1]))))))


def canon_np(name, args, kw):
    if name in ('sum', 'mean', 'any', 'all', 'prod', 'cumsum', 'min', 'max') and len(args) == 2 and 'axis' not in kw:
        kw['axis'] = args[1]
        args = args[:1]
    if name in ('copy', ) and len(args) == 1 and not kw:
        return ('copy', args[0])
    if name == 'nonzero' and len(args) == 1:
        return ('where', args[0])
    if name in ('any', 'all') and len(args) == 1 and not kw and args[0][0] == 'b' and args[0][1] > 1:
        return some(name, args[0])
    return ('np', name, tuple(args), tuple(sorted(kw.items())))


def literal(n):
    if isinstance(n, ast.Constant):
        if n.value is True:
            return TRUE
        if n.value is False:
            return FALSE
        if n.value is Ellipsis:
            return None
        return ('c', n.value)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        c = literal(n.operand)
        if c and isnum(c):
            return C(-c[1])
    if isinstance(n, ast.Tuple):
        xs = [literal(x) for x in n.elts]
        if all(x is not None for x in xs):
            return ('tuple',) + tuple(xs)
    if isinstance(n, ast.BinOp):
        l, r = literal(n.left), literal(n.right)
        if l and r and isnum(l) and isnum(r):
            op = type(n.op).__name__
            if op == 'Mult':
                return mul(l, r)
            if op == 'Add':
                return add(l, r)
            if op == 'Sub':
                return add(l, r, -1)
            if op == 'Div' and r[1]:
                return div(l, r)
    return None


_an = {}


def assigned_names(body, subs=True):
    out = set()
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif subs and isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                out.add(n.value.id)
    return out


def rebound(body, name):
    """is the name given another value in these statements (other than in place)"""
    aug = {id(n.target) for b in body for n in ast.walk(b) if isinstance(n, ast.AugAssign)}
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in aug
               for b in body for n in ast.walk(b))


def own_locals(node):
    """names a function binds itself (other than by import)"""
    out, st = set(), list(getattr(node, 'body', ()))
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        st.extend(ast.iter_child_nodes(n))
    return out


def straight(body):
    """local assignments (or statements without effect) followed by one return"""
    body = [x for x in body if not isinstance(x, ast.Pass)]
    return bool(body) and isinstance(body[-1], ast.Return) and all(
        isinstance(x, ast.Assign) and all(isinstance(t, ast.Name) for t in x.targets) for x in body[:-1])


def stored_attrs(body):
    out, subs = set(), False
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                subs = True
    return out, subs


def is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


# ---------------------------------------------------------------- helpers for rules
def is_exc(a):
    return a[0] in ('exc', 'exck', 'excpt', 'loopret', 'loopraise')


def noexc(g):
    """guard on executions in which no exception was raised inside a try"""
    return B.restrict(g, lambda a: False if a[0] in ('exc', 'exck', 'excpt', 'loopraise') else None)


class Expr:
    """parse expectation snippets with the same canonicaliser"""

    def __init__(self, prog, module=None, cls=None, **env):
        self.prog, self.module, self.cls, self.env = prog, module, cls, env

    def __call__(self, text, **env):
        node = ast.parse(text.strip(), mode='eval').body
        s = Summ(self.prog, cls=self.cls, getters='simple')
        s.mute = 1
        if self.cls is not None:
            s.types[('p', 'self')] = self.cls
        e = dict((n.id, ('p', n.id)) for n in ast.walk(node) if isinstance(n, ast.Name)
                 and n.id not in BUILTINS and not (self.module and self.prog.lookup_in(self.module, n.id)[0] != 'ext')
                 and not (self.module and n.id in self.module.imports))
        e.update(self.env)
        e.update(env)
        st = State(e, {}, 1)
        m = self.module or next(iter(self.prog.modules.values()))
        return s.ev(node, st, Frame(None, m, self.cls))

    def g(self, text, **env):
        return truth(self(text, **env))
