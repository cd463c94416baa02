"""A very small ROBDD package: canonical boolean functions over opaque atoms.

Guards of effects are boolean functions over canonicalised source conditions.
Two guards are equal iff their node ids are equal; no search is involved.
"""


class BDD:
    def __init__(self):
        self.nodes = {}           # (var, lo, hi) -> id
        self.info = {}            # id -> (var, lo, hi)
        self.vars = {}            # atom -> index
        self.atoms = []           # index -> atom
        self._ite = {}
        self.next = 2
        self.FALSE, self.TRUE = 0, 1

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.nodes.get(k)
        if n is None:
            n = self.next
            self.next += 1
            self.nodes[k] = n
            self.info[n] = k
        return n

    def var(self, atom):
        i = self.vars.get(atom)
        if i is None:
            i = len(self.atoms)
            self.vars[atom] = i
            self.atoms.append(atom)
        return self.mk(i, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self._ite.get(k)
        if r is not None:
            return r
        top = min(self.info[x][0] for x in (f, g, h) if x > 1)

        def co(x, b):
            if x > 1 and self.info[x][0] == top:
                return self.info[x][2 if b else 1]
            return x
        hi = self.ite(co(f, 1), co(g, 1), co(h, 1))
        lo = self.ite(co(f, 0), co(g, 0), co(h, 0))
        r = self.mk(top, lo, hi)
        self._ite[k] = r
        return r

    def AND(self, *a):
        r = 1
        for x in a:
            r = self.ite(r, x, 0)
        return r

    def OR(self, *a):
        r = 0
        for x in a:
            r = self.ite(r, 1, x)
        return r

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def IMPL(self, a, b):
        return self.ite(a, b, 1)

    def XOR(self, a, b):
        return self.ite(a, self.NOT(b), b)

    def IFF(self, a, b):
        return self.ite(a, b, self.NOT(b))

    def node(self, x):
        v, lo, hi = self.info[x]
        return self.atoms[v], lo, hi

    def implies(self, a, b):
        return self.IMPL(a, b) == 1

    def support(self, f):
        out, seen, st = set(), set(), [f]
        while st:
            x = st.pop()
            if x <= 1 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.info[x]
            out.add(self.atoms[v])
            st += [lo, hi]
        return out

    def restrict(self, f, asg):
        """asg: predicate atom -> True/False/None"""
        memo = {}

        def go(x):
            if x <= 1:
                return x
            if x in memo:
                return memo[x]
            v, lo, hi = self.info[x]
            b = asg(self.atoms[v])
            if b is True:
                r = go(hi)
            elif b is False:
                r = go(lo)
            else:
                r = self.ite(self.mk(v, 0, 1), go(hi), go(lo))
            memo[x] = r
            return r
        return go(f)

    def constrain(self, f, c):
        """generalised cofactor: f simplified where c is known to hold"""
        if c == 0 or c == 1 or f <= 1:
            return f
        if f == c:
            return 1
        k = ('cn', f, c)
        r = self._ite.get(k)
        if r is not None:
            return r
        top = min(self.info[x][0] for x in (f, c))
        f0, f1 = self.info[f][1:] if self.info[f][0] == top else (f, f)
        c0, c1 = self.info[c][1:] if self.info[c][0] == top else (c, c)
        if c1 == 0:
            r = self.constrain(f0, c0)
        elif c0 == 0:
            r = self.constrain(f1, c1)
        elif f0 == f1:
            r = self.constrain(f0, self.OR(c0, c1))
        else:
            r = self.mk(top, self.constrain(f0, c0), self.constrain(f1, c1))
        self._ite[k] = r
        return r

    def exists(self, f, pred):
        """existentially quantify the atoms for which pred(atom)"""
        memo = {}

        def go(x):
            if x <= 1:
                return x
            if x in memo:
                return memo[x]
            v, lo, hi = self.info[x]
            if pred(self.atoms[v]):
                r = self.OR(go(lo), go(hi))
            else:
                r = self.ite(self.mk(v, 0, 1), go(hi), go(lo))
            memo[x] = r
            return r
        return go(f)

    def show(self, f, fmt=str, limit=6):
        if f == 1:
            return 'True'
        if f == 0:
            return 'False'
        cubes = []

        def go(x, lits):
            if len(cubes) > limit:
                return
            if x == 1:
                cubes.append(' and '.join(lits) or 'True')
                return
            if x == 0:
                return
            v, lo, hi = self.info[x]
            go(hi, lits + [fmt(self.atoms[v])])
            go(lo, lits + ['not(' + fmt(self.atoms[v]) + ')'])
        go(f, [])
        return ' | '.join(cubes[:limit])
