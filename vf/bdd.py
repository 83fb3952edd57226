"""Reduced ordered binary decision diagrams: the representation of path conditions.

A guard is an int (node id); FALSE = 0, TRUE = 1.  Every variable may carry a z3
expression (a theory atom); guards are translated to z3 when an obligation is discharged.
"""
import sys
import z3

sys.setrecursionlimit(100000)
FALSE, TRUE = 0, 1


def symbols(expr):
    """Names of the uninterpreted constants in a z3 expression."""
    out, seen, st = set(), set(), [expr]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if x.num_args() == 0:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            st.extend(x.children())
    return out


class Side(list):
    """Axioms; only those connected to a query are sent to the solver."""

    def append(self, expr):
        list.append(self, (expr, frozenset(symbols(expr))))

    def relevant(self, names):
        names = set(names)
        rest = list(self)
        out = []
        changed = True
        while changed and rest:
            changed = False
            keep = []
            for x, s in rest:
                if s & names:
                    out.append(x)
                    if not s <= names:
                        names |= s
                        changed = True
                else:
                    keep.append((x, s))
            rest = keep
        return out


class BDD:
    def __init__(self):
        self.dead = FALSE       # proved infeasible
        self.var = [1 << 60, 1 << 60]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.unique = {}
        self.memo = {}
        self.names = []
        self.atoms = []      # z3 expr or None, per variable
        self.z3vars = []
        self.theory = []     # True if the variable carries a theory atom
        self._z3memo = {}
        self._theory_memo = {0: frozenset(), 1: frozenset()}
        self._feas = {}
        self._symcache = {}
        self.side = Side()   # z3 side conditions (axioms about the terms in use)
        self.z3_queries = 0
        self.z3_time = 0.0
        self.z3_timeout_ms = 10000

    def new_var(self, name, atom=None):
        i = len(self.names)
        self.names.append(name)
        self.atoms.append(atom)
        self.theory.append(atom is not None)
        self.z3vars.append(atom if atom is not None else z3.Bool('b%d_%s' % (i, name)))
        return self._mk(i, FALSE, TRUE)

    def _mk(self, v, lo, hi):
        if lo == hi:
            return lo
        key = (v, lo, hi)
        n = self.unique.get(key)
        if n is None:
            n = len(self.var)
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.unique[key] = n
        return n

    def ite(self, f, g, h):
        if f == TRUE:
            return g
        if f == FALSE:
            return h
        if g == h:
            return g
        if g == TRUE and h == FALSE:
            return f
        key = (f, g, h)
        r = self.memo.get(key)
        if r is not None:
            return r
        var, lo, hi = self.var, self.lo, self.hi
        v = min(var[f], var[g], var[h])
        f0, f1 = (lo[f], hi[f]) if var[f] == v else (f, f)
        g0, g1 = (lo[g], hi[g]) if var[g] == v else (g, g)
        h0, h1 = (lo[h], hi[h]) if var[h] == v else (h, h)
        r = self._mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[key] = r
        return r

    def AND(self, *fs):
        r = TRUE
        for f in fs:
            r = self.ite(r, f, FALSE)
            if r == FALSE:
                return FALSE
        return r

    def OR(self, *fs):
        r = FALSE
        for f in fs:
            r = self.ite(r, TRUE, f)
            if r == TRUE:
                return TRUE
        return r

    def NOT(self, f):
        return self.ite(f, FALSE, TRUE)

    def DIFF(self, f, g):
        return self.ite(g, FALSE, f)

    def implies(self, f, g):
        return self.ite(g, FALSE, f) == FALSE

    def support(self, f):
        seen, out, stack = set(), set(), [f]
        while stack:
            n = stack.pop()
            if n <= 1 or n in seen:
                continue
            seen.add(n)
            out.add(self.var[n])
            stack.append(self.lo[n])
            stack.append(self.hi[n])
        return out

    def has_theory(self, f):
        return any(self.theory[v] for v in self.support(f))

    def to_z3(self, f):
        m = self._z3memo
        if f == TRUE:
            return z3.BoolVal(True)
        if f == FALSE:
            return z3.BoolVal(False)
        if f in m:
            return m[f]
        # iterative post-order
        stack = [f]
        while stack:
            n = stack[-1]
            if n <= 1 or n in m:
                stack.pop()
                continue
            ready = True
            for c in (self.lo[n], self.hi[n]):
                if c > 1 and c not in m:
                    stack.append(c)
                    ready = False
            if ready:
                stack.pop()
                x = self.z3vars[self.var[n]]
                a, b = self.hi[n], self.lo[n]
                za = z3.BoolVal(bool(a)) if a <= 1 else m[a]
                zb = z3.BoolVal(bool(b)) if b <= 1 else m[b]
                if a == TRUE and b == FALSE:
                    m[n] = x
                elif a == FALSE and b == TRUE:
                    m[n] = z3.Not(x)
                elif b == FALSE:
                    m[n] = z3.And(x, za)
                elif a == TRUE:
                    m[n] = z3.Or(x, zb)
                elif a == FALSE:
                    m[n] = z3.And(z3.Not(x), zb)
                elif b == TRUE:
                    m[n] = z3.Or(z3.Not(x), za)
                else:
                    m[n] = z3.If(x, za, zb)
        return m[f]

    def solve(self, f, timeout_ms=None, extra=()):
        """z3 verdict on guard f: 'sat'/'unsat'/'unknown', model."""
        import time
        t = time.time()
        s = z3.Solver()
        s.set('timeout', timeout_ms or self.z3_timeout_ms)
        q = self.to_z3(f)
        names = set()
        for v in self.support(f):
            if v not in self._symcache:
                self._symcache[v] = symbols(self.z3vars[v])
            names |= self._symcache[v]
        for c in extra:
            names |= symbols(c)
        for c in self.side.relevant(names):
            s.add(c)
        for c in extra:
            s.add(c)
        s.add(q)
        r = s.check()
        self.z3_queries += 1
        self.z3_time += time.time() - t
        if r == z3.sat:
            return 'sat', s.model()
        return ('unsat' if r == z3.unsat else 'unknown'), None

    def feasible(self, f):
        """False only when f is proved unsatisfiable."""
        if f == FALSE:
            return False
        if not self.has_theory(f):
            return True
        key = (f, len(self.side))
        r = self._feas.get(key)
        if r is None:
            v, _ = self.solve(f, 4000)
            r = v != 'unsat'
            self._feas[key] = r
            if not r:
                self.dead = self.OR(self.dead, f)
        return r

    def evaluate(self, f, assign):
        """Value of f under assign(var)->bool."""
        while f > 1:
            f = self.hi[f] if assign(self.var[f]) else self.lo[f]
        return f == TRUE
