"""Mixed integer/linear abstraction of a query.

Every monomial atom*2**lin becomes one arithmetic variable.  The defining relations of the atoms
(floor, modulo, if-then-else, products through their McCormick envelope), the path facts scaled
to the exponents that occur, and the order relations between the powers of two are added as
linear constraints.  Each constraint is implied by the exact semantics, therefore `unsat` is a
proof for all values; `sat` is not a verdict (the bit-precise query decides)."""
import itertools
from . import sx as z3
from fractions import Fraction
from . import num as N
from .num import Lin

MAXCONS = 600


def q(v):
    return z3.RealVal(v)


def p2(e):
    return Fraction(1 << e) if e >= 0 else Fraction(1, 1 << -e)


class Lra:
    def __init__(self, ctx, ks=(-1, 0, 1)):
        self.ctx = ctx
        self.ks = ks
        self.cons = []
        self.mono = {}           # (atom|None, lin.t) -> z3 expr
        self.todo = []
        self.boolc = {}
        self.ctl = {}
        self.done = set()
        self.byatom = {}
        self.cmps = []
        self.mods = {}
        self.d = z3.Decls()
        self.rnes = []

    # ------------------------------------------------------------ monomials
    def cv(self, n):
        r = self.ctl.get(n)
        if r is None:
            r = self.ctl[n] = self.d.var("c_" + n, "I")
            lo, hi = self.ctx.box[n]
            self.cons.append(r >= lo)
            self.cons.append(r <= hi)
        return r

    def lin(self, l):
        e = z3.IntVal(l.c)
        for n, v in l.t:
            e = e + v * self.cv(n)
        return e

    def term(self, a, l):
        """(variable, constant factor) of a * 2**l"""
        l = self.ctx.reduce(l)
        f = p2(l.c)
        k = (a, l.t)
        r = self.mono.get(k)
        if r is None:
            if a is None:
                r = z3.RealVal(1) if not l.t else self.d.var("P" + repr(Lin(l.t, 0)), "R")
                if l.t:
                    self.cons.append(r > 0)
            elif a.kind == "cvar" and not l.t:
                r = z3.ToReal(self.cv(a.args[0]))
            elif not l.t and a.kind in ("floor", "mod", "var", "divc", "mul", "ite"):
                r = z3.ToReal(self.d.var(f"a{a.id}", "I"))
            else:
                r = self.d.var(f"m{a.id}_{Lin(l.t, 0)!r}", "R")
            self.mono[k] = r
            self.todo.append(k)
            self.byatom.setdefault(a, []).append(l.t)
        return r, f

    def num(self, x, off=N.L0):
        acc = []
        for (a, l), c in x.t.items():
            r, f = self.term(a, Lin(l, 0).add(off))
            f = f * c
            acc.append(r if f == 1 else q(f) * r)
        if not acc:
            return z3.RealVal(0)
        return z3.Sum(acc) if len(acc) > 1 else acc[0]

    # ------------------------------------------------------------ definitions of atoms
    def define(self, k):
        a, lt = k
        if a is None or k in self.done:
            return
        self.done.add(k)
        l = Lin(lt, 0)
        g = a.args
        A = self.mono[k]
        c = self.ctx
        add = self.cons.append
        if a.kind == "floor":
            G = self.num(g[0], l)
            add(A <= G)
            one, f = self.term(None, l)
            add(G - A < q(f) * one)
            base = c.minbase(N.term_lins(g[0]), fork=False)
            if c.lin_ge0(base.neg()):
                gr, f2 = self.term(None, l.add(base))
                add(G - A <= q(f) * one - q(f2) * gr)
        elif a.kind == "ite":
            b = self.bool(g[0])
            if not z3.is_false(b):
                add(z3.Implies(b, A == self.num(g[1], l)))
            if not z3.is_true(b):
                add(z3.Implies(z3.Not(b), A == self.num(g[2], l)))
        elif a.kind == "mod":
            M, kk = g
            qa = N.mkatom("floor", N.mulpow2(M, kk.neg()))
            one, f = self.term(None, l)
            top, f2 = self.term(None, l.add(kk))
            Q, f3 = self.term(qa, l.add(kk))
            add(A >= 0)
            add(A <= q(f2) * top - q(f) * one)
            m = self.num(M, l)
            add(A == m - q(f3) * Q)
            T = q(f2) * top
            add(z3.Implies(z3.And(m >= 0, m < T), A == m))
            add(z3.Implies(z3.And(m >= T, m < 2 * T), A == m - T))
            add(z3.Implies(z3.And(m >= -T, m < 0), A == m + T))
            key = (kk, l)
            for (m2, A2) in self.mods.get(key, ()):
                add(z3.Implies(m == m2, A == A2))
            self.mods.setdefault(key, []).append((m, A))
        elif a.kind == "mul" and len(g) == 2:
            x, y = g
            bx, by = self.bounds(x), self.bounds(y)
            if bx and by:
                (xl, xh), (yl, yh) = bx, by
                px, py = N.from_atom(x), N.from_atom(y)
                p = N.from_atom(a)
                for u, v, s in ((xl, yl, 1), (xh, yh, 1), (xh, yl, -1), (xl, yh, -1)):
                    # s*(x-u)*(y-v) >= 0
                    e = N.add(N.sub(N.sub(p, N.mul(u, py)), N.mul(v, px)), N.mul(u, v))
                    z = self.num(e, l)
                    add(z >= 0 if s > 0 else z <= 0)
            if x is y:
                add(A >= 0)
        elif a.kind == "divc":
            M, n = g
            e = self.num(M, l)
            one, f = self.term(None, l)
            add(n * A <= e)
            add(e <= n * A + q(f * (n - 1)) * one)
        elif a.kind == "rne":
            M = self.num(g[0], l)
            lim, f = self.term(None, l)
            B = q(f * (1 << 53)) * lim
            add(z3.Implies(z3.And(M <= B, M >= -B), A == M))
            e = q(Fraction(1, 1 << 53))
            add(z3.Implies(M >= 0, z3.And(A >= M - e * M, A <= M + e * M)))
            add(z3.Implies(M <= 0, z3.And(A <= M - e * M, A >= M + e * M)))
            self.rnes.append((A, M))

    def bounds(self, a):
        if a.kind == "var":
            d = self.ctx.vars[a.args[0]]
            return d["lo"], d["hi"]
        return None

    # ------------------------------------------------------------ booleans
    def bool(self, b):
        r = self.boolc.get(b)
        if r is None:
            r = self._bool(b)
            if len(r.s) > 200:
                v = self.d.var(f"bool{b.id}", "B")
                self.cons.append(v == r)
                r = v
            self.boolc[b] = r
        return r

    def _bool(self, b):
        k = b.kind
        if k == "const":
            return z3.BoolVal(b.args[0])
        if N.is_control(b):
            return self.ctlb(b)
        if k in ("<", "<=", "=="):
            r = self.cmp(k, b.args[0])
            if len(b.args[0].t) <= 4:
                self.cmps.append((b, r))
            return r
        if k == "not":
            return z3.Not(self.bool(b.args[0]))
        if k == "and":
            return z3.And(*[self.bool(x) for x in b.args])
        if k == "bvar":
            return self.d.var("b_" + b.args[0], "B")
        raise N.Unsupported("bool " + k)

    def ctlb(self, b):
        k = b.kind
        if k == "const":
            return z3.BoolVal(b.args[0])
        if k in ("<", "<=", "=="):
            e = self.lin(N.as_lin(b.args[0]))
            return e < 0 if k == "<" else (e <= 0 if k == "<=" else e == 0)
        if k == "not":
            return z3.Not(self.ctlb(b.args[0]))
        return z3.And(*[self.ctlb(x) for x in b.args])

    def cmp(self, k, d, off=N.L0):
        e = self.num(d, off)
        # granularity: d is a multiple of 2**base
        base = self.ctx.minbase(N.term_lins(d), fork=False)
        if all(self.ctx.lin_ge0(t.sub(base)) for t in N.term_lins(d)):
            g, f = self.term(None, off.add(base))
            gr = g if f == 1 else q(f) * g
            if k == "<":
                self.cons.append(z3.Or(e >= 0, e <= -gr))
            elif k == "<=":
                self.cons.append(z3.Or(e <= 0, e >= gr))
            else:
                self.cons.append(z3.Or(e == 0, e >= gr, e <= -gr))
        return e == 0 if k == "==" else (e <= 0 if k == "<=" else e < 0)

    # ------------------------------------------------------------ query
    def build(self, facts, goals, mention=()):
        for b in mention:
            self.bool(b)
        for b in list(facts) + list(goals):
            for x in (b.args if b.kind == "and" else (b,)):
                self.cons.append(self.bool(x))
        scaled = set()
        seen = 0
        for rnd in range(5):
            work, self.todo = self.todo, []
            if not work or len(self.cons) > MAXCONS:
                break
            for k in work:
                self.define(k)
            # rounded values at the exponents at which the atoms of their argument occur
            for a in [a for a in self.byatom if a is not None and a.kind == "rne"]:
                for (a2, l2) in list(a.args[0].t):
                    if a2 is None or len(self.byatom[a]) > 4:
                        continue
                    for lt in list(self.byatom.get(a2, ())):
                        off = self.ctx.reduce(Lin(lt, 0).sub(Lin(l2, 0)))
                        if off.t:
                            self.term(a, off)
            # every comparison, scaled to the exponents at which its atoms occur
            for b, r in list(self.cmps):
                d = b.args[0]
                for (a, l2) in d.t:
                    if a is None or a.kind not in ("var", "floor", "ite", "mul", "rne"):
                        continue
                    for lt in list(self.byatom.get(a, ())):
                        off = self.ctx.reduce(Lin(lt, 0).sub(Lin(l2, 0)))
                        if not off.t:
                            continue
                        key = (b.id, off.t)
                        if key not in scaled and len(self.cons) < MAXCONS:
                            scaled.add(key)
                            self.cons.append(r == self.cmp(b.kind, d, Lin(off.t, 0)))
        for k in self.todo:
            self.define(k)
        self.powers()
        self.signs()
        return self.d.text(self.cons)

    def powers(self):
        c = self.ctx
        ls = [k[1] for k in self.mono if k[0] is None]
        if () not in ls:
            self.term(None, N.L0)
            ls.append(())
        for l in ls:
            if l:
                L = Lin(l, 0)
                v = self.mono[(None, l)]
                lo, hi = c.minlin(L), c.maxlin(L)
                self.cons.append(v >= q(p2(lo)))
                self.cons.append(v <= q(p2(hi)))
        # rounding is monotone and leaves powers of two unchanged
        for A, M in self.rnes:
            for l in ls:
                for k in (-1, 0):
                    P = q(p2(k)) * self.mono[(None, l)]
                    self.cons.append(z3.Implies(M >= P, A >= P))
                    self.cons.append(z3.Implies(M <= P, A <= P))
                    self.cons.append(z3.Implies(M <= -P, A <= -P))
                    self.cons.append(z3.Implies(M >= -P, A >= -P))
        for l1, l2 in itertools.combinations(ls, 2):
            d = Lin(l1, 0).sub(Lin(l2, 0))
            v1, v2 = self.mono[(None, l1)], self.mono[(None, l2)]
            e = self.lin(d)
            ks = set(self.ks)
            for k in sorted(ks):
                self.cons.append(z3.Or(e < k, v1 >= q(p2(k)) * v2))
                self.cons.append(z3.Or(e > k, v1 <= q(p2(k)) * v2))

    def signs(self):
        for a, ls in self.byatom.items():
            if a is None or len(ls) < 2:
                continue
            for l1, l2 in itertools.combinations(ls, 2):
                A, B = self.mono[(a, l1)], self.mono[(a, l2)]
                e = self.lin(Lin(l1, 0).sub(Lin(l2, 0)))
                self.cons.append((A > 0) == (B > 0))
                self.cons.append((A < 0) == (B < 0))
                for k in self.ks:
                    f = q(p2(k))
                    self.cons.append(z3.Or(A < 0, e < k, A >= f * B))
                    self.cons.append(z3.Or(A < 0, e > k, A <= f * B))
                    self.cons.append(z3.Or(A > 0, e < k, A <= f * B))
                    self.cons.append(z3.Or(A > 0, e > k, A >= f * B))
