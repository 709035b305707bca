"""Concrete evaluation of Num / Bool under a model (exact; independent of the bit-vector lowering)."""
from fractions import Fraction
from .num import Lin


def rne53(m):
    """round integer m to 53 significant bits, nearest even"""
    s = abs(m).bit_length() - 53
    if s <= 0:
        return m
    a = abs(m)
    q, r = a >> s, a & ((1 << s) - 1)
    h = 1 << (s - 1)
    if r > h or (r == h and (q & 1)):
        q += 1
    v = q << s
    return -v if m < 0 else v


class Evaluator:
    def __init__(self, ctx, model):
        self.m = model
        self.c = {}
        self.b = {}

    def lin(self, l):
        return l.c + sum(v * self.m.ctl[n] for n, v in l.t)

    def num(self, x):
        r = self.c.get(x)
        if r is None:
            r = Fraction(0)
            for (a, l), c in x.t.items():
                e = self.lin(Lin(l, 0))
                p = Fraction(1 << e) if e >= 0 else Fraction(1, 1 << -e)
                r += c * p * (1 if a is None else self.atom(a))
            self.c[x] = r
        return r

    def atom(self, a):
        k = ("a", a)
        r = self.c.get(k)
        if r is None:
            r = self._atom(a)
            self.c[k] = r
        return r

    def _atom(self, a):
        k = a.kind
        g = a.args
        if k == "var":
            return self.m.data.get(g[0], 0)
        if k == "cvar":
            return self.m.ctl[g[0]]
        if k == "floor":
            v = self.num(g[0])
            return v.numerator // v.denominator
        if k == "mod":
            v = self.num(g[0])
            e = self.lin(g[1])
            return int(v) % (1 << e)
        if k == "ite":
            return self.num(g[1]) if self.bool(g[0]) else self.num(g[2])
        if k == "mul":
            r = 1
            for q in g:
                r *= self.atom(q)
            return r
        if k == "rne":
            return rne53(int(self.num(g[0])))
        if k == "divc":
            v = self.num(g[0])
            return int(v) // g[1]
        if k == "bitop":
            x, y = int(self.num(g[1])), int(self.num(g[2]))
            return {"and": x & y, "or": x | y, "xor": x ^ y}[g[0]]
        raise KeyError(k)

    def bool(self, b):
        k = b.kind
        if k == "const":
            return b.args[0]
        if k == "<":
            return self.num(b.args[0]) < 0
        if k == "<=":
            return self.num(b.args[0]) <= 0
        if k == "==":
            return self.num(b.args[0]) == 0
        if k == "not":
            return not self.bool(b.args[0])
        if k == "and":
            return all(self.bool(q) for q in b.args)
        if k == "bvar":
            return bool(self.m.data.get(b.args[0], False))
        raise KeyError(k)
