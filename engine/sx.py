"""Arithmetic/boolean terms as SMT-LIB text (building z3 ASTs one call at a time is the bottleneck)."""
from fractions import Fraction


class T:
    __slots__ = ("s", "k", "v")

    def __init__(self, s, k, v=None):
        self.s, self.k, self.v = s, k, v

    def __add__(self, o):
        return nary("+", (self, o))

    __radd__ = __add__

    def __sub__(self, o):
        return nary("-", (self, o))

    def __mul__(self, o):
        return nary("*", (self, o))

    def __rmul__(self, o):
        return nary("*", (lit(o, self.k), self))

    def __le__(self, o):
        return rel("<=", self, o)

    def __ge__(self, o):
        return rel(">=", self, o)

    def __lt__(self, o):
        return rel("<", self, o)

    def __gt__(self, o):
        return rel(">", self, o)

    def __eq__(self, o):
        return rel("=", self, o)

    def __neg__(self):
        return T(f"(- {self.s})", self.k)

    __hash__ = None


def lit(v, k):
    if isinstance(v, T):
        return v
    if isinstance(v, Fraction) and v.denominator != 1:
        s = f"(/ {abs(v.numerator)}.0 {v.denominator}.0)"
    else:
        v = int(v)
        s = f"{abs(v)}" + (".0" if k == "R" else "")
    return T(f"(- {s})" if v < 0 else s, k)


def both(a, b):
    k = a.k if isinstance(a, T) else b.k
    a, b = lit(a, k), lit(b, k)
    if a.k != b.k:
        a, b = ToReal(a), ToReal(b)
    return a, b


def nary(op, xs):
    a, b = both(*xs)
    return T(f"({op} {a.s} {b.s})", a.k)


def rel(op, a, b):
    if a.k == "B":
        return T(f"(= {a.s} {b.s})", "B")
    a, b = both(a, b)
    return T(f"({op} {a.s} {b.s})", "B")


def ToReal(a):
    return a if a.k == "R" else T(f"(to_real {a.s})", "R")


def Sum(xs):
    return T("(+ " + " ".join(ToReal(x).s for x in xs) + ")", "R") if len(xs) > 1 else xs[0]


def BoolVal(v):
    return T("true" if v else "false", "B", bool(v))


def Not(a):
    return BoolVal(not a.v) if a.v is not None else T(f"(not {a.s})", "B")


def And(*xs):
    return T("(and " + " ".join(x.s for x in xs) + ")", "B") if len(xs) > 1 else (xs[0] if xs else BoolVal(True))


def Or(*xs):
    return T("(or " + " ".join(x.s for x in xs) + ")", "B") if len(xs) > 1 else xs[0]


def Implies(a, b):
    return T(f"(=> {a.s} {b.s})", "B")


def is_true(a):
    return a.v is True


def is_false(a):
    return a.v is False


def RealVal(v):
    return lit(v, "R")


def IntVal(v):
    return lit(v, "I")


class Decls:
    def __init__(self):
        self.d = {}

    def var(self, n, k):
        if n not in self.d:
            self.d[n] = k
        return T(f"|{n}|", k)

    def text(self, cons):
        so = {"I": "Int", "R": "Real", "B": "Bool"}
        return "\n".join([f"(declare-const |{n}| {so[k]})" for n, k in self.d.items()] +
                         [f"(assert {c.s})" for c in cons])
