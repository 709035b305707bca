"""C26 VHDL integer conversions are exact inverses"""
from .vfix import *

NEEDS = "vhdl"
FUNCTIONS = ["cl_fix_to_integer", "cl_fix_from_integer"]
BOUNDS = {"quick": "signed formats of width 1..32, unsigned of width 0..31, several binary points; all bit patterns, all integers"}
OUTSIDE = "formats whose integer does not fit a VHDL integer; metavalues"


def cases(tier, seed):
    return [dict(S=s, w=w) for s in (0, 1) for w in range(s, 32 + s)]


def run(E, case):
    s, w = case["S"], case["w"]
    F = E.choice("F", [0, -3, w + 2, w // 2])
    f = Fmt(s, w - s - F, F)
    if E.choice("dir", ["bits", "int"]) == "bits":
        v = E.vec("a", w)
        d, off = E.choice("shape", SHAPES)
        if d == "to" or off:
            v = E.reshape(v, off if d == "to" else w - 1 + off, d == "to")
        n = E.call("cl_fix_to_integer", v, E.fmt(f), ret="int")
        E.observe("n", n)
        e = E.int_of(v, s)
        E.check(E.Q(n) == e, "integer value of the bits")
        y = E.call("cl_fix_from_integer", n, E.fmt(f), ret="slv")
        E.observe("y", y)
        E.check(y.n == w, "width")
        E.check(E.bits_eq(y, e), "bits survive the round trip")
    else:
        lo, hi = (-2 ** (w - 1), 2 ** (w - 1) - 1) if s else (0, 2 ** w - 1)
        n = E.int("n", lo, hi)
        y = E.call("cl_fix_from_integer", n, E.fmt(f), ret="slv")
        E.observe("y", y)
        E.check(y.n == w, "width")
        E.check(E.bits_eq(y, n), "bits of the integer")
        m = E.call("cl_fix_to_integer", y, E.fmt(f), ret="int")
        E.observe("m", m)
        E.check(E.Q(m) == n, "integer survives the round trip")
