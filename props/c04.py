"""C04 Python saturation clips and non-saturation wraps modulo the range"""
from .spec import *

FUNCTIONS = ["cl_fix_saturate", "NarrowFix.saturate", "WideFix.saturate", "NarrowFix.__init__", "WideFix.__init__",
             "WideFix.from_narrowfix", "WideFix.to_real", "cl_fix_is_wide", "NarrowFix.max_value/min_value",
             "WideFix.max_value/min_value", "NarrowFix comparison operators", "FixFormat.for_add"]
BOUNDS = {"quick": "argument widths 1..66, result widths 0..66, I and F in [-70,80], |aI-rI| <= 70, all values",
          "thorough": "widths up to 130, I and F in [-140,140]"}


def cases(tier, seed):
    r = [dict(sat=s, obj=False, tier=tier) for s in SATS]
    r += [dict(sat=s, obj=o, tier=tier) for s in ("None_s", "Sat_s") for o in ("narrow", "wide")]
    return r


def run(E, case):
    sat = case["sat"]
    W, L = (66, 80) if case["tier"] == "quick" else (130, 140)
    if case["obj"] == "narrow":
        W = 53
    a = fmt(E, "a", I=(-L, L), F=(-L, L), w=(1, W))
    rS = E.int("rS", 0, 1)
    rI = E.int("rI", -L, L)
    E.assume(rI + a.F >= 0)
    E.assume(rS + rI + a.F >= 1)
    E.assume(rS + rI + a.F <= W)
    r = mk(E, rS, rI, a.F)
    q = value(E, "x", a)
    if case["obj"] == "narrow":
        o = E.call(E.pkg.NarrowFix, E.arr([q], (1,), "float64"), a)
        y = E.call(o.saturate, r, sat_of(E, sat))
        E.check(y.fmt == r, "format of the result object")
        v = E.elems(y.data)
    elif case["obj"] == "wide":
        o = E.call(E.pkg.WideFix, E.arr([q * E.pow2(a.F)], (1,), "object"), a)
        y = E.call(o.saturate, r, sat_of(E, sat))
        E.check(y.fmt == r, "format of the result object")
        v = [e * E.pow2(-r.F) for e in E.elems(y.data)]
        E.check(E.elemkinds(y.data) == ["int"], "wide elements are Python ints")
    else:
        y = E.call(E.pkg.cl_fix_saturate, rep(E, q, a), a, r, sat_of(E, sat))
        v = unrep(E, y, r)
    E.check(len(v) == 1, "shape")
    E.observe("y", v[0])
    E.check(v[0] == spec_sat(E, q, r, sat), "saturated value")
