"""C03 Python rounding follows the documented rule for every mode and value"""
from .spec import *

FUNCTIONS = ["cl_fix_round", "NarrowFix.round", "WideFix.round", "FixFormat.for_round", "NarrowFix/WideFix constructors and conversions"]
BOUNDS = {"quick": "all 7 modes; argument widths 1..72, I and F in [-20,70], up to 76 bits rounded off, up to 20 added, all values",
          "thorough": "argument widths 1..130, I and F in [-60,128], up to 140 bits rounded off"}


def cases(tier, seed):
    return [dict(rnd=r, tier=tier) for r in RNDS]


def run(E, case):
    rnd = case["rnd"]
    lo, hi, W, D = (-20, 70, 72, 76) if case["tier"] == "quick" else (-60, 128, 130, 140)
    a = fmt(E, "a", I=(lo, hi), F=(lo, hi), w=(1, W))
    rF = E.int("rF", -D - 14, hi + 20)
    E.assume(rF - a.F <= 20)
    E.assume(a.F - rF <= D)
    q = value(E, "x", a)
    r = E.call(E.pkg.FixFormat.for_round, a, rF, rnd_of(E, rnd))
    y = E.call(E.pkg.cl_fix_round, rep(E, q, a), a, r, rnd_of(E, rnd))
    E.check(r.F == rF, "format F")
    v = unrep(E, y, r)
    E.check(len(v) == 1, "shape")
    E.observe("y", v[0])
    E.check(v[0] == spec_round(E, q, a.F, rF, rnd), "rounded value")
