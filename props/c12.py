"""C12 Python in_range tells exactly whether the rounded value fits"""
from .spec import *
from . import ops

FUNCTIONS = ["cl_fix_in_range", "NarrowFix.in_range", "cl_fix_round", "cl_fix_resize", "NarrowFix/WideFix.min_value/max_value",
             "WideFix.from_narrowfix", "FixFormat.for_round"]
BOUNDS = {"quick": "symbolic formats: widths 1..66, I and F in [-40,70], |aF-rF| <= 40, all 7 modes, all values; the 20 concrete "
                   "pairs of props/ops.py with all modes; resize agreement on the concrete pairs (None_s and Sat_s)",
          "thorough": "widths 1..90, |aF-rF| <= 70"}


def cases(tier, seed):
    r = []
    for n in RNDS:
        r.append(dict(kind="sym", rnd=n, tier=tier))
        r.append(dict(kind="obj", rnd=n, tier=tier))
    for c in ops.UNARY:
        r.append(dict(kind="cfg", cfg=c))
    r.append(dict(kind="default"))
    return r


def run(E, case):
    k = case["kind"]
    W, D = (66, 40) if case.get("tier") == "quick" else (90, 70)
    if k in ("sym", "obj"):
        a = fmt(E, "a", I=(-40, 70), F=(-40, 70), w=(1, 53 if k == "obj" else W))
        r = fmt(E, "r", I=(-40, 70), F=(-40, 70), w=(1, 53 if k == "obj" else W))
        E.assume(a.F - r.F <= D)
        E.assume(r.F - a.F <= D)
        rnd = case["rnd"]
    else:
        a, r = [mk(E, *f) for f in (case["cfg"] if k == "cfg" else E.choice("cfg", ops.UNARY))]
        rnd = E.choice("rnd", RNDS) if k == "cfg" else "Trunc_s"
    q = value(E, "x", a)
    if k == "obj":
        rf = E.call(E.pkg.FixFormat.for_round, a, r.F, rnd_of(E, rnd))
        E.assume(width(rf) <= 53)
        o = E.call(E.pkg.NarrowFix, E.arr([q], (1,), "float64"), a)
        y = E.call(o.in_range, r, rnd_of(E, rnd))
    elif k == "default":
        y = E.call(E.pkg.cl_fix_in_range, rep(E, q, a), a, r)
    else:
        y = E.call(E.pkg.cl_fix_in_range, rep(E, q, a), a, r, rnd_of(E, rnd))
    b = E.bools(y)
    E.check(len(b) == 1, "shape")
    v = spec_round(E, q, a.F, r.F, rnd)
    E.check(E.iff(b[0], fits(E, v, r)), "in_range iff the rounded value fits")
    if k == "cfg":
        for sat in ("None_s", "Sat_s"):
            w = unrep(E, E.call(E.pkg.cl_fix_resize, rep(E, q, a), a, r, rnd_of(E, rnd), sat_of(E, sat)), r)
            E.observe(sat, w[0])
            E.check(E.iff(b[0], w[0] == v), "resize leaves the rounded value unchanged iff in range")
