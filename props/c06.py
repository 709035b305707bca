"""C06 Python resize equals rounding followed by saturation, for all formats"""
from .spec import *
from . import ops

FUNCTIONS = ["cl_fix_resize", "cl_fix_round", "cl_fix_saturate", "NarrowFix.round/saturate/resize",
             "WideFix.round/saturate/resize", "WideFix.from_narrowfix", "WideFix.to_real", "FixFormat.for_round"]
BOUNDS = {"quick": "symbolic formats: argument and result widths 1..60, |aF-rF| <= 30, |aI-rI| <= 30, the modes "
                   "Trunc/None, NonSymPos/Sat (and two more by seed); concrete format pairs of props/ops.py: all 28 modes; all values",
          "thorough": "symbolic formats for all 14 value-distinct mode pairs, widths 1..72"}


def cases(tier, seed):
    r = []
    al = [(n, s) for n in RNDS for s in ("None_s", "Sat_s")]
    if tier == "quick":
        pick = [("Trunc_s", "None_s"), ("NonSymPos_s", "Sat_s"), al[(seed * 3 + 4) % 14]]
    else:
        pick = al
    for n, s in dict.fromkeys(pick):
        r.append(dict(kind="sym", rnd=n, sat=s, tier=tier))
    for c in ops.unary_cfgs(tier):
        r.append(dict(kind="cfg", cfg=c))
    r.append(dict(kind="default"))
    for n, s in [al[(seed + 5) % 14], al[(seed + 12) % 14]]:
        for o in ("narrow", "wide"):
            r.append(dict(kind="obj", obj=o, rnd=n, sat=s, tier=tier))
    return r


def run(E, case):
    k = case["kind"]
    if k in ("sym", "obj"):
        W = 60 if case["tier"] == "quick" else 72
        D = 30 if case["tier"] == "quick" else 60
        if case.get("obj") == "narrow":
            W = 53
        a = fmt(E, "a", I=(-40, 70), F=(-40, 70), w=(1, W))
        r = fmt(E, "r", I=(-40, 70), F=(-40, 70), w=(1, W))
        E.assume(a.F - r.F <= D)
        E.assume(r.F - a.F <= D)
        E.assume(a.I - r.I <= D)
        E.assume(r.I - a.I <= D)
        if case.get("obj") == "narrow":
            E.assume(width(a) + r.F - a.F <= 50)
        rnd, sat = case["rnd"], case["sat"]
    elif k == "cfg":
        a, r = [mk(E, *f) for f in case["cfg"]]
        rnd, sat = E.choice("rnd", RNDS), E.choice("sat", SATS)
    else:
        a, r = [mk(E, *f) for f in E.choice("cfg", ops.UNARY)]
        rnd, sat = E.choice("rnd", ["Trunc_s", "NonSymPos_s"]), "None_s"
    q = value(E, "x", a)
    if k == "obj":
        if case["obj"] == "narrow":
            o = E.call(E.pkg.NarrowFix, E.arr([q], (1,), "float64"), a)
        else:
            o = E.call(E.pkg.WideFix, E.arr([q * E.pow2(a.F)], (1,), "object"), a)
        y = E.call(o.resize, r, rnd_of(E, rnd), sat_of(E, sat))
        E.check(y.fmt == r, "format of the result object")
        v = E.elems(y.data)
        if case["obj"] == "wide":
            v = [e * E.pow2(-r.F) for e in v]
    else:
        x = rep(E, q, a)
        if k == "default":
            y = E.call(E.pkg.cl_fix_resize, x, a, r) if rnd == "Trunc_s" else E.call(E.pkg.cl_fix_resize, x, a, r, rnd=rnd_of(E, rnd))
        else:
            y = E.call(E.pkg.cl_fix_resize, x, a, r, rnd_of(E, rnd), sat_of(E, sat))
        v = unrep(E, y, r)
    E.check(len(v) == 1, "shape")
    E.observe("y", v[0])
    E.check(v[0] == spec_resize(E, q, a.F, r, rnd, sat), "resized value")
    E.check(in_fmt(E, v[0], r), "result is representable in the result format")
