"""C14 from_real rounds half up and saturates, for every double and format"""
from .spec import *
from . import ops

FUNCTIONS = ["cl_fix_from_real", "NarrowFix.from_real", "WideFix.from_real", "NarrowFix/WideFix.max_value/min_value", "_clean_input"]
BOUNDS = {"quick": "all doubles m*2^e with |m| < 2^53, e in [-110,60]; symbolic formats of widths 0..66, I and F in [-40,70]; "
                   "Python float, NumPy float64, 0-d and 1-element arrays; Sat_s, SatWarn_s, default; None_s/Warn_s rejected",
          "thorough": "e in [-200,120], widths 0..120, I and F in [-100,120]; two-element arrays"}
OUTSIDE = "doubles outside the exponent range, infinities, NaN; formats whose 2^F overflows a double"
KINDS = ["array", "pyfloat", "npfloat", "0d"]


def cases(tier, seed):
    r = []
    for obj in ("fn", "narrow", "wide"):
        for S in (0, 1):
            for kd in KINDS if obj == "fn" else ["array", "pyfloat"]:
                r.append(dict(obj=obj, S=S, kind=kd, tier=tier))
    r.append(dict(obj="reject"))
    if tier != "quick":
        r += [dict(obj="fn", S=S, kind="array2", tier=tier) for S in (0, 1)]
    return r


def run(E, case):
    if case["obj"] == "reject":
        f = mk(E, *E.choice("f", [(1, 3, 5), (0, 1, 3), (1, 60, 20)]))
        x = E.scalar(E.mant("x", E.Q(-100), E.Q(100), [7]) * E.pow2(-3), "float")
        x = x if E.choice("k", [0, 1]) else E.arr([x], (1,), "float64")
        for s in ("None_s", "Warn_s"):
            E.check(E.raises(E.pkg.cl_fix_from_real, x, f, sat_of(E, s)) is not None, "non-saturating mode is rejected")
        return
    q = case["tier"] == "quick"
    W, L, e0, e1 = (66, 70, -110, 60) if q else (120, 120, -200, 120)
    r = fmt(E, "r", I=(-40 if q else -100, L), F=(-40 if q else -100, L), w=(0, 53 if case["obj"] == "narrow" else W), S=case["S"])
    n = 2 if case["kind"] == "array2" else 1
    xs = []
    for i in range(n):
        m = E.mant("m%d" % i, E.Q(1 - 2**53), E.Q(2**53 - 1), [53])
        xs.append(m * E.pow2(E.int("e%d" % i, e0, e1)))
    kd = case["kind"]
    if kd == "pyfloat":
        x, shape = E.scalar(xs[0], "float"), ()
    elif kd == "npfloat":
        x, shape = E.scalar(xs[0], "float64"), ()
    elif kd == "0d":
        x, shape = E.arr(xs, (), "float64"), ()
    else:
        x, shape = E.arr(xs, (n,), "float64"), (n,)
    mode = E.choice("sat", ["Sat_s", "default", "SatWarn_s"])
    args = (x, r) + (() if mode == "default" else (sat_of(E, mode),))
    if case["obj"] == "fn":
        y = E.call(E.pkg.cl_fix_from_real, *args)
        v = unrep(E, y, r)
    else:
        o = E.call((E.pkg.NarrowFix if case["obj"] == "narrow" else E.pkg.WideFix).from_real, *args)
        E.check(o.fmt == r, "format of the result object")
        y = o.data
        v = E.elems(y)
        if case["obj"] == "wide":
            E.check(E.elemkinds(y) == ["int"], "wide elements are Python ints")
            v = [z * E.pow2(-r.F) for z in v]
    E.check(E.shape(y) == shape, "shape")
    for i in range(n):
        E.observe("y%d" % i, v[i])
        h = E.floor(xs[i] * E.pow2(r.F) + HALF) * E.pow2(-r.F)
        E.check(v[i] == spec_sat(E, h, r, "Sat_s"), "half-up rounding with saturation")
        E.check(E.or_(E.not_(in_fmt(E, xs[i], r)), v[i] == xs[i]), "representable values are unchanged")
