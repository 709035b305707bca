"""C19 minimum, maximum, zeros and random values are representable extremes"""
from .spec import *

FUNCTIONS = ["cl_fix_max_value", "cl_fix_min_value", "cl_fix_zeros", "cl_fix_random", "NarrowFix.max_value/min_value",
             "WideFix.max_value/min_value"]
BOUNDS = {"quick": "symbolic formats: widths 1..120, I and F in [-60,160]; every outcome of the random source (any integer of the "
                   "requested interval); shapes (), 1, (2,), [2,1], (1,2,2); coverage of both extremes by every element: the formats below",
          "thorough": "widths 1..300, I and F in [-200,300]"}
OUTSIDE = "the distribution of the random source; empty shapes; exponents beyond the range of a double"
SHAPES = [(), 1, (2,), [2, 1], (1, 2, 2)]
COVER = [(1, 3, 4), (0, 1, 0), (1, 0, 0), (0, 8, -3), (1, -3, 10), (0, 0, 53), (1, 30, 22), (1, 52, 0), (0, 30, 24), (1, 60, 4), (0, 64, 0),
         (1, 64, 64), (1, 0, 80), (0, 90, -20)]


def cases(tier, seed):
    r = []
    for S in (0, 1):
        for wide in (0, 1):
            r.append(dict(kind="extremes", S=S, wide=wide, tier=tier))
            for si in range(len(SHAPES)):
                r.append(dict(kind="zeros", S=S, wide=wide, si=si, tier=tier))
                r.append(dict(kind="random", S=S, wide=wide, si=si, tier=tier))
    for f in COVER:
        r.append(dict(kind="cover", f=f, tier=tier))
    return r


def run(E, case):
    k = case["kind"]
    if k == "cover":
        f = mk(E, *case["f"])
        shape = E.choice("shape", SHAPES)
        lo, hi = vmin(E, f), vmax(E, f)
        if E.symbolic:
            v = unrep(E, E.call(E.pkg.cl_fix_random, shape, f), f)
            for q in v:
                E.possible(q == lo, "the minimum can be drawn")
                E.possible(q == hi, "the maximum can be drawn")
        else:
            E.draws("lo")
            a = unrep(E, E.call(E.pkg.cl_fix_random, shape, f), f)
            E.draws("hi")
            b = unrep(E, E.call(E.pkg.cl_fix_random, shape, f), f)
            for p, q in zip(a, b):
                E.check(lo in (p, q), "the minimum can be drawn")
                E.check(hi in (p, q), "the maximum can be drawn")
        return
    W, L = (120, (-60, 160)) if case["tier"] == "quick" else (300, (-200, 300))
    f = fmt(E, "f", I=L, F=L, w=(54, W) if case["wide"] else (1, 53), S=case["S"])
    if k == "extremes":
        o = E.choice("o", ["fn", "narrow", "wide"])
        if o == "narrow" and case["wide"]:
            return
        for nm, want in (("max_value", vmax(E, f)), ("min_value", vmin(E, f))):
            if o == "fn":
                y = E.call(getattr(E.pkg, "cl_fix_" + nm), f)
                v = unrep(E, y, f)
            else:
                t = E.call(getattr(E.pkg.NarrowFix if o == "narrow" else E.pkg.WideFix, nm), f)
                E.check(t.fmt == f, "format of the result object")
                y = t.data
                v = E.elems(y)
                if o == "wide":
                    v = [q * E.pow2(-f.F) for q in v]
            E.check(E.shape(y) == () and len(v) == 1, "a single value")
            E.observe(nm, v[0])
            E.check(v[0] == want, "exactly the extreme value")
        return
    shape = SHAPES[case["si"]]
    want = tuple(shape) if not isinstance(shape, int) else (shape,)
    y = E.call(E.pkg.cl_fix_zeros if k == "zeros" else E.pkg.cl_fix_random, shape, f)
    E.check(E.shape(y) == want, "shape")
    v = unrep(E, y, f)
    n = 1
    for d in want:
        n *= d
    E.check(len(v) == n, "number of elements")
    for i, q in enumerate(v):
        E.observe("v%d" % i, q)
        if k == "zeros":
            E.check(q == 0, "exactly zero")
        else:
            E.check(in_fmt(E, q, f), "representable")
