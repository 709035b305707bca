"""C15 integer and real conversions are exact inverses in range"""
from .spec import *

FUNCTIONS = ["cl_fix_from_integer", "cl_fix_to_integer", "cl_fix_to_real", "NarrowFix.from_integer/to_integer/in_range",
             "WideFix.to_real", "_clean_input"]
BOUNDS = {"quick": "symbolic formats: narrow widths 1..53 with I and F in [-40,90]; wide widths 54..72 (to_real: 54..120); all values; "
                   "rejection: every int64 outside the format and every Python int of up to 80 bits; scalars, 0-d and one/two-"
                   "element arrays",
          "thorough": "I and F in [-120,160]; wide widths 54..200; every Python int of up to 128 bits"}
OUTSIDE = "values whose conversion overflows the exponent range of a double"


def cases(tier, seed):
    r = []
    for S in (0, 1):
        for sh in ("1", "2", "0d", "scalar"):
            r.append(dict(kind="value", wide=0, S=S, sh=sh, tier=tier))
            r.append(dict(kind="int", wide=0, S=S, sh=sh, tier=tier))
        for sh in ("1", "2", "0d"):
            r.append(dict(kind="value", wide=1, S=S, sh=sh, tier=tier))
            r.append(dict(kind="int", wide=1, S=S, sh=sh, tier=tier))
        for sh in ("1", "2", "0d", "py"):
            r.append(dict(kind="reject", S=S, sh=sh, tier=tier))
        for obj in ("fn", "obj", "silent"):
            for sh in ("1", "2"):
                for val in ("any", "double"):
                    if (obj, val) != ("silent", "any"):
                        r.append(dict(kind="real", S=S, sh=sh, obj=obj, val=val, tier=tier))
        r.append(dict(kind="nreal", S=S, sh="2", tier=tier))
    return r


def shape_of(sh):
    return {"1": (1,), "2": (2,), "0d": (), "scalar": (), "py": ()}[sh]


def run(E, case):
    q = case["tier"] == "quick"
    k, S, sh = case["kind"], case["S"], case["sh"]
    L = (-40, 90) if q else (-120, 160)
    n = 2 if sh == "2" else 1
    shape = shape_of(sh)
    if k in ("value", "int"):
        f = fmt(E, "f", I=L, F=L, w=(54, 72 if q else 200) if case["wide"] else (1, 53), S=S)
        vs = [value(E, "x%d" % i, f) for i in range(n)]
        ns = [v * E.pow2(f.F) for v in vs]
        kind = "object" if case["wide"] else "int64"
        x = rep(E, vs, f, shape) if sh != "scalar" else E.scalar(vs[0], "float64")
        m = E.arr(ns, shape, kind) if sh != "scalar" else E.scalar(ns[0], E.choice("ik", ["int", "int64"]))
        if k == "value":
            t = E.call(E.pkg.cl_fix_to_integer, x, f)
            if sh != "scalar":
                E.check(E.shape(t) == shape, "shape of the integers")
            te = E.elems(t)
            E.check(len(te) == n, "number of integers")
            E.check(E.dtype(t)[1] == kind or sh in ("0d", "scalar") and E.dtype(t)[1] in (kind, "int"), "integer data type")
            for a, b in zip(te, ns):
                E.check(a == b, "integer view is value * 2**F")
            y = E.call(E.pkg.cl_fix_from_integer, t, f)
        else:
            y = E.call(E.pkg.cl_fix_from_integer, m, f)
        ve = unrep(E, y, f)
        E.check(E.shape(y) == shape, "shape of the values")
        for i, (a, b) in enumerate(zip(ve, vs)):
            E.observe("y%d" % i, a)
            E.check(a == b, "the same value")
        b = E.call(E.pkg.cl_fix_to_integer, y, f)
        for a, c in zip(E.elems(b), ns):
            E.check(a == c, "the same integer")
        return
    if k == "reject":
        f = fmt(E, "f", I=(-40, 70), F=(-40, 70), w=(1, 53), S=S)
        B = 80 if q else 128
        if sh == "py":
            ns = [E.mant("n", E.Q(-2**B), E.Q(2**B), [B])]
            a = E.scalar(ns[0], "int")
        else:
            ns = [E.mant("n%d" % i, E.Q(-2**63), E.Q(2**63 - 1), [63]) for i in range(n)]
            a = E.arr(ns, shape, "int64")
        ok = E.and_(*[fits(E, v * E.pow2(-f.F), f) for v in ns])
        E.assume(E.not_(ok))
        e = E.raises(E.pkg.cl_fix_from_integer, a, f)
        E.observe("raised", e is not None)
        E.check(e is not None, "an out-of-range integer is rejected")
        return
    if k == "nreal":
        f = fmt(E, "f", I=L, F=L, w=(1, 53), S=S)
        vs = [value(E, "x%d" % i, f) for i in range(n)]
        y = E.call(E.pkg.cl_fix_to_real, rep(E, vs, f, shape), f)
        E.check(E.dtype(y)[1] == "float64", "data type")
        E.check(len(E.warns()) == 0, "no warning")
        E.check(E.shape(y) == shape, "shape")
        for a, b in zip(E.elems(y), vs):
            E.check(a == b, "exact real value")
        return
    # wide to real
    f = fmt(E, "f", I=L, F=L, w=(54, 120 if q else 200), S=S)
    if case["val"] == "double":
        # every value of the format with at most 53 significant bits
        vs = []
        for i in range(n):
            m = E.mant("m%d" % i, E.Q(-2**53), E.Q(2**53), [53])
            v = m * E.pow2(E.int("e%d" % i, 0, 150 if q else 220) - f.F)
            E.assume(fits(E, v, f))
            vs.append(v)
    else:
        vs = [value(E, "x%d" % i, f) for i in range(n)]
    x = rep(E, vs, f, shape)
    E.warns()
    if case["obj"] == "fn":
        y = E.call(E.pkg.cl_fix_to_real, x, f)
    else:
        o = E.call(E.pkg.WideFix, x, f)
        y = E.call(o.to_real) if case["obj"] == "obj" else E.call(o.to_real, False)
    w = E.warns()
    E.observe("warned", len(w) > 0)
    E.check(E.dtype(y)[1] == "float64", "data type")
    E.check(E.shape(y) == shape, "shape")
    if case["obj"] == "silent":
        E.check(len(w) == 0, "warning switched off")
    ys = E.elems(y)
    E.check(len(ys) == n, "size")
    for i, (a, b) in enumerate(zip(ys, vs)):
        E.observe("y%d" % i, a)
        if case["val"] == "double":
            E.check(a == b, "exact value when the magnitude fits a double")
        elif not w:
            E.check(a == b, "a value that is not exact is reported by a warning")
