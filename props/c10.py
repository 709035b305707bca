"""C10 Python shifts are lossless before the final resize, also per-element shifts"""
from .spec import *
from . import ops

FUNCTIONS = ["cl_fix_shift", "FixFormat.for_shift", "NarrowFix.shift/__lshift__", "WideFix.shift/__lshift__",
             "cl_fix_resize and everything below it"]
BOUNDS = {"quick": "full precision: symbolic formats of widths 1..60, symbolic shift -40..40; arrays of two symbolic shifts "
                   "-12..12 with symbolic formats of widths 1..58; with a result format: the 20 pairs of props/ops.py with "
                   "4 mode pairs each (rotated by seed), shifts -70, -9, -1, 0, 1, 5, 66 and arrays of them; all values",
          "thorough": "widths 1..72, symbolic shifts -80..80, all 28 mode pairs"}
SH = [-70, -9, -1, 0, 1, 5, 66]
ARRS = [[-9, 5], [1, 1], [66, -70], [0, -1]]


def cases(tier, seed):
    r = []
    al = [(n, s) for n in RNDS for s in ("None_s", "Sat_s")]
    W, D, V = (60, 40, 12) if tier == "quick" else (72, 80, 30)
    for S in (0, 1):
        r.append(dict(kind="full", S=S, W=W, D=D))
        r.append(dict(kind="vec", S=S, W=W - 2, D=V))
        for o in ("narrow", "wide"):
            r.append(dict(kind="obj", obj=o, S=S, W=W, D=D))
            r.append(dict(kind="objvec", obj=o, S=S, W=W - 2, D=V))
    for i, c in enumerate(ops.UNARY):
        modes = None if tier == "thorough" else [al[(i * 3 + seed + j * 5) % 14] for j in range(4)]
        r.append(dict(kind="cfg", cfg=c, modes=modes))
        r.append(dict(kind="cfgvec", cfg=c, modes=modes))
    r.append(dict(kind="default"))
    r.append(dict(kind="shape2"))
    return r


def run(E, case):
    k = case["kind"]
    rnd, sat, r = "Trunc_s", "None_s", None
    vec = k in ("vec", "objvec", "cfgvec", "shape2")
    if k in ("full", "vec", "obj", "objvec"):
        a = fmt(E, "a", I=(-30, 70), F=(-30, 70), w=(1, min(case["W"], 53) if case.get("obj") == "narrow" else case["W"]), S=case["S"])
        D = case["D"]
        sh = [E.int("s%d" % i, -D, D) for i in range(2 if vec else 1)]
    else:
        cfg = case["cfg"] if k in ("cfg", "cfgvec") else E.choice("cfg", ops.UNARY)
        a, r = mk(E, *cfg[0]), mk(E, *cfg[1])
        sh = E.choice("sh", ARRS) if vec else [E.choice("sh", SH)]
        if k in ("cfg", "cfgvec"):
            rnd, sat = E.choice("mode", case["modes"] or [(n, s) for n in RNDS for s in SATS])
    n = 2 if vec else 1
    if k == "shape2":
        n = 4
        sh = [sh[0], sh[1], sh[1], sh[0] + 1]
    qs = [value(E, "x%d" % i, a) for i in range(n)]
    shape = (2, 2) if k == "shape2" else (n,)
    sarg = E.arr(list(sh), shape, "int64") if vec else sh[0]
    smin = sh[0]
    smax = sh[0]
    for s in sh[1:]:
        if E.dec(s < smin):
            smin = s
        if E.dec(s > smax):
            smax = s
    mid = E.call(E.pkg.FixFormat.for_shift, a, smin, smax) if vec else E.call(E.pkg.FixFormat.for_shift, a, smin)
    if k in ("obj", "objvec"):
        if case["obj"] == "wide":
            o = E.call(E.pkg.WideFix, E.arr([q * E.pow2(a.F) for q in qs], shape, "object"), a)
        else:
            E.assume(width(mid) <= 53)
            o = E.call(E.pkg.NarrowFix, E.arr(qs, shape, "float64"), a)
        if E.choice("how", ["method", "operator"]) == "method":
            y = E.call(o.shift, sarg)
        else:
            y = E.call(lambda: o << sarg)
        E.check(y.fmt == mid, "format of the result object")
        v = E.elems(y.data)
        if case["obj"] == "wide":
            v = [e * E.pow2(-mid.F) for e in v]
    else:
        x = rep(E, qs, a, shape)
        if r is None:
            y = E.call(E.pkg.cl_fix_shift, x, a, sarg, None)
        elif k == "cfg" or k == "cfgvec":
            y = E.call(E.pkg.cl_fix_shift, x, a, sarg, r, rnd_of(E, rnd), sat_of(E, sat))
        else:
            y = E.call(E.pkg.cl_fix_shift, x, a, sarg, r)
        v = unrep(E, y, mid if r is None else r)
        E.check(E.shape(y) == shape, "shape")
    E.check(len(v) == n, "size")
    for i in range(n):
        E.observe("y%d" % i, v[i])
        s = sh[i] if vec else sh[0]
        ex = qs[i] * E.pow2(s)
        if r is None:
            E.check(v[i] == ex, "exact shift")
        else:
            E.check(v[i] == spec_resize(E, ex, mid.F, r, rnd, sat), "exact shift resized once")
