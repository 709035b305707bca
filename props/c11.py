"""C11 Narrow and wide implementations agree wherever both apply"""
from .spec import *
from . import ops

FUNCTIONS = ["NarrowFix.round/saturate/resize/abs/neg/add/sub/addsub/mult/shift/comparisons/min_value/max_value/in_range",
             "the same methods of WideFix", "WideFix.from_narrowfix", "WideFix.to_real", "FixFormat.for_*"]
BOUNDS = {"quick": "symbolic narrow formats (widths 1..53 of operands and of the full-precision result, I and F in [-30,60], "
                   "|aF-bF| <= 30, shifts -30..30), all values, for every operation without result format and for round, "
                   "saturate and resize (modes rotated by seed); with a result format: the narrow triples of props/ops.py",
          "thorough": "all modes; |aF-bF| <= 52, shifts -60..60"}
OUTSIDE = "arrays of more than one element (C18)"
NARROW2 = [[(1, 3, 5), (1, 2, 4), (1, 2, 3)], [(0, 4, 4), (1, 2, 2), (0, 3, 2)], [(1, 20, 20), (0, 10, 22), (1, 15, 10)],
           [(1, 26, 25), (1, 26, 24), (1, 26, 20)], [(0, 0, 20), (0, 0, 20), (0, 1, 12)], [(1, -3, 20), (1, 0, 10), (1, -2, 12)],
           [(0, 12, -4), (1, 8, 0), (1, 6, -2)], [(0, 1, 0), (1, 0, 0), (1, 4, 4)], [(1, 24, 0), (1, 0, 24), (0, 30, 4)]]
CMP = ["==", "!=", "<", "<=", ">", ">="]


def cases(tier, seed):
    r = []
    D = 30 if tier == "quick" else 52
    al = [(n, s) for n in RNDS for s in ("None_s", "Sat_s")]
    for i, n in enumerate(RNDS):
        r.append(dict(op="round", rnd=n, D=D))
    for s in ("None_s", "Sat_s"):
        r.append(dict(op="saturate", sat=s, D=D))
    for n, s in ([al[(seed * 3 + 1) % 10], al[(seed * 3 + 4) % 10]] if tier == "quick" else al):
        r.append(dict(op="resize", rnd=n, sat=s, D=D))
    for o in ("neg", "abs", "shift", "extremes"):
        r.append(dict(op=o, D=D))
    for o in ("add", "sub", "mult", "addsub", "cmp"):
        for S in ([0, 0], [0, 1], [1, 0], [1, 1]):
            r.append(dict(op=o, S=S, D=D, lo=0 if o == "addsub" and tier == "quick" else -30))
    for i, c in enumerate(NARROW2):
        modes = [al[(i * 3 + seed + j * 5) % 14] for j in range(3)] if tier == "quick" else al
        r.append(dict(op="cfg", cfg=c, modes=modes))
    return r


def pair(E, q, f):
    return (E.call(E.pkg.NarrowFix, E.arr([q], (1,), "float64"), f),
            E.call(E.pkg.WideFix, E.arr([q * E.pow2(f.F)], (1,), "object"), f))


def same(E, y, z, what):
    E.check(y.fmt == z.fmt, what + ": same format")
    v, w = E.elems(y.data), E.elems(z.data)
    E.check(len(v) == len(w), what + ": same size")
    E.observe(what, v[0])
    E.check(v[0] == w[0] * E.pow2(-z.fmt.F), what + ": same value")


def run(E, case):
    op, D = case["op"], case.get("D")
    lo = case.get("lo", -30)
    if op == "cfg":
        fs = [mk(E, *f) for f in case["cfg"]]
        rf = fs.pop()
        rnd, sat = E.choice("mode", case["modes"])
        o = E.choice("op", ["add", "sub", "mult", "addsub", "neg", "abs", "shift", "resize"])
        one = o in ("neg", "abs", "shift", "resize")
        if one:
            fs = fs[:1]
        ps = [pair(E, value(E, n, f), f) for n, f in zip("xy", fs)]
        if not one:
            E.assume(width(E.call(getattr(E.pkg.FixFormat, "for_" + o), *fs)) <= 53)
        m = (rf, rnd_of(E, rnd), sat_of(E, sat))
        ex = ()
        if o == "shift":
            ex = (E.choice("sh", [-7, 0, 3]),)
        if o == "addsub":
            ex = (E.choice("sel", [True, False]),)
        y, z = [E.call(getattr(ps[0][i], o), *[p[i] for p in ps[1:]], *ex, *m) for i in (0, 1)]
        same(E, y, z, o)
        return
    S = case.get("S", [None, None])
    a = fmt(E, "a", I=(lo, 60), F=(lo, 60), w=(1, 53), S=S[0])
    if op == "extremes":
        for g in ("max_value", "min_value"):
            y, z = E.call(getattr(E.pkg.NarrowFix, g), a), E.call(getattr(E.pkg.WideFix, g), a)
            same(E, y, z, g)
        return
    x = value(E, "x", a)
    n, w = pair(E, x, a)
    if op == "round":
        rF = E.int("rF", -80, 80)
        E.assume(a.F - rF <= 70)
        E.assume(rF - a.F <= D)
        r = E.call(E.pkg.FixFormat.for_round, a, rF, rnd_of(E, case["rnd"]))
        E.assume(width(r) <= 53)
        same(E, E.call(n.round, r, rnd_of(E, case["rnd"])), E.call(w.round, r, rnd_of(E, case["rnd"])), "round")
    elif op in ("saturate", "resize"):
        r = fmt(E, "r", I=(-30, 60), F=(-30, 60), w=(1, 53))
        E.assume(a.I - r.I <= D)
        E.assume(r.I - a.I <= D)
        if op == "saturate":
            E.assume(N_eq(E, r.F, a.F))
            m = (r, sat_of(E, case["sat"]))
        else:
            E.assume(a.F - r.F <= D)
            E.assume(r.F - a.F <= D)
            # the rounded value has the representation the narrow class supports
            rf = E.call(E.pkg.FixFormat.for_round, a, r.F, rnd_of(E, case["rnd"]))
            E.assume(width(rf) <= 53)
            m = (r, rnd_of(E, case["rnd"]), sat_of(E, case["sat"]))
        same(E, E.call(getattr(n, op), *m), E.call(getattr(w, op), *m), op)
    elif op in ("neg", "abs", "shift"):
        ex = (E.int("sh", -D, D),) if op == "shift" else ()
        mid = E.call(getattr(E.pkg.FixFormat, "for_" + op), a, *ex)
        E.assume(width(mid) <= 53)
        same(E, E.call(getattr(n, op), *ex), E.call(getattr(w, op), *ex), op)
    else:
        b = fmt(E, "b", I=(lo, 60), F=(lo, 60), w=(1, 53), S=S[1])
        E.assume(a.F - b.F <= D)
        E.assume(b.F - a.F <= D)
        y = value(E, "y", b)
        n2, w2 = pair(E, y, b)
        if op == "cmp":
            o = E.choice("cmp", CMP)
            f = {"==": lambda p, q: p == q, "!=": lambda p, q: p != q, "<": lambda p, q: p < q,
                 "<=": lambda p, q: p <= q, ">": lambda p, q: p > q, ">=": lambda p, q: p >= q}[o]
            u, v = E.bools(E.call(lambda: f(n, n2))), E.bools(E.call(lambda: f(w, w2)))
            E.check(len(u) == len(v), "comparison: same size")
            E.check(E.iff(u[0], v[0]), "comparison " + o)
            return
        mid = E.call(getattr(E.pkg.FixFormat, "for_" + op), a, b)
        E.assume(width(mid) <= 53)
        ex = (E.choice("sel", [True, False]),) if op == "addsub" else ()
        same(E, E.call(getattr(n, op), n2, *ex), E.call(getattr(w, op), w2, *ex), op)


def N_eq(E, x, y):
    return E.and_(x <= y, x >= y)
