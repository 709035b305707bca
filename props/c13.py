"""C13 Comparison operators order values by their real value"""
from .spec import *

FUNCTIONS = ["NarrowFix.__eq__/__ne__/__lt__/__le__/__gt__/__ge__", "the same operators of WideFix", "WideFix.align_binary_points",
             "WideFix.resize/round/saturate"]
BOUNDS = {"quick": "symbolic formats: widths 1..72 (narrow: 1..53), I and F in [-40,80], |aF-bF| <= 40, |aI-bI| <= 60, one-element and "
                   "two-element operands (two values each), all values",
          "thorough": "widths 1..100, |aF-bF| <= 90"}
OPS = {"==": lambda p, q: p == q, "!=": lambda p, q: p != q, "<": lambda p, q: p < q,
       "<=": lambda p, q: p <= q, ">": lambda p, q: p > q, ">=": lambda p, q: p >= q}


def cases(tier, seed):
    r = []
    for o in ("narrow", "wide"):
        for n in (1, 2):
            for op in OPS:
                r.append(dict(obj=o, n=n, op=op, tier=tier))
    return r


def run(E, case):
    W, D, I = (72, 40, 60) if case["tier"] == "quick" else (100, 90, 90)
    n = case["n"]
    if case["obj"] == "narrow":
        W = 53
    fs, os_, vs = [], [], []
    for nm in "ab":
        f = fmt(E, nm, I=(-40, 80), F=(-40, 80), w=(1, W))
        q = [value(E, nm + "v%d" % i, f) for i in range(n)]
        if case["obj"] == "narrow":
            o = E.call(E.pkg.NarrowFix, E.arr(q, (n,), "float64"), f)
        else:
            o = E.call(E.pkg.WideFix, E.arr([x * E.pow2(f.F) for x in q], (n,), "object"), f)
        fs.append(f)
        os_.append(o)
        vs.append(q)
    E.assume(fs[0].F - fs[1].F <= D)
    E.assume(fs[1].F - fs[0].F <= D)
    E.assume(fs[0].I - fs[1].I <= I)
    E.assume(fs[1].I - fs[0].I <= I)
    op = OPS[case["op"]]
    y = E.call(lambda: op(os_[0], os_[1]))
    b = E.bools(y)
    E.check(len(b) == n, "one result per element")
    for i in range(n):
        x, z = vs[0][i], vs[1][i]
        want = E.not_(x == z) if case["op"] == "!=" else op(x, z)
        E.check(E.iff(b[i], want), "ordering of the real values")
    for o, f, q in zip(os_, fs, vs):
        E.check(o.fmt == f, "operand format unchanged")
        d = E.elems(o.data)
        E.check(len(d) == n, "operand size unchanged")
        for x, v in zip(d, q):
            E.check(x == (v if case["obj"] == "narrow" else v * E.pow2(f.F)), "operand data unchanged")
