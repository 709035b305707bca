"""C25 VHDL comparison, sign and range tests follow the real values"""
from .vfix import *

NEEDS = "vhdl"
FUNCTIONS = ["cl_fix_compare", "cl_fix_in_range", "cl_fix_sign", "union", "convert", "to01", "cl_fix_round"]
BOUNDS = {"quick": "format pairs: S in {0,1}, widths 1..4, 20, 64, binary points inside/outside the bits (relative shifts up to "
                   "40); all operators; all bit patterns; in_range: result formats around the operand, all rounding modes",
          "thorough": "widths 1..7, 20, 32, 64, 100 on both sides"}
OUTSIDE = "formats of width 0; metavalues in the data"
CMP = ["=", "!=", "<", ">", "<=", ">="]


def cases(tier, seed):
    ws = (1, 2, 3, 4, 20, 64) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 20, 32, 64, 100)
    al = [a for w in ws for a in afmts([w], sorted({-2, w // 2, w + 1}))]
    return [dict(kind="compare", a=list(a), tier=tier) for a in al] + [dict(kind="range", a=list(a), tier=tier) for a in al] + \
        [dict(kind="sign", a=list(a), tier=tier) for a in al]


def run(E, case):
    a = Fmt(*case["a"])
    tier = case["tier"]
    if case["kind"] == "sign":
        v, q = vector(E, "a", a, E.choice("shape", SHAPES))
        y = E.call("cl_fix_sign", v, E.fmt(a), ret="enum:std_ulogic")
        E.observe("y", y)
        E.check(E.iff(E.is1(y), q < 0), "sign of the value")
        return
    if case["kind"] == "compare":
        ws = (1, 2, 3, 40) if tier == "quick" else (1, 2, 3, 4, 5, 40, 64)
        b = E.choice("b", [b for w in ws for b in afmts([w], sorted({-3, 0, w // 2, w + 1} | {a.F}))])
        op = E.choice("op", CMP)
        v, q = vector(E, "a", a, SHAPES[(b.I + CMP.index(op)) % 4])
        u, p = vector(E, "b", b, SHAPES[(b.F + CMP.index(op)) % 4])
        y = E.call("cl_fix_compare", E.str(op), v, E.fmt(a), u, E.fmt(b), ret="bool")
        E.observe("y", y)
        e = {"=": q == p, "!=": q != p, "<": q < p, ">": q > p, "<=": q <= p, ">=": q >= p}[op]
        E.check(E.iff(y, e), "ordering of the real values")
        return
    d = E.choice("d", sorted({-1, 0, 1, W(a) - 1, W(a), W(a) + 2}))
    rF = a.F - d
    r = E.choice("r", rfmts(a, rF))
    rnd = E.choice("rnd", RNDS) if tier != "quick" or W(a) <= 3 else RNDS[(E.choice("rnd", range(2)) * 3 + d + r.I) % 7]
    v, q = vector(E, "a", a)
    y = E.call("cl_fix_in_range", v, E.fmt(a), E.fmt(r), E.rnd(rnd), ret="bool")
    E.observe("y", y)
    E.check(E.iff(y, fits(E, spec_round(E, q, a.F, rF, rnd), r)), "range test")
