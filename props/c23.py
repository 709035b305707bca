"""C23 VHDL saturation and resize are bit-true to the documented rule"""
from .vfix import *

NEEDS = "vhdl"
FUNCTIONS = ["cl_fix_saturate", "cl_fix_resize", "cl_fix_in_range", "cl_fix_compare", "cl_fix_round", "convert", "union",
             "cl_fix_min_value", "cl_fix_max_value"]
BOUNDS = {"quick": "operand formats: S in {0,1}, widths 1..4, 6, 33, 66, binary point inside and outside the bits; result formats "
                   "narrower/equal/wider by up to 2 integer bits, both signs, minimal widths; resize with -2..+2 and width-2.. "
                   "width+3 dropped bits; all modes; all bit patterns",
          "thorough": "widths 1..9, 24, 31..33, 63..65, 100; every mode pair at every format pair"}
OUTSIDE = "formats of width 0; metavalues in the data"


def cases(tier, seed):
    if tier == "quick":
        return [dict(kind="saturate", a=list(a), tier=tier) for w in (1, 2, 3, 4, 6, 33, 66) for a in afmts([w], sorted({-3, 0, w // 2, w + 2}))] + \
               [dict(kind="resize", a=list(a), tier=tier, seed=seed) for w in (1, 2, 3, 5, 34, 60) for a in afmts([w], sorted({-2, w // 2, w + 1}))]
    ws = list(range(1, 10)) + [24, 31, 32, 33, 63, 64, 65, 100]
    return [dict(kind="saturate", a=list(a), tier=tier) for w in ws for a in afmts([w], sorted({-5, -1, 0, 1, w // 2, w, w + 3}))] + \
           [dict(kind="resize", a=list(a), tier=tier, seed=seed) for w in ws for a in afmts([w], sorted({-2, 0, w // 2, w, w + 1}))]


def run(E, case):
    a = Fmt(*case["a"])
    if case["kind"] == "saturate":
        r = E.choice("r", rfmts(a, a.F))
        sat = E.choice("sat", SATS)
        v, q = vector(E, "a", a, SHAPES[(r.I + r.S + SATS.index(sat)) % 4])
        y = E.call("cl_fix_saturate", v, E.fmt(a), E.fmt(r), E.sat(sat), ret="slv")
        x = q
    else:
        d = E.choice("d", drops(W(a)) if case["tier"] != "quick" else sorted({-1, 0, 1, W(a) - 1, W(a), W(a) + 2}))
        rF = a.F - d
        r = E.choice("r", rfmts(a, rF))
        if case["tier"] == "quick":
            k = E.choice("modes", range(8))
            h = (k * 4 + r.I * 5 + r.S * 3 + d + case["seed"]) % 28
            rnd, sat = RNDS[h % 7], SATS[h // 7]
        else:
            rnd = E.choice("rnd", RNDS)
            sat = E.choice("sat", SATS)
        v, q = vector(E, "a", a, SHAPES[(r.I + d) % 4])
        y = E.call("cl_fix_resize", v, E.fmt(a), E.fmt(r), E.rnd(rnd), E.sat(sat), ret="slv")
        x = spec_round(E, q, a.F, rF, rnd)
    warn = E.warned()
    E.observe("y", y)
    E.observe("warned", warn)
    check_bits(E, y, spec_sat(E, x, r, sat), r, case["kind"] + " result")
    if sat in ("Warn_s", "SatWarn_s"):
        E.check(E.iff(warn, E.not_(fits(E, x, r))), "warning raised exactly when out of range")
    else:
        E.check(E.not_(warn), "no warning in the silent modes")
