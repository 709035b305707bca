"""C22 VHDL rounding is bit-true to the documented rule"""
from .vfix import *

NEEDS = "vhdl"
FUNCTIONS = ["cl_fix_round", "convert", "get_half", "get_unit_bit", "resize_sensible", "cl_fix_sign", "cl_fix_round_fmt"]
BOUNDS = {"quick": "formats: S in {0,1}, widths 1..5, 8, 33, 70, binary point inside and 3 outside the bits; change of fractional "
                   "bits -2..+2 and width-2..width+3; all 7 modes; all bit patterns; 4 index ranges",
          "thorough": "widths 1..12, 24, 31..33, 63..65, 128, more binary points and bit drops"}
OUTSIDE = "formats of width 0; with the format check off: result formats that keep no bit of the operand; metavalues in the data"


def cases(tier, seed):
    ws = [1, 2, 3, 4, 5, 8, 33, 70] if tier == "quick" else list(range(1, 13)) + [24, 31, 32, 33, 63, 64, 65, 128]
    fs = {w: sorted({-3, 0, w // 2, w + 2}) if tier == "quick" else sorted({-7, -1, 0, 1, w // 2, w - 1, w, w + 5}) for w in ws}
    return [dict(a=list(a), check=c, tier=tier) for w in ws for a in afmts([w], fs[w]) for c in (True, False)]


def run(E, case):
    a = Fmt(*case["a"])
    w = W(a)
    ds = drops(w) if case["tier"] == "quick" else sorted(set(range(-4, min(w, 14) + 3)) | set(drops(w)))
    d = E.choice("d", ds)
    rnd = E.choice("rnd", RNDS)
    rF = a.F - d
    r = round_fmt(a, rF, rnd)
    # the vector may have any index range
    v, q = vector(E, "a", a, SHAPES[(d + RNDS.index(rnd)) % 4])
    x = spec_round(E, q, a.F, rF, rnd)
    if case["check"]:
        y = E.call("cl_fix_round", v, E.fmt(a), E.fmt(r), E.rnd(rnd), ret="slv")
        E.observe("y", y)
        check_bits(E, y, x, r, "rounded value")
    else:
        # unchecked result formats: right whenever the rounded value fits
        r = E.choice("r", [f for f in rfmts(a, rF) if f.S + f.I + a.F >= 0])
        y = E.call("cl_fix_round", v, E.fmt(a), E.fmt(r), E.rnd(rnd), False, ret="slv")
        E.observe("y", y)
        E.check(y.n == W(r), "width of the result")
        E.check(E.or_(E.not_(fits(E, x, r)), E.bits_eq(y, x * E.pow2(r.F))), "rounded value (unchecked format)")
