"""C27 VHDL real conversions are exact, round half up and saturate"""
from .vfix import *
from vhdl.types import R

NEEDS = "vhdl"
FUNCTIONS = ["cl_fix_from_real", "cl_fix_to_real", "max_real", "min_real", "cl_fix_max_value", "cl_fix_min_value"]
BOUNDS = {"quick": "formats: S in {0,1}, widths 1..4, 8, 29..31, 52..54, 61, 75, binary point inside and outside the bits; reals m*2^e "
                   "with any signed 53-bit m, e on a grid from 56 bits below the format's LSB to above its range; to_real: all bit "
                   "patterns up to 53 bits, and any 53 significant bits at several places of wider formats",
          "thorough": "widths 1..12, 28..32, 50..56, 59..62, 75, 90, 100, denser e grid"}
OUTSIDE = "infinities, NaN, subnormal numbers, exponents near the limits of type real; formats of width 0; reals that need a rounding " \
          "in cl_fix_to_real (more than 53 significant bits)"


def cases(tier, seed):
    if tier == "quick":
        ws = [1, 2, 3, 4, 8, 29, 30, 31, 52, 53, 54, 61, 75]
    else:
        ws = list(range(1, 13)) + [28, 29, 30, 31, 32, 50, 51, 52, 53, 54, 55, 56, 59, 60, 61, 62, 75, 90, 100]
    al = [a for w in ws for a in afmts([w], sorted({-3, w // 2, w + 2} if tier == "quick" else {-40, -3, 0, 1, w // 2, w, w + 2, w + 30}))]
    return [dict(kind=k, a=list(a), tier=tier) for a in al for k in ("from", "to")]


def run(E, case):
    f = Fmt(*case["a"])
    w = W(f)
    if case["kind"] == "to":
        if w <= 53:
            v, q = vector(E, "a", f, E.choice("shape", SHAPES))
        else:
            s = E.choice("place", sorted({0, 1, w - 54, w - 53, (w - 53) // 2, w - 30} | ({w - 3, 29, 30, 31} if case["tier"] != "quick" else set())))
            m = E.int("m", *((-2 ** min(53, w - 1 - s) + 1, 2 ** min(53, w - 1 - s) - 1) if f.S else (0, 2 ** min(53, w - s) - 1)))
            v = E.slv(m.shl(s), w)
            q = m.shl(s - f.F)
        x = E.call("cl_fix_to_real", v, E.fmt(f), ret="real")
        E.observe("x", x)
        E.check(E.real(x) == q, "exact real value")
        # x equals q (just decided): convert q back
        y = E.call("cl_fix_from_real", R(q), E.fmt(f), E.sat(E.choice("sat", ["Sat_s", "SatWarn_s"])), ret="slv")
        E.observe("y", y)
        check_bits(E, y, q, f, "round trip through real")
        return
    es = {-f.F - 56, -f.F - 54, -f.F - 53, -f.F - 52, -f.F - 30, -f.F - 2, -f.F - 1, -f.F, -f.F + 5, f.I - 54, f.I - 53, f.I - 52, f.I - 1, f.I + 3}
    if case["tier"] != "quick":
        es |= set(range(-f.F - 57, f.I + 3, 3)) | {f.I - 55, f.I - 51}
    e = E.choice("e", sorted(es))
    m = E.int("m", -2 ** 53 + 1, 2 ** 53 - 1)
    a = m.shl(e)
    y = E.call("cl_fix_from_real", R(a), E.fmt(f), E.sat(["Sat_s", "SatWarn_s"][e % 2]), ret="slv")
    E.observe("y", y)
    x = E.floor(a * E.pow2(f.F) + HALF) * E.pow2(-f.F)
    check_bits(E, y, spec_sat(E, x, f, "Sat_s"), f, "rounded half up and saturated")
