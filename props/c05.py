"""C05 Saturation warnings are issued exactly when a value is out of range"""
from .spec import *
from . import ops

FUNCTIONS = ["cl_fix_saturate", "cl_fix_resize", "NarrowFix.saturate", "WideFix.saturate", "WideFix.to_real",
             "cl_fix_add/sub/mult/neg/abs/shift (through resize)"]
BOUNDS = {"quick": "saturate: symbolic formats (widths 1..66), two arbitrary elements; resize and arithmetic: the format "
                   "triples of props/ops.py, all modes, two arbitrary elements",
          "thorough": "saturate: widths 1..110; resize and arithmetic: all triples of props/ops.py"}


def cases(tier, seed):
    r = [dict(kind="saturate", sat=s, tier=tier) for s in SATS]
    for i, c in enumerate(ops.unary_cfgs(tier)):
        r.append(dict(kind="resize", cfg=c, rnd=RNDS[(i + seed) % 7] if tier == "quick" else None))
    for i, c in enumerate(ops.binary_cfgs(tier)):
        r.append(dict(kind="op", op=ops.BIN[(i + seed) % len(ops.BIN)], cfg=c))
    return r


def verdict(E, outs, sat, w):
    out = E.or_(*outs)
    if sat in ("Warn_s", "SatWarn_s"):
        E.check(E.iff(out, E.true() if w else E.not_(E.true())), "warning issued exactly when out of range")
    else:
        E.check(E.true() if not w else E.not_(E.true()), "no warning in the silent modes")


def run(E, case):
    k = case["kind"]
    if k == "saturate":
        W, L = (66, 80) if case["tier"] == "quick" else (110, 120)
        sat = case["sat"]
        a = fmt(E, "a", I=(-L, L), F=(-L, L), w=(1, W))
        rS = E.int("rS", 0, 1)
        rI = E.int("rI", -L, L)
        E.assume(rI + a.F >= 0)
        E.assume(rS + rI + a.F >= 1)
        E.assume(rS + rI + a.F <= W)
        r = mk(E, rS, rI, a.F)
        qs = [value(E, "x", a), value(E, "y", a)]
        E.warns()
        E.call(E.pkg.cl_fix_saturate, rep(E, qs, a), a, r, sat_of(E, sat))
        w = E.warns()
        E.observe("warned", len(w) > 0)
        verdict(E, [E.not_(fits(E, q, r)) for q in qs], sat, w)
        return
    if k == "resize":
        a, r = [mk(E, *f) for f in case["cfg"]]
        rnd = case["rnd"] or E.choice("rnd", RNDS)
        sat = E.choice("sat", SATS)
        qs = [value(E, "x", a), value(E, "y", a)]
        E.warns()
        y = E.call(E.pkg.cl_fix_resize, rep(E, qs, a), a, r, rnd_of(E, rnd), sat_of(E, sat))
        w = E.warns()
        vs = unrep(E, y, r)
        rs = [spec_round(E, q, a.F, r.F, rnd) for q in qs]
    else:
        a, b, r = [mk(E, *f) for f in case["cfg"]]
        rnd = E.choice("rnd", ["Trunc_s", "NonSymPos_s"])
        sat = E.choice("sat", SATS)
        qs = [value(E, "x", a), value(E, "y", b)]
        E.warns()
        y = ops.call(E, case["op"], [(qs[0], a), (qs[1], b)], r, rnd, sat)
        w = E.warns()
        vs = unrep(E, y, r)
        v, F = ops.exact(E, case["op"], [(qs[0], a), (qs[1], b)])
        rs = [spec_round(E, v, F, r.F, rnd)]
    E.observe("warned", len(w) > 0)
    verdict(E, [E.not_(fits(E, v, r)) for v in rs], sat, w)
    for v, e in zip(vs, rs):
        E.check(v == spec_sat(E, e, r, sat), "warnings do not change the result")
