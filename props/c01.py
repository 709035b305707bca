"""C01 Full-precision result formats hold every possible result"""
from .spec import *

OPS = ["add", "sub", "addsub", "mult", "neg", "abs", "shift", "shiftv", "round"]
FUNCTIONS = ["FixFormat.for_" + o for o in ("add", "sub", "addsub", "mult", "neg", "abs", "shift", "round", "union")] + \
            ["FixFormat.__init__", "FixFormat.width", "cl_fix_*_fmt aliases"]
BOUNDS = {"quick": "operand widths 1..64 (mult 1..40), I and F in [-80,80], shifts in [-40,40], all operand values",
          "thorough": "operand widths 1..160 (mult 1..64), I and F in [-200,200], shifts in [-100,100]"}
OUTSIDE = "formats wider than the bound; empty (zero-width) operand formats"


def cases(tier, seed):
    r = []
    for o in OPS:
        if o == "round":
            r += [dict(op=o, rnd=m, tier=tier) for m in RNDS]
        else:
            r.append(dict(op=o, tier=tier))
    return r


def alias(E, op):
    return getattr(E.pkg, "cl_fix_%s_fmt" % op)


def run(E, case):
    op = case["op"]
    W, L, SH = (64, 80, 40) if case["tier"] == "quick" else (160, 200, 100)
    if op == "mult":
        W = 40 if case["tier"] == "quick" else 64
    a = fmt(E, "a", I=(-L, L), F=(-L, L), w=(1, W))
    x = value(E, "x", a)
    if op in ("add", "sub", "addsub", "mult"):
        b = fmt(E, "b", I=(-L, L), F=(-L, L), w=(1, W))
        if op != "mult":
            # binary points not further apart than the bound
            E.assume(a.F - b.F <= L)
            E.assume(b.F - a.F <= L)
        y = value(E, "y", b)
        r = E.call(alias(E, op), a, b)
        if op == "add":
            vs = [x + y]
        elif op == "sub":
            vs = [x - y]
        elif op == "addsub":
            vs = [x + y, x - y]
        else:
            vs = [x * y]
    elif op == "neg":
        r = E.call(alias(E, op), a)
        vs = [-x]
    elif op == "abs":
        r = E.call(alias(E, op), a)
        vs = [E.ite(x < 0, -x, x)]
    elif op == "shift":
        n = E.int("n", -SH, SH)
        r = E.call(alias(E, op), a, n)
        vs = [x * E.pow2(n)]
    elif op == "shiftv":
        n = E.int("n", -SH, SH)
        m = E.int("m", -SH, SH)
        k = E.int("k", -SH, SH)
        E.assume(n <= k)
        E.assume(k <= m)
        r = E.call(alias(E, "shift"), a, n, m)
        vs = [x * E.pow2(k)]
    else:
        rF = E.int("rF", -L, L)
        E.assume(a.F - rF <= W + 8)
        E.assume(rF - a.F <= 40)
        r = E.call(alias(E, "round"), a, rF, rnd_of(E, case["rnd"]))
        E.check(r.F == rF, "fractional bits of the rounding format")
        vs = [spec_round(E, x, a.F, rF, case["rnd"])]
    for f in ("S", "I", "F"):
        E.observe(f, getattr(r, f))
    E.check(E.or_(r.S == 0, r.S == 1), "S is 0 or 1")
    E.check(r.S + r.I + r.F == r.width, "width")
    for v in vs:
        E.check(v <= vmax(E, r), "result not above the maximum of the result format")
        E.check(v >= vmin(E, r), "result not below the minimum of the result format")
        E.check(E.is_int(v * E.pow2(r.F)), "result is a multiple of the LSB of the result format")
