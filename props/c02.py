"""C02 Result formats are minimal"""
from .spec import *

OPS = ["add", "sub", "mult", "neg", "shift"]
FUNCTIONS = ["FixFormat.for_add", "FixFormat.for_sub", "FixFormat.for_mult", "FixFormat.for_neg", "FixFormat.for_shift",
             "FixFormat.for_addsub", "FixFormat.for_abs", "FixFormat.union"]
BOUNDS = {"quick": "operand widths 1..64 (mult 1..40), I and F in [-80,80], shifts in [-40,40]",
          "thorough": "operand widths 1..128 (mult 1..64), I and F in [-160,160], shifts in [-80,80]"}
ASSUMPTIONS = ["the extreme results and an odd-LSB result of each operation are attained at operands among "
               "{minimum, maximum, LSB, minimum+LSB} (interval hull and LSB argument, DESIGN.md)"]


def cases(tier, seed):
    return [dict(op=o, tier=tier) for o in OPS] + [dict(op="union", n=n, tier=tier) for n in (2, 3)]


def corners(E, f):
    lo, hi, l = vmin(E, f), vmax(E, f), E.pow2(-f.F)
    c = [lo, hi]
    if E.dec(width(f) >= 2):
        if E.dec(f.I + f.F >= 1):
            c.append(l)
        c.append(lo + l)
    return c


def run(E, case):
    op = case["op"]
    W, L, SH = (64, 80, 40) if case["tier"] == "quick" else (128, 160, 80)
    if op == "mult":
        W = 40 if case["tier"] == "quick" else 64
    a = fmt(E, "a", I=(-L, L), F=(-L, L), w=(1, W))
    if op == "union":
        fs = [a] + [fmt(E, "f%d" % i, I=(-L, L), F=(-L, L), w=(1, W)) for i in range(1, case["n"])]
        olds = [(f.S, f.I, f.F) for f in fs]
        r = E.call(E.pkg.FixFormat.union, *fs) if case["n"] == 2 and E.choice("how", [0, 1]) else E.call(E.pkg.cl_fix_union_fmt, list(fs))
        for k, n in enumerate(("S", "I", "F")):
            v = getattr(r, n)
            E.observe(n, v)
            for o in olds:
                E.check(v >= o[k], "union field " + n + " covers every input")
            E.check(E.or_(*[v == o[k] for o in olds]), "union field " + n + " is one of the inputs")
            for f, o in zip(fs, olds):
                E.check(getattr(f, n) == o[k], "union does not alter its inputs")
        return
    if op in ("add", "sub", "mult"):
        b = fmt(E, "b", I=(-L, L), F=(-L, L), w=(1, W))
        if op != "mult":
            E.assume(a.F - b.F <= L)
            E.assume(b.F - a.F <= L)
        r = E.call(getattr(E.pkg, "cl_fix_%s_fmt" % op), a, b)
        f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mult": lambda x, y: x * y}[op]
        vs = [f(x, y) for x in corners(E, a) for y in corners(E, b)]
    elif op == "neg":
        E.assume(a.I + a.F >= 1)          # a lone sign bit is outside the property
        r = E.call(E.pkg.cl_fix_neg_fmt, a)
        vs = [-x for x in corners(E, a)]
    else:
        n = E.int("n", -SH, SH)
        r = E.call(E.pkg.cl_fix_shift_fmt, a, n)
        vs = [x * E.pow2(n) for x in corners(E, a)]
    for n in ("S", "I", "F"):
        E.observe(n, getattr(r, n))
    lo = vmin(E, r)
    # one integer bit less
    E.check(E.or_(*[v > E.pow2(r.I - 1) - E.pow2(-r.F) for v in vs],
                  *[v < (-E.pow2(r.I - 1) if E.dec(r.S == 1) else 0) for v in vs],
                  r.I + r.F == 0), "an integer bit less would do")
    # one fractional bit less
    E.check(E.or_(*[E.odd(E.floor(v * E.pow2(r.F))) for v in vs]), "a fractional bit less would do")
    # no sign bit
    if E.dec(r.S == 1):
        E.check(E.or_(*[v < 0 for v in vs]), "the sign bit is not needed")
