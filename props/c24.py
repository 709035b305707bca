"""C24 VHDL arithmetic is bit-true: exact result, then one resize"""
from .vfix import *

NEEDS = "vhdl"
FUNCTIONS = ["cl_fix_add", "cl_fix_sub", "cl_fix_addsub", "cl_fix_mult", "cl_fix_neg", "cl_fix_abs", "cl_fix_shift", "cl_fix_resize",
             "cl_fix_round", "cl_fix_saturate", "cl_fix_*_fmt", "convert", "resize_sensible", "to01"]
BOUNDS = {"quick": "operand formats: S in {0,1}, widths 1..4 and 30..66, binary points inside and outside the bits; result: full "
                   "precision, and formats narrower/equal/wider than it in integer and fractional bits; all mode pairs spread over "
                   "the formats; shifts -40..40; all bit patterns (multiplication of symbolic operands up to 24x30 bits; up to 64x65 bits with 2 symbolic bits at three places of the second factor)",
          "thorough": "widths 1..6, 17..18, 31..33, 63..66 on both sides; more result formats and mode pairs"}
OUTSIDE = "formats of width 0; metavalues in the data"
OPTS = {"quick": dict(timeout=60), "thorough": dict(timeout=120)}
BIN = ["add", "sub", "addsub"]


def cases(tier, seed):
    q = tier == "quick"
    ws = (1, 2, 3, 4, 30, 64) if q else (1, 2, 3, 4, 5, 6, 18, 32, 33, 64, 66)
    al = [a for w in ws for a in afmts([w], sorted({-2, w // 2, w + 1}))]
    wm = (1, 2, 3, 5, 24) if q else (1, 2, 3, 4, 5, 6, 17, 18, 24, 32, 33)
    am = [a for w in wm for a in afmts([w], sorted({-2, w // 2, w + 1}))]
    return [dict(op=op, a=list(a), tier=tier, seed=seed) for op in BIN for a in al] + \
           [dict(op="mult", a=list(a), tier=tier, seed=seed) for a in am] + \
           [dict(op="mult", wide=1, a=list(a), tier=tier, seed=seed) for w in ((33, 64) if q else (33, 40, 64, 65, 100))
            for a in afmts([w], [w // 2])] + \
           [dict(op=op, a=list(a), tier=tier, seed=seed) for op in ("neg", "abs", "shift") for a in al]


def wide(E, name, f, quick):
    """a wide factor of which only a few bits are arbitrary"""
    n = W(f)
    k = 2 if quick else 4
    lo, fill = E.choice("window", [(0, (1 << n) - 1), (n - k, 0), (n // 2, int("01" * n, 2) & ((1 << n) - 1))])
    v = E.window(name, n, E.ALL["slv"], lo, k, fill)
    return v, E.value(v, f)


def run(E, case):
    a, op, tier = Fmt(*case["a"]), case["op"], case["tier"]
    quick = tier == "quick"
    if op in BIN or op == "mult":
        if "wide" in case:
            ws = (36, 65) if quick else (32, 36, 50, 65, 90)
        elif op == "mult":
            ws = (1, 2, 3, 30) if quick else (1, 2, 3, 4, 18, 30)
        else:
            ws = (1, 2, 4, 33) if quick else (1, 2, 3, 4, 33, 65)
        b = E.choice("b", [b for w in ws for b in afmts([w], [w // 3] if "wide" in case else sorted({-3, w // 2, w + 1} | ({a.F} if not quick or w < 4 else set())))])
    else:
        b = None
    h = a.S + 2 * a.I + 3 * a.F + (b.S + 5 * b.I + 7 * b.F if b else 0) + case["seed"]
    v, q = vector(E, "a", a, SHAPES[h % 4])
    args = [v, E.fmt(a)]
    sh = 0
    if b:
        u, p = vector(E, "b", b, SHAPES[(h // 4) % 4]) if "wide" not in case else wide(E, "b", b, quick)
        args += [u, E.fmt(b)]
    if op == "add":
        x, F = q + p, max(a.F, b.F)
    elif op == "sub":
        x, F = q - p, max(a.F, b.F)
    elif op == "addsub":
        s = E.choice("add", [0, 1])
        args.append(E.bit(s))
        x, F = q + p if s else q - p, max(a.F, b.F)
    elif op == "mult":
        x, F = q * p, a.F + b.F
    elif op == "neg":
        x, F = -q, a.F
    elif op == "abs":
        x, F = E.ite(q < 0, -q, q), a.F
    else:
        sh = E.choice("shift", [-40, -W(a), -1, 0, 1, 2, W(a) + 1, 40])
        args.append(sh)
        x, F = q.shl(sh), a.F - sh
    # result formats: full precision (default), and around it
    if b:
        I = a.I + b.I if op == "mult" else max(a.I, b.I)
    else:
        I = a.I + sh
    n = (4 if b else 12) if quick else 16
    k = E.choice("r", range(0 if op != "shift" else 1, n))
    if k and b and quick:
        k = 1 + (h + 2 * k) % 6
    if k == 0:
        y = E.call("cl_fix_" + op, *args, ret="slv")
        E.observe("y", y)
        fm = E.call(f"cl_fix_{op}_fmt", *([E.fmt(a)] + ([E.fmt(b)] if b else [])), ret="fmt")
        r = Fmt(*[int(z) for z in fm.f.values()])
        check_bits(E, y, x, r, "full-precision " + op)
        return
    if op in ("neg", "abs") or op == "shift":
        I += 1
    g = h + 11 * k
    rS = g % 2
    rF = F - [-2, 0, 1, 2, I + F, I + F - 1, 3][k % 7]
    rI = I - [2, 1, 0, -1, -2][(g // 2) % 5]
    if rI + rF < 0:
        rI = -rF
    if rS + rI + rF < 1:
        rI = 1 - rF - rS
    r = Fmt(rS, rI, rF)
    m = (g * 5 + k) % 28
    rnd, sat = RNDS[m % 7], SATS[m // 7]
    y = E.call("cl_fix_" + op, *args, E.fmt(r), E.rnd(rnd), E.sat(sat), ret="slv")
    warn = E.warned()
    E.observe("y", y)
    E.observe("warned", warn)
    if op == "shift":
        # the shift loses nothing; the rounding is that of the shifted value
        e = spec_resize(E, x, F, r, rnd, sat)
    else:
        e = spec_resize(E, x, F, r, rnd, sat)
    check_bits(E, y, e, r, f"{op} result")
    z = spec_round(E, x, F, r.F, rnd)
    if sat in ("Warn_s", "SatWarn_s"):
        E.check(E.iff(warn, E.not_(fits(E, z, r))), "warning raised exactly when out of range")
    else:
        E.check(E.not_(warn), "no warning in the silent modes")
