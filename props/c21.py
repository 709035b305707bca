"""C21 VHDL and Python compute identical result formats"""
from .vfix import *

NEEDS = "vhdl"
FUNCTIONS = ["cl_fix_width", "cl_fix_add_fmt", "cl_fix_sub_fmt", "cl_fix_addsub_fmt", "cl_fix_mult_fmt", "cl_fix_neg_fmt",
             "cl_fix_abs_fmt", "cl_fix_shift_fmt (both overloads)", "cl_fix_round_fmt", "cl_fix_max_value", "cl_fix_min_value",
             "choose (formats)", "FixFormat.for_* / union / width (Python, the same source executed symbolically next to the VHDL)"]
BOUNDS = {"quick": "result formats: symbolic S, I, F of every operand, I and F in [-1000, 1000], shifts and result fraction bits in "
                   "[-1000, 1000], all rounding modes; minimum and maximum: formats of width 1..70 with five binary points (concrete)",
          "thorough": "I, F, shifts in [-2**20, 2**20]; widths up to 200"}
OUTSIDE = "VHDL integers near the 32-bit limit; null operand formats (Python refuses them)"
RNDS = ["Trunc_s", "NonSymPos_s", "NonSymNeg_s", "SymInf_s", "SymZero_s", "ConvEven_s", "ConvOdd_s"]


def cases(tier, seed):
    r = [dict(op=o, R=1000 if tier == "quick" else 2 ** 20)
         for o in ("width", "add", "sub", "addsub", "mult", "neg", "abs", "shift", "shift1", "round", "choose")]
    ws = list(range(1, 71)) if tier == "quick" else list(range(1, 201))
    return r + [dict(op="ext", ws=ws[i::8]) for i in range(8)]


def fmtin(E, name, R, null=False):
    """the same arbitrary format for both sides"""
    S, I, F = E.int(name + "S", 0, 1), E.int(name + "I", -R, R), E.int(name + "F", -R, R)
    E.assume(I + F >= 0)
    if not null:
        E.assume(S + I + F >= 1)
    p = E.pycall(E.py["FixFormat"], *(E.py.int(x) for x in (S, I, F)))
    return p, E.rec(S, I, F)


def same(E, p, v, label):
    for n, a, b in zip("SIF", (p.S, p.I, p.F), E.fields(v)):
        E.check(E.py.ex(a) == b, f"{label}: {n}")
    E.observe(label, v)


def run(E, case):
    op = case["op"]
    P = E.py["FixFormat"]
    if op == "ext":
        w = E.choice("w", case["ws"])
        s = E.choice("S", [0, 1])
        F = E.choice("F", [0, -5, w + 3, w // 2, w - s])
        f = Fmt(s, w - s - F, F)
        for fn, e in (("cl_fix_max_value", 2 ** (w - s) - 1), ("cl_fix_min_value", -s * 2 ** (w - 1))):
            v = E.call(fn, E.fmt(f), ret="slv")
            x = E.int_of(E.vec("x", w), s)
            E.check(E.int_of(v, s) >= x if "max" in fn else E.int_of(v, s) <= x, fn + ": no value of the format lies beyond")
            E.check((v.left, v.to, v.n) == (w - 1, False, w), fn + ": range")
            E.check(E.int_of(v, s) == E.Q(e), fn + ": value")
            E.observe(fn, v)
        return
    R = case["R"]
    a, av = fmtin(E, "a", R, null=op in ("width", "choose"))
    if op == "width":
        w = E.call("cl_fix_width", av, ret="int")
        E.check(E.py.ex(a.width) == E.Q(w), "width")
        E.observe("w", w)
        return
    if op in ("add", "sub", "addsub", "mult", "choose"):
        b, bv = fmtin(E, "b", R, null=op == "choose")
        if op == "choose":
            c = E.choice("c", [False, True])
            y = E.call("choose", c, av, bv, ret="fmt")
            same(E, a if c else b, y, "choose")
            return
        p = E.pycall(getattr(P, "for_" + op), a, b)
        same(E, p, E.call(f"cl_fix_{op}_fmt", av, bv, ret="fmt"), op)
    elif op in ("neg", "abs"):
        p = E.pycall(getattr(P, "for_" + op), a)
        same(E, p, E.call(f"cl_fix_{op}_fmt", av, ret="fmt"), op)
    elif op == "shift":
        lo, hi = E.int("lo", -R, R), E.int("hi", -R, R)
        E.assume(lo <= hi)
        p = E.pycall(P.for_shift, a, E.py.int(lo), E.py.int(hi))
        same(E, p, E.call("cl_fix_shift_fmt", av, E.vint(lo), E.vint(hi), ret="fmt"), op)
    elif op == "shift1":
        n = E.int("n", -R, R)
        p = E.pycall(P.for_shift, a, E.py.int(n))
        same(E, p, E.call("cl_fix_shift_fmt", av, E.vint(n), ret="fmt"), op)
    else:
        n = E.int("n", -R, R)
        rnd = E.choice("rnd", RNDS)
        p = E.pycall(P.for_round, a, E.py.int(n), getattr(E.py["FixRound"], rnd))
        same(E, p, E.call("cl_fix_round_fmt", av, E.vint(n), E.rnd(rnd), ret="fmt"), op)
