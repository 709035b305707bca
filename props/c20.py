"""C20 Formats, rounding and saturation modes survive the text exchange to VHDL"""
from .vfix import *

NEEDS = "vhdl"
FUNCTIONS = ["to_string (format, rounding, saturation)", "cl_fix_format_from_string", "cl_fix_round_from_string",
             "cl_fix_saturate_from_string", "toLower", "string_find_next_match", "string_parse_int (VHDL)", "FixFormat.__str__",
             "cl_fix_format_to_string", "cl_fix_write_formats", "FixRound, FixSaturate names (Python)"]
BOUNDS = {"quick": "I and F of 1..3 digits with either sign (symbolic digits); up to 2 arbitrary characters before '(' and after ')', "
                   "0..2 spaces around I and F, first string index 1 or 7; every mode with every letter case",
          "thorough": "up to 6 digits, 0..4 spaces, up to 4 surrounding characters"}
OUTSIDE = "numbers with a plus sign or underscores; '(' in the text before the format"
RNDS = ["Trunc_s", "NonSymPos_s", "NonSymNeg_s", "SymInf_s", "SymZero_s", "ConvEven_s", "ConvOdd_s"]
SATS = ["None_s", "Warn_s", "Sat_s", "SatWarn_s"]


def cases(tier, seed):
    q = tier == "quick"
    D = 3 if q else 6
    ds = [(n, m) for n in range(1, D + 1) for m in range(1, D + 1)]
    r = [dict(op="python", d=list(d)) for d in ds]
    r += [dict(op="free", d=list(d), sp=2 if q else 4, ext=2 if q else 4) for d in (ds if q else ds[::4])]
    r += [dict(op="vhdl", R=10 ** D - 1), dict(op="file")]
    r += [dict(op="mode", kind="rnd", name=m) for m in RNDS] + [dict(op="mode", kind="sat", name=m) for m in SATS]
    return r


def number(E, name, n):
    """an integer of n digits with either sign, and its decimal text"""
    neg = E.choice(name + "neg", [False, True])
    x, txt = E.Q(0), [ord("-")] if neg else []
    for i in range(n):
        d = E.int(f"{name}{i}", 0, 9)
        if i == 0 and (n > 1 or neg):
            E.assume(E.not_(d == 0))
        x = x * 10 + d
        txt.append(E.digit(d))
    return (-x if neg else x), txt


def pyfmt(E, name, d):
    S = E.int(name + "S", 0, 1)
    I, ti = number(E, name + "I", d[0])
    F, tf = number(E, name + "F", d[1])
    E.assume(I + F >= 0)
    p = E.pycall(E.py["FixFormat"], E.py.int(S, [E.digit(S)]), E.py.int(I, ti), E.py.int(F, tf))
    return p, (S, I, F)


def parsed(E, chars, want, low=1):
    v = E.str(chars)
    if low != 1:
        v = E.reshape(v, low, True)
    y = E.call("cl_fix_format_from_string", v, ret="fmt")
    for n, a, b in zip("SIF", want, E.fields(y)):
        E.check(E.Q(a) == b, f"parsed {n}")
    E.observe("y", y)


def run(E, case):
    op = case["op"]
    if op == "python":
        p, w = pyfmt(E, "a", case["d"])
        how = E.choice("how", ["str", "cl_fix_format_to_string"])
        s = E.pycall(str if how == "str" else E.py[how], p)
        parsed(E, E.pytext(s), w)
    elif op == "file":
        ps = [pyfmt(E, n, (d, e)) for n, d, e in (("a", 1, 2), ("b", 2, 1))]
        one = E.choice("scalar", [False, True])
        text = E.pyfile(lambda fn: E.py["cl_fix_write_formats"](ps[0][0] if one else [p for p, _ in ps], ["aFmt", "bFmt"], fn))
        lines = [[]]
        for c in text:
            if isinstance(c, int) and c == 10:
                lines.append([])
            else:
                lines[-1].append(c)
        E.check(lines[-1] == [] and len(lines) == (3 if one else 4), "one header line and one line per format")
        E.check(lines[0][0] == ord("#"), "header")
        for l, (p, w) in zip(lines[1:-1], ps):
            parsed(E, l, w)
    elif op == "vhdl":
        R = case["R"]
        S, I, F = E.int("S", 0, 1), E.int("I", -R, R), E.int("F", -R, R)
        t = E.call("to_string", E.rec(S, I, F), ret="str")
        E.observe("t", t)
        parsed(E, E.chars(t), (S, I, F))
    elif op == "free":
        S = E.int("S", 0, 1)
        I, ti = number(E, "I", case["d"][0])
        F, tf = number(E, "F", case["d"][1])
        kp, kq = E.choice("surround", [(0, 0), (case["ext"], 0), (0, case["ext"]), (1, 1)])
        pre = [E.char(f"p{i}") for i in range(kp)]
        for c in pre:
            E.assume(E.not_(c == ord("(")))
        post = [E.char(f"q{i}") for i in range(kq)]
        a, b, c, d = E.choice("spaces", [(0, 0, 0, 0), (1, 0, 1, 0), (case["sp"], 0, 0, 1), (0, 1, case["sp"], case["sp"])])
        sp = [32]
        txt = pre + [ord("("), E.digit(S), ord(",")] + sp * a + ti + sp * b + [ord(",")] + sp * c + tf + sp * d + [ord(")")] + post
        parsed(E, txt, (S, I, F), E.choice("low", [1, 7]))
    else:
        k, name = case["kind"], case["name"]
        ty = "FixRound_t" if k == "rnd" else "FixSaturate_t"
        v = E.rnd(name) if k == "rnd" else E.sat(name)
        p = getattr(E.py["FixRound" if k == "rnd" else "FixSaturate"], name)
        fn = "cl_fix_round_from_string" if k == "rnd" else "cl_fix_saturate_from_string"
        how = E.choice("how", ["case", "to_string", "python"])
        if how == "case":
            cs = [E.anycase(f"c{i}", c) for i, c in enumerate(name)]
        elif how == "python":
            cs = E.pytext(p.name)
            E.check(p.value == v.v, "same position in the Python and VHDL enumerations")
        else:
            t = E.call("to_string", v, ret="str")
            E.observe("t", t)
            cs = E.chars(t)
        s = E.str(cs)
        if E.choice("low", [1, 5]) != 1:
            s = E.reshape(s, 5, True)
        y = E.call(fn, s, ret="enum:" + ty.lower())
        E.observe("y", y)
        E.check(y.v == v.v, f"parsed mode {name}")
