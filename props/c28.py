"""C28 Pipeline components compute the function with the promised latency"""
from .vfix import *

NEEDS = "vhdl"
FUNCTIONS = ["entity en_cl_fix_round", "entity en_cl_fix_saturate", "entity en_cl_fix_resize", "cl_fix_recommended_pipelining (all overloads)",
             "cl_fix_round", "cl_fix_saturate", "cl_fix_resize"]
BOUNDS = {"quick": "one reset cycle, then 5 cycles of arbitrary data, valid, metadata and reset; 12 format pairs per component, all register "
                   "modes, all rounding and saturation modes (resize: 7 combinations rotated by seed), metadata width 0, 1, 5",
          "thorough": "12 cycles, all 28 mode combinations of resize"}
OUTSIDE = "metavalues on the inputs; clock glitches; the state before the first reset"
OPTS = {"quick": dict(samples=1), "thorough": dict(samples=3)}
RNDS = ["Trunc_s", "NonSymPos_s", "NonSymNeg_s", "SymInf_s", "SymZero_s", "ConvEven_s", "ConvOdd_s"]
SATS = ["None_s", "Warn_s", "Sat_s", "SatWarn_s"]
REGS = ["Yes_s", "No_s", "Auto_s"]
FMTS = [(1, 3, 4), (0, 4, 3), (1, 0, 7), (1, 5, 0), (0, 2, 2), (1, 8, 8), (0, 0, 9), (1, -2, 8), (0, 6, -1), (1, 4, 12), (0, 12, 4), (1, 0, 0)]
OUTF = [(1, 2, 2), (0, 3, 1), (0, 2, 4), (1, 4, 2), (1, 3, 2), (1, 6, 9), (0, 1, 4), (1, -1, 4), (1, 3, -1), (1, 4, 3), (0, 9, 0), (1, 2, 2)]


def cases(tier, seed):
    q = tier == "quick"
    T = 5 if q else 12
    r = []
    for i in range(len(FMTS)):
        for j, reg in enumerate(REGS):
            for e, ent in enumerate(("round", "saturate", "resize")):
                k = seed + i * 5 + j * 3
                modes = {"round": [(n, None) for n in RNDS], "saturate": [(None, s) for s in SATS],
                         "resize": [(RNDS[(k + n) % 7], SATS[(k + n * 3) % 4]) for n in range(7)] if q else
                         [(n, s) for n in RNDS for s in SATS]}[ent]
                r.append(dict(ent=ent, f=FMTS[i], o=OUTF[i], modes=modes, reg=reg, meta=[0, 1, 5][(i + j + e) % 3], T=T))
    return r


def latency(c, fin, mid, out):
    """pipeline stages promised by the component"""
    r = {"Yes_s": 1, "No_s": 0, "Auto_s": int(c.get("rnd") != "Trunc_s" and mid.F < fin.F)}[c["reg"]]
    s = {"Yes_s": 1, "No_s": 0, "Auto_s": int(c.get("sat") in ("Sat_s", "SatWarn_s") and (out.I < mid.I or out.S != mid.S))}[c["reg"]]
    return {"round": r, "saturate": s, "resize": r + s}[c["ent"]]


def run(E, case):
    ent = case["ent"]
    fin, out = Fmt(*case["f"]), Fmt(*case["o"])
    rnd, sat = E.choice("modes", case["modes"])
    case = dict(case, rnd=rnd, sat=sat)
    if ent == "round":
        out = mid = round_fmt(fin, out.F, rnd)
    elif ent == "saturate":
        out = Fmt(out.S, out.I, fin.F)
        mid = fin
    else:
        mid = round_fmt(fin, out.F, rnd)
    if W(out) < 1:
        out = Fmt(out.S, 1 - out.S - out.F, out.F)
    L = latency(case, fin, mid, out)
    # the documented latency is the recommended one
    n = {"round": lambda: ("cl_fix_recommended_pipelining", E.fmt(fin), E.fmt(out), E.rnd(rnd)),
         "saturate": lambda: ("cl_fix_recommended_pipelining", E.fmt(fin), E.fmt(out), E.sat(sat)),
         "resize": lambda: ("cl_fix_recommended_pipelining", E.fmt(fin), E.fmt(out), E.rnd(rnd), E.sat(sat))}[ent]()
    rec = E.call(*n, ret="int")
    if case["reg"] == "Auto_s":
        E.check(E.Q(rec) == L, "recommended number of pipeline stages")
    g = dict(in_fmt_g=E.fmt(fin), out_fmt_g=E.fmt(out))
    if ent != "saturate":
        g["round_g"] = E.rnd(rnd)
    if ent != "round":
        g["saturate_g"] = E.sat(sat)
    g["reg_mode_g"] = E.enum("RegisterMode_t", case["reg"])
    m = case["meta"]
    if m:
        g["meta_width_g"] = m
    T = case["T"]
    stim = [dict(rst=E.bit(True), in_valid=E.bit(False), in_meta=E.const(E.ALL["slv"], m, 0), in_data=E.const(E.ALL["slv"], W(fin), 0))]
    for t in range(1, T + 1):
        stim.append(dict(rst=E.logic(f"rst{t}"), in_valid=E.logic(f"valid{t}"), in_meta=E.vec(f"meta{t}", m), in_data=E.vec(f"data{t}", W(fin))))
    for t in range(L):
        stim.append(dict(stim[0], rst=E.bit(False)))
    res = E.sim("en_cl_fix_" + ent, g, stim, ["out_valid", "out_meta", "out_data"])
    E.observe("out", [[p["out_valid"], p["out_meta"], p["out_data"]] for p, q in res])
    for t in range(1, len(stim)):
        pre, post = res[t]
        v = E.is1(pre["out_valid"])
        k = t - L
        acc = False if k < 1 else E.and_(E.is1(stim[k]["in_valid"]), *[E.not_(E.is1(stim[j]["rst"])) for j in range(k, t)])
        E.check(E.iff(v, acc), f"out_valid {L} cycles after in_valid (cleared by reset)")
        if L and t + 1 < len(stim):
            E.check(E.same(post["out_data"], res[t + 1][0]["out_data"]) if post["out_data"].bv is not None else True, "registered output is stable")
            E.check(E.iff(E.is1(post["out_valid"]), E.is1(res[t + 1][0]["out_valid"])), "registered valid is stable")
        if k < 1:
            continue
        if ent == "round":
            e = E.call("cl_fix_round", stim[k]["in_data"], E.fmt(fin), E.fmt(out), E.rnd(rnd), ret="slv")
        elif ent == "saturate":
            e = E.call("cl_fix_saturate", stim[k]["in_data"], E.fmt(fin), E.fmt(out), E.sat(sat), ret="slv")
        else:
            e = E.call("cl_fix_resize", stim[k]["in_data"], E.fmt(fin), E.fmt(out), E.rnd(rnd), E.sat(sat), ret="slv")
        y = pre["out_data"]
        E.check(y.n == W(out), "output width")
        E.check(E.or_(E.not_(acc), E.same(y, e)), "output data is the library function of the accepted input")
        E.check(E.or_(E.not_(acc), E.same(pre["out_meta"], stim[k]["in_meta"])), "metadata accompanies its data")
