"""shared by C07-C09: exact operation, then one resize"""
from .spec import *
from . import ops


def mkcases(oplist, tier, seed, W):
    r = []
    al = [(n, s) for n in RNDS for s in ("None_s", "Sat_s")]
    for o in oplist:
        for S in ([[s, t] for s in (0, 1) for t in (0, 1)] if o in ops.BIN else [[0], [1]]):
            lo = 0 if o == "addsub" and tier == "quick" else -30
            r.append(dict(kind="full", op=o, S=S, W=W, lo=lo))
            r.append(dict(kind="obj", op=o, S=S, obj="wide", W=W, lo=lo))
            r.append(dict(kind="obj", op=o, S=S, obj="narrow", W=min(W, 52), lo=lo))
        cfgs = ops.binary_cfgs(tier) if o in ops.BIN else ops.unary_cfgs(tier)
        for i, c in enumerate(cfgs):
            modes = None if tier == "thorough" else [al[(i * 3 + seed + j * 5) % 14] for j in range(4)]
            r.append(dict(kind="cfg", op=o, cfg=c, modes=modes))
        r.append(dict(kind="default", op=o))
    return r


def run(E, case):
    k, op = case["kind"], case["op"]
    binary = op in ops.BIN
    rnd, sat, r = "Trunc_s", "None_s", None
    if k in ("full", "obj"):
        W = case["W"]
        a = fmt(E, "a", I=(case["lo"], 70), F=(case["lo"], 70), w=(1, W), S=case["S"][0])
        fs = [a]
        if binary:
            b = fmt(E, "b", I=(case["lo"], 70), F=(case["lo"], 70), w=(1, W), S=case["S"][1])
            E.assume(a.F - b.F <= 40)
            E.assume(b.F - a.F <= 40)
            fs.append(b)
    else:
        cfg = case["cfg"] if k == "cfg" else E.choice("cfg", ops.BINARY if binary else ops.UNARY)
        fs = [mk(E, *f) for f in cfg[:-1]]
        r = mk(E, *cfg[-1])
        if k == "cfg":
            m = E.choice("mode", case["modes"] or [(n, s) for n in RNDS for s in SATS])
            rnd, sat = m
    qs = [value(E, n, f) for n, f in zip("xy", fs)]
    args = list(zip(qs, fs))
    if op == "addsub":
        args.append(E.flag("sel") if E.choice("selkind", [0, 1]) else None)
    sel = None
    if op == "addsub":
        sel = args[2] if args[2] is not None else E.choice("selval", [True, False])
        args[2] = E.npbool([sel]) if args[2] is not None else sel
    if k == "obj":
        cls = E.pkg.WideFix if case["obj"] == "wide" else E.pkg.NarrowFix
        os_ = []
        for q, f in zip(qs, fs):
            if case["obj"] == "wide":
                os_.append(E.call(cls, E.arr([q * E.pow2(f.F)], (1,), "object"), f))
            else:
                os_.append(E.call(cls, E.arr([q], (1,), "float64"), f))
        mid = E.call(getattr(E.pkg, "cl_fix_%s_fmt" % op), *fs)
        if case["obj"] == "narrow":
            E.assume(width(mid) <= 53)
        m = os_[0]
        if op == "addsub":
            y = E.call(m.addsub, os_[1], args[2])
        elif E.choice("how", ["method", "operator"]) == "method" or op == "abs":
            y = E.call(getattr(m, op), *os_[1:])
        else:
            y = E.call({"add": lambda: m + os_[1], "sub": lambda: m - os_[1], "mult": lambda: m * os_[1],
                        "neg": lambda: -m}[op])
        E.check(y.fmt == mid, "format of the result object")
        v = E.elems(y.data)
        if case["obj"] == "wide":
            v = [e * E.pow2(-mid.F) for e in v]
    else:
        y = ops.call(E, op, args, r, rnd if k == "cfg" else None, sat if k == "cfg" else None)
        rf = r if r is not None else E.call(getattr(E.pkg, "cl_fix_%s_fmt" % op), *fs)
        v = unrep(E, y, rf)
    E.check(len(v) == 1, "shape")
    E.observe("y", v[0])
    ex, F = ops.exact(E, op, args[:2] + ([sel] if op == "addsub" else []))
    if r is None:
        E.check(v[0] == ex, "exact result")
    else:
        E.check(v[0] == spec_resize(E, ex, F, r, rnd, sat), "exact result resized once")
