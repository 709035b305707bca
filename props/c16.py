"""C16 uint64 packing of wide data is lossless and keeps the documented layout"""
from .spec import *

FUNCTIONS = ["matlab_interface.to_uint64_array/from_uint64_array", "WideFix.to_uint64_array/from_uint64_array"]
BOUNDS = {"quick": "symbolic formats: widths 54..160, I and F in [-100,200]; all values; Python int, 0-d, (1,), (2,) and (up to width 127) "
                   "(2,2), (2,1,2) data (first, middle and last elements symbolic and different); arbitrary words of a single packed element",
          "thorough": "widths 54..400"}
OUTSIDE = "empty arrays (not supported by the library)"
SHAPES = {"py": (), "0d": (), "1": (1,), "2": (2,), "22": (2, 2), "212": (2, 1, 2)}


def cases(tier, seed):
    r = []
    W = [(54, 64), (65, 127), (128, 160)] if tier == "quick" else [(54, 64), (65, 128), (129, 200), (201, 300), (301, 400)]
    for S in (0, 1):
        for w in W:
            for sh in SHAPES:
                for o in ("fn", "obj"):
                    if (sh, o) != ("py", "obj") and (tier != "quick" or w[0] < 128 or len(SHAPES[sh]) < 2):
                        r.append(dict(kind="pack", obj=o, S=S, w=w, sh=sh))
            for o in ("fn", "obj"):
                for sh in ("v", "2"):
                    r.append(dict(kind="unpack", obj=o, S=S, w=w, sh=sh))
    return r


def run(E, case):
    S, o = case["S"], case["obj"]
    f = fmt(E, "f", I=(-100, 200), F=(-100, 200), w=tuple(case["w"]), S=S)
    W = width(f)
    nw = 1
    while E.dec(W > 64 * nw):
        nw += 1
    if case["kind"] == "unpack":
        # any words whose unused bits are zero
        n = 2 if case["sh"] == "2" else 1
        ws, us = [], []
        for i in range(n):
            row = []
            for k in range(nw - 1):
                row.append(E.mant("w%d_%d" % (i, k), E.Q(0), E.Q(2**64 - 1), [64]))
            row.append(E.mant("w%d_%d" % (i, nw - 1), E.Q(0), E.pow2(W - 64 * (nw - 1)) - 1, [W - 64 * (nw - 1)]))
            u = E.Q(0)
            for k in range(nw):
                u = u + row[k] * 2**(64 * k)
            ws.append(row)
            us.append(E.ite(u >= E.pow2(W - 1), u - E.pow2(W), u) if S else u)
        if o == "fn":
            x = E.arr([w for row in ws for w in row], (n, nw) if n == 2 else (nw,), "uint64")
            y = E.call(E.pkg.from_uint64_array, x, f)
        else:
            x = E.arr([ws[i][k] for k in range(nw) for i in range(n)], (nw, n) if n == 2 else (nw,), "uint64")
            y = E.call(E.pkg.WideFix.from_uint64_array, x, f)
            E.check(y.fmt == f, "format")
            y = y.data
        E.check(E.shape(y) == ((2,) if n == 2 else ()), "shape of the unpacked data")
        e = E.elems(y)
        E.check(len(e) == n, "size")
        for i in range(n):
            E.observe("u%d" % i, e[i])
            E.check(e[i] == us[i], "unpacked value")
        return
    shape = SHAPES[case["sh"]]
    n = 1
    for d in shape:
        n *= d
    vs = [value(E, "x%d" % i, f) * E.pow2(f.F) for i in range(n)]
    x = E.scalar(vs[0], "int") if case["sh"] == "py" else E.arr(vs, shape, "object")
    if o == "fn":
        p = E.call(E.pkg.to_uint64_array, x, f)
        sh1 = shape or (1,)
        want = sh1 + (nw,)
    else:
        p = E.call(E.call(E.pkg.WideFix, x, f).to_uint64_array)
        sh1 = shape
        want = (nw,) + shape
    E.check(E.shape(p) == want, "shape of the packed data")
    E.check(E.dtype(p)[1] == "uint64", "packed data type")
    e = E.elems(p)
    for i in range(n):
        u = E.mod2(vs[i], W)
        for k in range(nw):
            w = e[i * nw + k] if o == "fn" else e[k * n + i]
            if i == 0 or i == n - 1:
                E.observe("w%d_%d" % (i, k), w)
            E.check(w == E.mod2(E.floor(u * E.pow2(-64 * k)), 64), "word k holds bits 64k..64k+63")
    if case["sh"] != "py":
        for a, b in zip(E.elems(x), vs):
            E.check(a == b, "the packed data is unchanged")
    if o == "fn":
        y = E.call(E.pkg.from_uint64_array, p, f)
    else:
        y = E.call(E.pkg.WideFix.from_uint64_array, p, f)
        E.check(y.fmt == f, "format")
        y = y.data
    E.check(E.shape(y) == sh1, "shape of the unpacked data")
    E.check(E.dtype(y)[1] == "object" and E.elemkinds(y) == ["int"], "unpacked data are Python ints")
    for a, b in zip(E.elems(y), vs):
        E.check(a == b, "lossless")
