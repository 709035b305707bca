"""C29 Text file exchange of arbitrary-width numbers is lossless"""
from vhdl.types import Arr, St
from vhdl.venv import TB

NEEDS = "vhdl"
DIRS = TB
FUNCTIONS = ["bin_to_dec", "dwrite", "dread", "hread_safe", "get_ascii_columns", "read and write of lines (all overloads)", "write_file",
             "read_file (all array types)", "skip_lines", "get_file_size_lines", "get_file_size_columns"]
BOUNDS = {"quick": "lines: widths 1..5 (two numbers on a line, all overloads) and 5..9 with every bit pattern; 33 and 64 bits (signed decimal: 24) with 4 "
                   "arbitrary bits at three positions; 96, 103, 128, 196 bits (the 8 largest values); decimal text of 1, 2, 5, 11 arbitrary digits read into 1..100 bits, followed by "
                   "arbitrary delimiters; files of 0..2 values of 5 bits, all 8 array types, with and without header",
          "thorough": "every bit pattern up to 14 bits; 31..130 bits with 8 arbitrary bits; the 8 largest values of 20..256 bits; up to 31 digits; files of 9-bit values"}
OUTSIDE = "metavalues in the data; decimal text that does not fit the width (it wraps by design); failures of the file system"
PK = "en_tb_fileio_text_pkg"
PP = "en_tb_fileio_text_private_pkg"
MODES = ["ascii_bin", "ascii_dec", "ascii_hex"]
KINDS = ["nbu", "nbs", "nsu", "nss", "slvu", "slvs", "bvu", "bvs"]
SIGNED = ("nbs", "nss", "slvs", "bvs")
FULL = {"quick": 9, "thorough": 14}
WIDE = {"quick": [33, 64], "thorough": [31, 32, 33, 53, 64, 65, 100, 130]}
WIN = {"quick": 4, "thorough": 8}
TOP = {"quick": [96, 103, 128, 196], "thorough": list(range(20, 200, 3)) + [103, 113, 196, 256]}  # all ones: needs the most digits
ARRS = {"signedbitarray_t": "nbs", "unsignedbitarray_t": "nbu", "signedarray_t": "nss", "unsignedarray_t": "nsu", "bitvectorarray_t": "bv",
        "slvarray_t": "slv", "sulvarray_t": "slv"}


def cases(tier, seed):
    r = []
    for m in MODES:
        for k in KINDS:
            r.append(dict(op="line", mode=m, kind=k, n=[1, 2, 3, 4, 5] if tier == "quick" else [1, 2, 3, 4, 5, 7], count=2, tier=tier))
        for k in ("nbu", "nbs"):
            for n in range(5, FULL[tier] + 1):
                r.append(dict(op="line", mode=m, kind=k, n=[n], count=1, tier=tier))
            for n in WIDE[tier] if tier != "quick" or (m, k) != ("ascii_dec", "nbs") else [24]:
                r.append(dict(op="line", mode=m, kind=k, n=[n], count=1, win=1, tier=tier))
    for n in TOP[tier]:
        r.append(dict(op="line", mode="ascii_dec", kind="nbu", n=[n], count=1, win=1, top=1, tier=tier))
    for k in ("nbu", "nbs", "nsu", "nss"):
        for nd in ([1, 2, 5, 11] if tier == "quick" else [1, 2, 3, 4, 5, 7, 9, 11, 20, 31]):
            r.append(dict(op="digits", kind=k, digits=nd))
    for t in list(ARRS) + ["integer_vector"]:
        for m in MODES:
            r.append(dict(op="file", ty=t, mode=m, n=5 if tier == "quick" else 9))
    return r


def typed(E, k):
    return E.ALL[k if k in E.ALL else k[:-1]]


def sgn(E, k):
    return [] if k in E.ALL else [E.enum("signedness_t", "signed_s" if k[-1] == "s" else "unsigned_s", "en_tb_base_pkg")]


def data(E, name, n, ty, case):
    if "win" not in case:
        return E.vec(name, n, ty)
    w = WIN[case["tier"]]
    pos, fills = [0, n // 2, n - w], [0, (1 << n) - 1, int("01" * n, 2) & ((1 << n) - 1)]
    if "top" in case:
        lo, fill = 0, (1 << n) - 1
        w = 3
    elif case["tier"] == "quick":
        lo, fill = E.choice("window", list(zip(pos, fills)))
    else:
        lo, fill = E.choice("lo", pos), E.choice("fill", fills)
    return E.window(name, n, ty, lo, w, fill)


def run(E, case):
    op = case["op"]
    mode = E.enum("text_data_mode_t", case["mode"], PP) if "mode" in case else None
    if op == "line":
        k = case["kind"]
        n = E.choice("n", case["n"])
        ty, sg = typed(E, k), sgn(E, k)
        xs = [data(E, f"x{i}", n, ty, case) for i in range(case["count"])]
        txt = None
        for i, x in enumerate(xs):
            _, (l,) = E.call("write", [E.line(txt)], x, *sg, mode, pkg=PK, proc=True)
            new = E.linechars(l)
            if txt is not None:
                E.check(new[:len(txt)] == txt and len(new) > len(txt), "earlier content of the line is kept")
            txt = new + ([32] if i + 1 < len(xs) else [])
        E.observe("text", [E.Q(E.codeof(c)) for c in txt])
        l = E.line(txt)
        for x in xs:
            _, (l, y) = E.call("read", [l], [E.const(ty, n, 0)], *sg, mode, pkg=PK, proc=True)
            E.observe("y", y)
            E.check(E.same(x, y), "number read back")
        E.check(len(E.linechars(l)) == 0, "nothing left on the line")
    elif op == "digits":
        # decimal text of any digits, followed by anything that ends a number
        k = case["kind"]
        nd = case["digits"]
        n = E.choice("n", [1, 3, 4, 8, 33, 100])
        ty = typed(E, k)
        v, txt = E.Q(0), []
        neg = k in SIGNED and E.choice("neg", [False, True])
        if neg:
            txt.append(ord("-"))
        for i in range(nd):
            d = E.int(f"d{i}", 0, 9)
            v = v * 10 + d
            txt.append(E.digit(d))
        if neg:
            v = -v
        half = 2 ** (n - 1) if k in SIGNED else 0
        E.assume(E.and_(v >= -half, v < 2 ** n - half))
        more = []
        for i in range(E.choice("trailing", [0, 1, 3])):
            c = E.codeof(E.char(f"t{i}"))
            E.assume(E.not_(E.or_(c == ord("-"), E.and_(c >= 48, c <= 57))))
            more.append(E.char(f"t{i}"))
        nxt = E.choice("next", [[], [ord("-")], [ord("7"), ord(" ")]]) if more else []
        _, (l, y) = E.call("dread", [E.line(txt + more + nxt)], [E.const(ty, n, 0)], pkg=PP, proc=True)
        E.observe("y", y)
        E.check(E.bits_eq(y, v), "value of the decimal text")
        E.check(E.linechars(l) == nxt, "read up to the next number")
    else:
        t = case["ty"]
        ty = E.type(t, "en_tb_base_pkg")
        k = ARRS.get(t, "int")
        rows = E.choice("rows", [0, 2] if k != "int" else [0, 1])
        n = case["n"] if k != "int" else 32
        lo, to = E.choice("index", [(0, True), (5, False)])
        if k == "int":
            xs = [E.int(f"x{i}", -12, 12) for i in range(rows)]
            x = Arr(ty, lo, lo + (rows - 1 if to else 1 - rows), to, [E.vint(v) for v in xs], None)
            extra = []
        else:
            xs = [E.vec(f"x{i}", n, E.ALL[k]) for i in range(rows)]
            x = Arr(ty, lo, lo + (rows - 1 if to else 1 - rows), to, xs, St(E.ALL[k], (n - 1, 0, False)))
            extra = [] if k[0] == "n" else sgn(E, E.choice("signedness", ["slvs", "slvu"]))
        hdr = E.choice("header", ["", "# header 12"])
        _, lines = E.call("write_file", E.str("f.txt"), x, *extra, mode, E.str(hdr), pkg=PK, proc=True, out="f.txt")
        h = 1 if hdr else 0
        E.check(len(lines) == rows + h and (not hdr or lines[0] == [ord(c) for c in hdr]), "one line per value, after the header")
        args = [E.str("g.txt")] + ([n] if k != "int" else []) + extra + [mode, h]
        y = E.call("read_file", *args, ret=f"arr:{t}:{k}", pkg=PK, files={"g.txt": lines})
        E.observe("y", y)
        E.check(len(y.lst) == rows, "number of values")
        for a, b in zip(xs, y.lst):
            E.check(E.same(a, b) if k != "int" else E.Q(b) == a, "value read back")
