"""C18 results do not depend on how data is grouped into scalars and arrays"""
from .spec import *
from . import ops

FUNCTIONS = ["every elementwise cl_fix_* function", "_clean_input", "NarrowFix.__init__", "WideFix.__init__", "WideFix.from_narrowfix",
             "NarrowFix/WideFix operations", "to_uint64_array"]
BOUNDS = {"quick": "all values of the elements (up to 4 different ones), the format tuples below (narrow, wide, mixed), Python and NumPy "
                   "scalars, 0-d, (1,), (2,), (2,2), transposed (2,2), strided, (1,2,1), lists; operand shapes that broadcast; 2 mode "
                   "pairs of the silent modes per configuration rotated by seed",
          "thorough": "all 14 silent mode pairs"}
OUTSIDE = "lists of wide data (NumPy picks their element type by value); empty arrays; more than three dimensions"

CFG = [
    [(1, 3, 5), (1, 2, 4), (1, 2, 3)],
    [(0, 4, 4), (1, 2, 2), (0, 60, 2)],
    [(1, 40, 20), (1, 3, 3), (1, 41, 12)],
    [(1, 40, 40), (0, 30, 30), (1, 8, 6)],
    [(0, 30, 40), (1, 20, 20), (0, 29, 40)],
    [(1, 3, 5), (1, 50, 20), (0, 20, 2)],
    [(1, 26, 26), (1, 26, 26), (1, 20, 30)],
]
UN = ["round", "saturate", "resize", "abs", "neg", "shift", "in_range", "to_integer", "from_integer", "to_real", "from_real"]
BI = ["add", "sub", "mult", "addsub"]
FORMS = ["py", "np", "0d", "list", "2", "22", "22T", "step", "121"]
BFORMS = [("py", "2"), ("2", "py"), ("0d", "22"), ("2", "22"), ("col", "row"), ("row", "col"), ("1", "2"), ("list", "0d"), ("0d", "0d"),
          ("py", "py"), ("22T", "22"), ("121", "2")]


def cases(tier, seed):
    r = []
    al = [(n, s) for n in RNDS for s in ("None_s", "Sat_s")]
    for ci in range(len(CFG)):
        for oi, o in enumerate(UN + BI):
            i = ci * 5 + oi * 3 + seed
            m = al if tier != "quick" else [al[i % 14], al[(i + 5) % 14]]
            if o == "mult" and ci in (3, 6) and tier == "quick":
                m = [("Trunc_s", "None_s"), ("NonSymPos_s", "None_s")]
            r.append(dict(op=o, ci=ci, modes=m))
    for o in ("addsub", "shift"):
        for ci in range(len(CFG)):
            i = ci * 5 + seed
            r.append(dict(op=o + "arr", ci=ci, modes=[al[i % 14]]))
    return r


def group(E, form, q, f, kind=None):
    """-> (data in this form, flat list of the indices of the values it holds, shape); q: 4 values"""
    wide = width(f) > 53
    if kind is None:
        kind = "object" if wide else "float64"
        if wide:
            q = [v * E.pow2(f.F) for v in q]
    sk = {"object": "int", "float64": "float", "int64": "int"}[kind]

    def arr(ix, sh):
        return E.arr([q[i] for i in ix], sh, kind)
    if form == "py":
        return E.scalar(q[0], sk), [0], ()
    if form == "np":
        return (E.scalar(q[0], "int") if kind == "object" else E.scalar(q[0], kind)), [0], ()
    if form == "0d":
        return arr([0], ()), [0], ()
    if form == "list":
        if kind == "object":
            return arr([0, 1], (2,)), [0, 1], (2,)
        return [E.scalar(q[0], sk), E.scalar(q[1], sk)], [0, 1], (2,)
    if form == "1":
        return arr([0], (1,)), [0], (1,)
    if form == "2":
        return arr([0, 1], (2,)), [0, 1], (2,)
    if form == "22":
        return arr([0, 1, 2, 3], (2, 2)), [0, 1, 2, 3], (2, 2)
    if form == "22T":
        return arr([0, 1, 2, 3], (2, 2)).T, [0, 2, 1, 3], (2, 2)
    if form == "step":
        return arr([0, 1, 2, 3], (4,))[::-2], [3, 1], (2,)
    if form == "121":
        return arr([0, 1], (1, 2, 1)), [0, 1], (1, 2, 1)
    if form == "col":
        return arr([0, 1], (2, 1)), [0, 1], (2, 1)
    if form == "row":
        return arr([0, 1], (1, 2)), [0, 1], (1, 2)
    raise KeyError(form)


def bcast(sa, ia, sb, ib):
    import numpy as np
    x, y = np.broadcast_arrays(np.array(ia).reshape(sa), np.array(ib).reshape(sb))
    return x.shape, [int(v) for v in x.reshape(-1)], [int(v) for v in y.reshape(-1)]


def out(E, y):
    k = E.dtype(y)[1]
    return E.bools(y) if k in ("bool_", "bool") else E.elems(y)


def eq(E, x, y, op, what):
    if op == "in_range":
        E.check(E.iff(x, y), what)
    else:
        E.check(x == y, what)


def run(E, case):
    op = case["op"]
    cfg = CFG[case["ci"]]
    rnd, sat = E.choice("mode", case["modes"])
    rn, sa = rnd_of(E, rnd), sat_of(E, sat)
    a, b, r = [mk(E, *f) for f in cfg]
    pk = E.pkg
    if op in UN or op == "shiftarr":
        # (wide to_real decides a warning for each element)
        form = E.choice("form", ["py", "0d", "2", "121"] if op == "to_real" and width(a) > 53 else FORMS)
        kind = None
        q = [value(E, "x%d" % i, a) for i in range(4)]
        if op == "from_integer":
            kind = "object" if width(a) > 53 else "int64"
            q = [x * E.pow2(a.F) for x in q]
        if op == "from_real":
            kind = "float64"
            q = [E.mant("n%d" % i, E.Q(1 - 2**53), E.Q(2**53 - 1), [53]) * E.pow2(-33) for i in range(4)]
        nq = {"2": 2, "121": 2, "list": 2, "22": 4, "22T": 4, "step": 4}.get(form, 1)
        q = q[:nq] + [q[0]] * (4 - nq)
        g = {"round": lambda x: pk.cl_fix_round(x, a, pk.FixFormat.for_round(a, a.F - 2, rn), rn),
             "saturate": lambda x: pk.cl_fix_saturate(x, a, mk(E, r.S, r.I, a.F), sa),
             "resize": lambda x: pk.cl_fix_resize(x, a, r, rn, sa),
             "abs": lambda x: pk.cl_fix_abs(x, a, r, rn, sa), "neg": lambda x: pk.cl_fix_neg(x, a, r, rn, sa),
             "shift": lambda x: pk.cl_fix_shift(x, a, -3, r, rn, sa),
             "in_range": lambda x: pk.cl_fix_in_range(x, a, r, rn),
             "to_integer": lambda x: pk.cl_fix_to_integer(x, a), "from_integer": lambda x: pk.cl_fix_from_integer(x, a),
             "to_real": lambda x: pk.cl_fix_to_real(x, a),
             "from_real": lambda x: pk.cl_fix_from_real(x, r, sat_of(E, "Sat_s"))}
        if op == "shiftarr":
            ns = [3, -2, 0, 1]
            sform = E.choice("sform", ["2", "22", "col"])
            sx, six, ssh = group(E, sform, [E.Q(n) for n in ns], a, "int64")
            x, ix, sh = group(E, form, q, a)
            if width(a) + 5 > 53 and sh != ssh:
                return  # documented: shift arrays of wide data have the shape of the data
            res, ia, ib = bcast(sh, ix, ssh, six)
            y = E.call(lambda: pk.cl_fix_shift(x, a, sx, r, rn, sa))
            one = {}
            for i, j in zip(ia, ib):
                if (i, j) not in one:
                    one[i, j] = out(E, E.call(lambda: pk.cl_fix_shift(group(E, "1", [q[i]], a)[0], a, ns[j], r, rn, sa)))[0]
            E.check(E.shape(y) == res, "shape")
            for n, (v, i, j) in enumerate(zip(out(E, y), ia, ib)):
                if n < 2:
                    E.observe("y%d" % n, v)
                E.check(v == one[i, j], "element equals the result for that element alone")
            return
        f = g[op]
        x, ix, sh = group(E, form, q, a, kind)
        y = E.call(lambda: f(x))
        one = {i: out(E, E.call(lambda: f(group(E, "1", [q[i]], a, kind)[0])))[0] for i in sorted(set(ix))}
        E.check(E.shape(y) == sh, "shape")
        v = out(E, y)
        E.check(len(v) == len(ix), "number of elements")
        for n, (e, i) in enumerate(zip(v, ix)):
            if op != "in_range" and n < 2:
                E.observe("y%d" % n, e)
            eq(E, e, one[i], op, "element equals the result for that element alone")
        return
    fa, fb = E.choice("forms", BFORMS)
    qa = [value(E, "x%d" % i, a) for i in range(4)]
    qb = [value(E, "y%d" % i, b) for i in range(4)]
    x, ia, sa_ = group(E, fa, qa, a)
    y, ib, sb = group(E, fb, qb, b)
    res, ia, ib = bcast(sa_, ia, sb, ib)
    sel = True
    fl = None
    if op == "addsub":
        sel = E.choice("sel", [True, False])
    if op == "addsubarr":
        fl = [E.flag("f0"), E.flag("f1")]
        if len(res) == 0 or res[-1] != 2 and res[-1] != 1:
            sel = E.npbool(fl[:1], (1,))
            res, ia, ic = (1,), ia, [0]
        else:
            sel = E.npbool(fl, (2,))
            full, p, ic = bcast(res, list(range(len(ia))), (2,), [0, 1])
            ia, ib, res = [ia[i] for i in p], [ib[i] for i in p], full
    f = getattr(pk, "cl_fix_" + op.replace("arr", ""))

    def go(u, v, s):
        ex = (s,) if op.startswith("addsub") else ()
        return E.call(lambda: f(u, a, v, b, *ex, r, rn, sa))
    z = go(x, y, sel)
    E.check(E.shape(z) == res, "shape")
    e = out(E, z)
    E.check(len(e) == len(ia), "number of elements")
    one = {}
    for n, (i, j) in enumerate(zip(ia, ib)):
        k = (i, j, ic[n] if op == "addsubarr" else 0)
        if k not in one:
            s = E.npbool([fl[ic[n]]], (1,)) if op == "addsubarr" else sel
            one[k] = out(E, go(group(E, "1", [qa[i]], a)[0], group(E, "1", [qb[j]], b)[0], s))[0]
        if n < 2:
            E.observe("z%d" % n, e[n])
        E.check(e[n] == one[k], "element equals the result for these elements alone")


