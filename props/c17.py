"""C17 operations never modify their arguments, and depend on nothing but their arguments"""
from .spec import *
from . import ops

FUNCTIONS = ["every public cl_fix_* function", "to_uint64_array/from_uint64_array", "FixFormat.for_*/union/operators",
             "constructors, methods and operators of NarrowFix and WideFix"]
BOUNDS = {"quick": "all values of two-element arrays in the format pairs/triples below (narrow, wide and mixed; 4 rounding x 2 saturation "
                   "modes rotated by seed); histories of three calls with different formats and values, compared with the same "
                   "call in a newly imported package; every result is then fed through further operations",
          "thorough": "all modes, twice the format tuples"}
OUTSIDE = "modification of arrays by the caller between calls"

# (a, b, r) and (a2, b2, r2) of the interleaved call: same widths as the first, but other binary points / signs
CFG = [
    ([(1, 3, 5), (1, 2, 4), (1, 2, 3)], [(1, 4, 4), (0, 3, 4), (1, 3, 2)]),
    ([(0, 4, 4), (1, 2, 2), (0, 3, 2)], [(1, 3, 4), (1, 1, 3), (1, 2, 2)]),
    ([(1, 40, 20), (1, 3, 3), (1, 41, 12)], [(1, 41, 19), (0, 4, 3), (0, 42, 12)]),
    ([(1, 40, 40), (0, 30, 30), (1, 39, 20)], [(1, 20, 60), (1, 30, 29), (0, 40, 20)]),
    ([(0, 30, 40), (1, 30, 20), (1, 10, 12)], [(1, 29, 40), (0, 31, 20), (0, 11, 12)]),
    ([(1, 3, 5), (1, 50, 20), (0, 20, 2)], [(0, 4, 5), (1, 49, 21), (1, 19, 2)]),
]
FN1 = ["round", "saturate", "resize", "abs", "neg", "shift", "shiftarr", "in_range", "from_real", "from_integer", "to_integer",
       "to_real", "to_uint64_array", "from_uint64_array"]
FN2 = ["add", "sub", "mult", "addsub", "addsubarr"]
FMT = ["formats"]
OBJ = ["construct", "add", "sub", "mult", "addsub", "shift", "neg", "abs", "round", "saturate", "resize", "op", "cmp", "convert", "align"]
GEN = ["zeros", "random", "write", "extremes"]


def cases(tier, seed):
    r = []
    al = [(n, s) for n in RNDS for s in SATS]
    for ci in range(len(CFG)):
        for oi, o in enumerate(FN1 + FN2):
            i = ci * 5 + oi * 3 + seed
            m = al if tier != "quick" else [al[i % 28], al[(i + 13) % 28]]
            if o == "mult":
                # a decision on an overflow of a product of two unknowns is expensive
                m = [(n, s.replace("SatWarn", "Sat").replace("Warn", "None")) for n, s in m]
            r.append(dict(kind="fn", op=o, ci=ci, modes=m, h=0))
            if tier != "quick":
                r.append(dict(kind="fn", op=o, ci=ci, modes=m, h=1))
        for oi, o in enumerate(OBJ):
            i = ci * 5 + oi * 3 + seed
            m = al if tier != "quick" else [al[i % 28]]
            r.append(dict(kind="obj", op=o, ci=ci, modes=m, h=0))
        for o in FMT + GEN:
            r.append(dict(kind="gen", op=o, ci=ci))
    return r


class Snap:
    """argument values before the calls"""

    def __init__(self, E):
        self.E = E
        self.t = []

    def val(self, x):
        E = self.E
        if isinstance(x, (list, tuple)):
            return ("seq", type(x).__name__, [self.val(y) for y in x])
        if type(x).__name__ == "FixFormat":
            return ("fmt", x.S, x.I, x.F)
        if type(x).__name__ in ("NarrowFix", "WideFix"):
            return ("obj", type(x).__name__, self.val(x.data), self.val(x.fmt))
        if isinstance(x, (bool, str)) or x is None or type(x).__name__ in ("FixRound", "FixSaturate"):
            return ("c", str(x))
        d, k = E.dtype(x)
        if k in ("bool_", "bool"):
            return ("bools", d, list(E.shape(x)), E.bools(x))
        return ("data", d, k, list(E.shape(x)), E.elems(x))

    def take(self, *xs):
        for x in xs:
            self.t.append((x, self.val(x)))
        return self

    def same(self, what):
        for x, v in self.t:
            equal(self.E, v, self.val(x), what)


def equal(E, u, v, what):
    E.check(u[0] == v[0] and len(u) == len(v), what)
    if u[0] == "seq":
        E.check(u[1] == v[1] and len(u[2]) == len(v[2]), what)
        for a, b in zip(u[2], v[2]):
            equal(E, a, b, what)
    elif u[0] == "fmt":
        for a, b in zip(u[1:], v[1:]):
            E.check(a == b, what)
    elif u[0] == "obj":
        E.check(u[1] == v[1], what)
        equal(E, u[2], v[2], what)
        equal(E, u[3], v[3], what)
    elif u[0] == "c":
        E.check(u[1] == v[1], what)
    elif u[0] == "bools":
        E.check(u[1:3] == v[1:3] and len(u[3]) == len(v[3]), what)
        for a, b in zip(u[3], v[3]):
            E.check(E.iff(a, b), what)
    else:
        E.check(u[1:4] == v[1:4] and len(u[4]) == len(v[4]), what)
        for a, b in zip(u[4], v[4]):
            E.check(a == b, what)


def ident(f):
    return f


def same_result(E, y, z, what):
    s = Snap(E)
    equal(E, s.val(y), s.val(z), what)


def build(E, op, cfg, xs, ys, ns, rnd, sat):
    """-> (callable getter, argument list); arguments are rebuilt for the current package"""
    pk = E.pkg
    a, b, r = [mk(E, *f) for f in cfg]
    A = rep(E, [x[0] for x in xs], a, (2,))
    rn, sa = rnd_of(E, rnd), sat_of(E, sat)
    if op == "round":
        return pk.cl_fix_round, [A, a, E.call(pk.FixFormat.for_round, a, r.F, rn), rn]
    if op == "saturate":
        return pk.cl_fix_saturate, [A, a, mk(E, r.S, r.I, a.F), sa]
    if op == "resize":
        return pk.cl_fix_resize, [A, a, r, rn, sa]
    if op in ("abs", "neg"):
        return getattr(pk, "cl_fix_" + op), [A, a, r, rn, sa]
    if op == "shift":
        return pk.cl_fix_shift, [A, a, -2, r, rn, sa]
    if op == "shiftarr":
        return pk.cl_fix_shift, [A, a, E.arr([E.Q(1), E.Q(-3)], (2,), "int64"), r, rn, sa]
    if op == "in_range":
        return pk.cl_fix_in_range, [A, a, r, rn]
    if op == "from_real":
        return pk.cl_fix_from_real, [E.arr([n * E.pow2(-30) for n in ns], (2,), "float64"), r, sat_of(E, "Sat_s")]
    if op == "from_integer":
        v = [x[0] * E.pow2(a.F) for x in xs]
        return pk.cl_fix_from_integer, [E.arr(v, (2,), "object" if width(a) > 53 else "int64"), a]
    if op == "to_integer":
        return pk.cl_fix_to_integer, [A, a]
    if op == "to_real":
        return pk.cl_fix_to_real, [A, a]
    if op in ("to_uint64_array", "from_uint64_array"):
        if width(a) <= 53:
            a = mk(E, a.S, a.I + 30, a.F + 30)
            A = rep(E, [x[0] for x in xs], a, (2,))
        if op == "to_uint64_array":
            return pk.to_uint64_array, [A, a]
        return pk.from_uint64_array, [E.call(pk.to_uint64_array, A, a), a]
    B = rep(E, [y[0] for y in ys], b, (2,))
    if op in ("add", "sub", "mult"):
        return getattr(pk, "cl_fix_" + op), [A, a, B, b, r, rn, sa]
    if op == "addsub":
        return pk.cl_fix_addsub, [A, a, B, b, True, r, rn, sa]
    sel = E.npbool([y[1] for y in ys], (2,))
    return pk.cl_fix_addsub, [A, a, B, b, sel, r, rn, sa]


def vals(E, cfg, t):
    """two values for each operand of a configuration, and flags"""
    fs = [mk(E, *f) for f in cfg]
    xs = [(value(E, t + "x%d" % i, fs[0]),) for i in range(2)]
    ys = [(value(E, t + "y%d" % i, fs[1]), E.flag(t + "f%d" % i)) for i in range(2)]
    return xs, ys


def call_obs(E, f, args):
    y = E.call(f, *args)
    return y, len(E.warns())


def run(E, case):
    {"fn": run_fn, "obj": run_obj, "gen": run_gen}[case["kind"]](E, case)


def run_fn(E, case):
    op = case["op"]
    c1, c2 = CFG[case["ci"]]
    if case.get("h"):
        c1, c2 = c2, c1
    rnd, sat = E.choice("mode", case["modes"])
    ns = [E.mant("n%d" % i, E.Q(1 - 2**53), E.Q(2**53 - 1), [53]) for i in range(2)]
    v1 = vals(E, c1, "a") + (ns,)
    v2 = vals(E, c2, "b") + (ns[::-1],)
    # the interleaved call in a package without history
    f, args = build(E, op, c2, *v2, rnd, sat)
    y20, w20 = call_obs(E, f, args)
    E.fresh()
    f, args = build(E, op, c1, *v1, rnd, sat)
    E.warns()
    s = Snap(E).take(*args)
    y1, w1 = call_obs(E, f, args)
    s.same("arguments after the call")
    s.take(y1)
    f2, args2 = build(E, op, c2, *v2, rnd, sat)
    E.warns()
    s.take(*args2)
    y2, w2 = call_obs(E, f2, args2)
    same_result(E, y2, y20, "the result does not depend on earlier calls")
    E.check(w2 == w20, "warnings do not depend on earlier calls")
    y3, w3 = call_obs(E, f, args)
    same_result(E, y3, y1, "the same call returns the same result")
    E.check(w3 == w1, "the same call gives the same warnings")
    s.same("arguments and earlier results after later calls")
    if op in ("in_range", "to_real", "to_uint64_array"):
        return
    # the result goes through operations that could write to it
    rf = args[1] if op in ("from_real", "from_integer", "to_integer", "from_uint64_array") else args[-3]
    if op in ("round", "saturate"):
        rf = args[2]
    if op == "to_integer":
        E.call(E.pkg.cl_fix_from_integer, y1, rf)
    else:
        t = mk(E, rf.S, rf.I, rf.F - 1 if rf.I + rf.F > 1 else rf.F)
        for g in (lambda: E.pkg.cl_fix_resize(y1, rf, t, rnd_of(E, "NonSymPos_s"), sat_of(E, "None_s")),
                  lambda: E.pkg.cl_fix_resize(y1, rf, rf, rnd_of(E, "Trunc_s"), sat_of(E, "None_s")),
                  lambda: E.pkg.cl_fix_abs(y1, rf), lambda: E.pkg.cl_fix_neg(y1, rf),
                  lambda: E.pkg.cl_fix_add(y1, rf, y1, rf), lambda: E.pkg.cl_fix_shift(y1, rf, 1, None),
                  lambda: E.pkg.to_uint64_array(y1, rf) if width(rf) > 53 else 0):
            E.call(g)
    s.same("arguments and earlier results after operations on the result")


def objects(E, cfg, xs, ys, wide):
    a, b, r = [mk(E, *f) for f in cfg]
    out = []
    for f, v in ((a, xs), (b, ys)):
        q = [t[0] for t in v]
        d = E.arr([x * E.pow2(f.F) for x in q], (2,), "object") if wide else E.arr(q, (2,), "float64")
        out.append((d, f))
    return out, r


def run_obj(E, case):
    op = case["op"]
    cfg = CFG[case["ci"]][0]
    rnd, sat = E.choice("mode", case["modes"])
    wide = max(sum(f) for f in cfg) > 53 or E.choice("wide", [False, True])
    xs, ys = vals(E, cfg, "a")
    (da, db), r = objects(E, cfg, xs, ys, wide)
    cls = E.pkg.WideFix if wide else E.pkg.NarrowFix
    s = Snap(E).take(*da, *db, r)
    cp = E.choice("copy", [True, False])
    o, p = E.call(cls, *da, cp), E.call(cls, *db, cp)
    s.take(o, p)
    rn, sa = rnd_of(E, rnd), sat_of(E, sat)
    a = da[1]
    res = []

    def twice(g):
        y = E.call(g)
        s.same("operands after the operation")
        z = E.call(g)
        same_result(E, z, y, "the same operation returns the same result")
        s.take(y)
        res.append(y)
    if op == "construct":
        twice(lambda: cls(da[0], a, cp))
    elif op in ("add", "sub", "mult"):
        twice(lambda: getattr(o, op)(p, r, rn, sa))
        if wide or sum(cfg[0]) + sum(cfg[1]) < 50:
            twice(lambda: getattr(o, op)(p))
    elif op == "addsub":
        twice(lambda: o.addsub(p, E.npbool([y[1] for y in ys], (2,)), r, rn, sa))
        twice(lambda: o.addsub(p, False, r, rn, sa))
    elif op == "shift":
        twice(lambda: o.shift(-3, r, rn, sa))
        twice(lambda: o.shift(2))
        n = E.arr([E.Q(1), E.Q(-2)], (2,), "int64")
        s.take(n)
        twice(lambda: o.shift(n, r, rn, sa))
    elif op in ("neg", "abs"):
        twice(lambda: getattr(o, op)(r, rn, sa))
        twice(lambda: getattr(o, op)())
    elif op == "round":
        t = E.call(E.pkg.FixFormat.for_round, a, r.F, rn)
        twice(lambda: o.round(t, rn))
        twice(lambda: o.round(a, rn))
    elif op == "saturate":
        t = mk(E, r.S, r.I, a.F)
        twice(lambda: o.saturate(t, sa))
        twice(lambda: o.saturate(a, sa))
    elif op == "resize":
        twice(lambda: o.resize(r, rn, sa))
        twice(lambda: o.resize(a, rn, sa))
    elif op == "op":
        twice(lambda: o + p)
        twice(lambda: o - p)
        if wide or sum(cfg[0]) + sum(cfg[1]) < 50:
            twice(lambda: o * p)
        twice(lambda: -o)
        twice(lambda: o << 2)
        E.check(len(o) == 2, "len()")
    elif op == "cmp":
        for f in (lambda: o == p, lambda: o != p, lambda: o < p, lambda: o <= p, lambda: o > p, lambda: o >= p):
            twice(f)
    elif op == "convert":
        if wide:
            twice(lambda: o.to_real(False))
            twice(lambda: o.to_uint64_array())
            u = o.to_uint64_array()
            s.take(u)
            twice(lambda: cls.from_uint64_array(u, a))
            if width(a) <= 53:
                n = E.call(E.pkg.NarrowFix, E.arr([x[0] for x in xs], (2,), "float64"), a)
                s.take(n)
                twice(lambda: cls.from_narrowfix(n))
        else:
            twice(lambda: o.to_integer())
            twice(lambda: cls.from_integer(o.to_integer(), a))
            twice(lambda: o.in_range(r, rn))
        twice(lambda: o.data)
        twice(lambda: o.fmt)
    else:
        if not wide:
            return
        lst = [o, p, E.call(cls, da[0], a)]
        s.take(lst)
        twice(lambda: cls.align_binary_points(lst))
        E.check(lst[0] is o and lst[1] is p, "the list of objects is unchanged")
    # results are used further
    for y in list(res):
        if type(y).__name__ in ("NarrowFix", "WideFix"):
            f = y.fmt
            t = mk(E, f.S, f.I, f.F - 1 if f.I + f.F > 1 else f.F)
            E.call(y.resize, t, rnd_of(E, "NonSymPos_s"), sat_of(E, "None_s"))
            E.call(y.resize, f)
            E.call(y.abs)
            E.call(y.neg)
            if wide:
                E.call(y.to_uint64_array)
                E.call(y.add, o)
    s.same("operands and earlier results after later operations")


def run_gen(E, case):
    op = case["op"]
    c1, c2 = CFG[case["ci"]]
    pk = E.pkg

    def calls(c):
        a, b, r = [mk(E, *f) for f in c]
        F = E.pkg.FixFormat
        rn = rnd_of(E, "SymInf_s")
        if op == "formats":
            sh = E.arr([E.Q(2), E.Q(-1)], (2,), "int64")
            fs = [a, b, r]
            return [(F.for_add, [a, b]), (F.for_sub, [a, b]), (F.for_addsub, [a, b]), (F.for_mult, [a, b]), (F.for_neg, [a]),
                    (F.for_abs, [a]), (F.for_shift, [a, -2, 3]), (F.for_shift, [a, 4]), (F.for_round, [a, r.F, rn]),
                    (F.union, [a, b]), (F.union, [fs]), (E.pkg.cl_fix_width, [a]), (E.pkg.cl_fix_is_wide, [a]),
                    (E.pkg.cl_fix_format_to_string, [a])]
        if op == "extremes":
            return [(E.pkg.cl_fix_max_value, [a]), (E.pkg.cl_fix_min_value, [a]), (E.pkg.cl_fix_max_value, [b]),
                    (E.pkg.cl_fix_min_value, [b]), (E.pkg.WideFix.max_value, [a]), (E.pkg.WideFix.min_value, [a])]
        if op == "zeros":
            return [(E.pkg.cl_fix_zeros, [[2, 1], a]), (E.pkg.cl_fix_zeros, [(2,), b])]
        if op == "random":
            return [(E.pkg.cl_fix_random, [[2, 1], a]), (E.pkg.cl_fix_random, [(2,), b])]
        return []
    if op == "write":
        return
    ref = [E.call(f, *a) for f, a in calls(c2)] if op != "random" else None
    refv = None if ref is None else [Snap(E).val(y) for y in ref]
    E.fresh()
    s = Snap(E)
    l1 = calls(c1)
    for f, a in l1:
        s.take(*a)
    y1 = [E.call(f, *a) for f, a in l1]
    s.same("arguments after the call")
    s.take(*y1)
    l2 = calls(c2)
    for f, a in l2:
        s.take(*a)
    y2 = [E.call(f, *a) for f, a in l2]
    if ref is not None:
        for y, v in zip(y2, refv):
            equal(E, Snap(E).val(y), v, "the result does not depend on earlier calls")
        for (f, a), y in zip(l1, y1):
            same_result(E, E.call(f, *a), y, "the same call returns the same result")
    s.same("arguments and earlier results after later calls")
