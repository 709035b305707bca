"""C30 Flattening and unflattening arrays are inverses"""
from vhdl.types import Arr, St
from vhdl.venv import TB

NEEDS = "vhdl"
DIRS = TB
FUNCTIONS = ["Numel", "Flatten", "Unflatten (procedure and function)", "all seven array types"]
BOUNDS = {"quick": "1..4 elements of 0, 1, 3, 8, 33 bits, first index -2, 0, 3, ascending and descending arrays and elements; flat vectors with four index ranges; all bit "
                   "patterns", "thorough": "0..8 elements of up to 100 bits"}
OUTSIDE = "metavalues in the data; longer arrays"
KINDS = {"slvarray_t": "slv", "sulvarray_t": "slv", "unsignedarray_t": "nsu", "signedarray_t": "nss", "bitvectorarray_t": "bv",
         "unsignedbitarray_t": "nbu", "signedbitarray_t": "nbs"}


def cases(tier, seed):
    return [dict(ty=t, n=n, tier=tier) for t in KINDS for n in (range(1, 5) if tier == "quick" else range(1, 9))]


def run(E, case):
    n = case["n"]
    ty = E.type(case["ty"], "en_tb_base_pkg")
    k = KINDS[case["ty"]]
    vt = E.ALL[k]
    w = E.choice("w", [0, 1, 3, 8, 33] if case["tier"] == "quick" else [0, 1, 2, 3, 7, 8, 32, 33, 100])
    lo = E.choice("lo", [-2, 0, 3])
    to = E.choice("to", [True, False])
    eto = E.choice("eto", [False, True])
    el, er = (0, w - 1) if eto else (w - 1, 0)
    est = St(ty.elem.ty, (el, er, eto))
    elems = [E.vec(f"x{i}", w, vt).rebound(el, er, eto) for i in range(n)]
    l, r = (lo, lo + n - 1) if to else (lo + n - 1, lo)
    x = Arr(ty, l, r, to, elems, est)
    m = E.call("numel", x, ret="int", pkg="en_tb_base_pkg")
    E.check(E.Q(m) == n * w, "number of elements")
    f = E.call("flatten", x, ret=k, pkg="en_tb_base_pkg")
    E.observe("flat", f)
    E.check(f.n == n * w, "flattened length")
    off = E.choice("off", [None, (0, True), (5, False), (2, True)])  # the same bits as a vector with other index bounds
    if off is not None and n * w:
        f = f.rebound(*((off[0], off[0] + n * w - 1) if off[1] else (off[0] + n * w - 1, off[0])), off[1])
    zero = Arr(ty, l, r, to, [E.const(vt, w, 0).rebound(el, er, eto)] * n, est)
    if E.choice("how", ["function", "procedure"]) == "function":
        y = E.call("unflatten", f, zero, ret=f"arr:{case['ty']}:{k}", pkg="en_tb_base_pkg")
    else:
        y = E.call("unflatten", f, [zero, St(ty, (l, r, to), est)], pkg="en_tb_base_pkg", proc=True)[1][0]
    E.observe("y", y)
    E.check((y.left, y.to, y.n) == (l, to, n), "index range")
    for i, (a, b) in enumerate(zip(y.lst, elems)):
        E.check(E.same(a, b), "unflattened element")
    g = E.call("flatten", y, ret=k, pkg="en_tb_base_pkg")
    E.check(E.same(g, f), "flattened again")
