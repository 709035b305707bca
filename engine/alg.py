"""Algebra on Num that needs path knowledge (floor, modulo, if-then-else, 53-bit rounding)."""
from fractions import Fraction
from . import num as N
from .num import Lin, Unsupported
from . import ctx as C


def floor(x):
    c = C.cur()
    ints, rest = {}, {}
    for k, v in x.t.items():
        a, l = k
        tl = Lin(l, N.dy_min_exp(v))
        if c.lin_ge0(tl):
            ints[k] = v
        else:
            rest[k] = v
    if not rest:
        return x
    r = N.mknum(rest)
    i = N.mknum(ints)
    if N.is_const(r):
        v = N.const_val(r)
        return N.add(i, N.const(v.numerator // v.denominator))
    # split constants: floor(x + 5/4) = floor(x + 1/4) + 1
    if (None, ()) in rest:
        v = rest[(None, ())]
        f = v.numerator // v.denominator
        if f:
            rest[(None, ())] = v - f
            r = N.mknum(rest)
            i = N.add(i, N.const(f))
    # unresolved sign of an exponent: decide it now when every term has the same linear part
    base = c.minbase(N.term_lins(r))
    if c.lin_ge0(base):
        return N.add(i, r)
    if not c.lin_ge0(base.neg()):
        if c.decide(N.le(N.ZERO, N.from_lin(base))):
            return N.add(i, r)
        return floor(N.add(i, r))
    # a term 2**lin with lin < 0 alone, positive: floor = 0
    if len(rest) == 1:
        ((a, l), v), = rest.items()
        if a is None and 0 < v and c.lin_ge0(Lin(l, 0).neg().addc(-_ceil_log2(v) - 1)):
            return i
        if a is not None and a.kind == "floor" and N._pow2exp(v) is not None:
            # floor(floor(y) * 2**-k) = floor(y * 2**-k)
            e = Lin(l, N._pow2exp(v))
            if c.lin_ge0(e.neg()):
                return N.add(i, floor(N.mulpow2(a.args[0], e)))
    return N.add(i, N.from_atom(N.mkatom("floor", r)))


def _ceil_log2(v):
    e = N._pow2exp(v)
    if e is not None:
        return e
    n, d = v.numerator, v.denominator
    return n.bit_length() - (d.bit_length() - 1)


def ceil(x):
    return N.neg(floor(N.neg(x)))


def trunc(x):
    return ite(N.lt(x, N.ZERO), ceil(x), floor(x))


def is_integer(x):
    """True when x is integer valued by construction on this path"""
    c = C.cur()
    return all(c.lin_ge0(Lin(l, N.dy_min_exp(v))) for (a, l), v in x.t.items())


def ite(b, x, y):
    if b.kind == "const":
        return x if b.args[0] else y
    if x is y:
        return x
    c = C.cur()
    if b in c.factset:
        return x
    if N.bnot(b) in c.factset:
        return y
    if N.is_control(b):
        if not c.ctl_possible(b):
            return y
        if not c.ctl_possible(N.bnot(b)):
            return x
    # common part
    common = {k: v for k, v in x.t.items() if y.t.get(k) == v}
    xr = N.mknum({k: v for k, v in x.t.items() if k not in common})
    yr = N.mknum({k: v for k, v in y.t.items() if k not in common})
    lins = N.term_lins(xr) + N.term_lins(yr)
    base = c.minbase(lins)
    nb = base.neg()
    X, Y = N.mulpow2(xr, nb), N.mulpow2(yr, nb)
    # canonical polarity
    nbool = N.bnot(b)
    if nbool.id < b.id:
        b, X, Y = nbool, Y, X
    a = N.from_atom(N.mkatom("ite", b, X, Y))
    return N.add(N.mknum(common), N.mulpow2(a, base))


def b2i(b):
    return ite(b, N.ONE, N.ZERO)


def modpow2(x, k):
    """x mod 2**k (result in [0, 2**k)), x any dyadic Num, k Lin"""
    c = C.cur()
    keep = {}
    for key, v in x.t.items():
        a, l = key
        tl = Lin(l, N.dy_min_exp(v))
        if c.lin_ge0(tl.sub(k)):
            continue                       # multiple of 2**k
        keep[key] = v
    r = N.mknum(keep)
    if not r.t:
        return N.ZERO
    base = c.minbase(N.term_lins(r))
    if c.lin_ge0(base.sub(k)):
        return N.ZERO
    if not c.lin_ge0(k.sub(base)):
        if c.decide(N.le(N.from_lin(k), N.from_lin(base))):
            return N.ZERO
        return modpow2(r, k)
    M = N.mulpow2(r, base.neg())
    kk = c.reduce(k.sub(base))
    # drop inner mods:  (y mod 2**j) == y  (mod 2**k)  when j >= k
    changed = False
    acc = {}
    extra = N.ZERO
    for key, v in M.t.items():
        a, l = key
        if a is not None and a.kind == "mod":
            tl = Lin(l, N.dy_min_exp(v))
            if c.lin_ge0(a.args[1].add(tl).sub(kk)):
                t = N.mknum({(None, l): v})
                extra = N.add(extra, N.mul(a.args[0], t))
                changed = True
                continue
        acc[key] = v
    if changed:
        return N.mulpow2(modpow2(N.add(N.mknum(acc), extra), kk), base)
    if N.is_const(M) and kk.is_const():
        v = N.const_val(M)
        return N.mulpow2(N.const(int(v) % (1 << kk.c)), base)
    if kk.is_const() and kk.c == 1:
        # parity: odd coefficients count once, an odd constant flips
        t, one = {}, False
        for key, v in M.t.items():
            if key[1] == () and v.denominator == 1:
                if key[0] is None:
                    one = int(v) % 2 == 1
                    continue
                v = Fraction(1) if int(v) % 2 else None
            if v is not None:
                t[key] = v
        M = N.mknum(t)
        p = N.from_atom(N.mkatom("mod", M, kk)) if M.t else N.ZERO
        return N.mulpow2(N.sub(N.ONE, p) if one else p, base)
    a = N.mkatom("mod", M, kk)
    return N.mulpow2(N.from_atom(a), base)


def divc(x, n):
    """floor(x / n) for an integer Num x and a positive int n"""
    if n & (n - 1) == 0:
        return floor(scale_down(x, n.bit_length() - 1))
    if N.is_const(x):
        v = N.const_val(x)
        return N.const((v / n).__floor__())
    # pull out multiples
    q, r = {}, {}
    for k, v in x.t.items():
        if v.denominator == 1 and int(v) % n == 0 and not k[1]:
            q[k] = v / n
        else:
            r[k] = v
    return N.add(N.mknum(q), N.from_atom(N.mkatom("divc", N.mknum(r), n)) if r else N.ZERO)


def scale_down(x, k):
    return N.mulpow2(x, Lin((), -k))


def divide(x, y):
    """exact x / y for y a power of two, else None"""
    e = N.as_pow2(y)
    if e is not None:
        return N.mulpow2(x, e.neg())
    e = N.as_pow2(N.neg(y))
    if e is not None:
        return N.neg(N.mulpow2(x, e.neg()))
    return None


LIM53 = 1 << 53


BIG = 1 << 40


def magbound(x, off, depth=0):
    """upper bound (Fraction) of |x * 2**off|; off Lin; None when unknown"""
    c = C.cur()
    tot = Fraction(0)
    for (a, l), v in x.t.items():
        b = _magatom(a, Lin(l, 0).add(off), depth)
        if b is None:
            return None
        tot += abs(v) * b
    return tot


def _p2(l):
    e = C.cur().maxlin(l)
    return Fraction(1 << e) if e >= 0 else Fraction(1, 1 << -e)


def _magatom(a, off, depth):
    """upper bound of |atom * 2**off|"""
    c = C.cur()
    if a is None:
        return _p2(off)
    k, g = a.kind, a.args
    if k == "var":
        return min(_p2(off.add(w)) for w in c.vars[g[0]]["wl"])
    if k == "cvar":
        lo, hi = c.box[g[0]]
        return _p2(off) * max(abs(lo), abs(hi))
    if depth > 30:
        return None
    if k == "floor":
        b = magbound(g[0], off, depth + 1)
        return None if b is None else b + _p2(off)
    if k == "ite":
        x, y = magbound(g[1], off, depth + 1), magbound(g[2], off, depth + 1)
        return None if x is None or y is None else max(x, y)
    if k == "mod":
        b = _p2(off.add(g[1]))
        return b
    if k == "rne":
        b = magbound(g[0], off, depth + 1)
        return None if b is None else b * (1 + Fraction(1, 1 << 52))
    if k == "mul":
        if len(g) != 2:
            return None
        p, q = g
        if p.kind == "var" and q.kind == "var":
            return min(_p2(off.add(w).add(u)) for w in c.vars[p.args[0]]["wl"] for u in c.vars[q.args[0]]["wl"])
        b1, b2 = _magatom(p, N.L0, depth + 1), _magatom(q, off, depth + 1)
        return None if b1 is None or b2 is None else b1 * b2
    if k == "divc":
        b = magbound(g[0], off, depth + 1)
        return None if b is None else b + _p2(off)
    return None


def maglins(x, off, depth=0):
    """Lins e_i with |x * 2**off| <= sum 2**e_i, or None"""
    out = []
    for (a, l), v in x.t.items():
        r = _maglin(a, Lin(l, 0).add(off), depth)
        if r is None:
            return None
        k = _ceil_log2(abs(v))
        out += [e.addc(k) for e in r]
        if len(out) > 12:
            return None
    return out


def _maglin(a, off, depth):
    c = C.cur()
    if a is None:
        return [off]
    if depth > 6:
        return None
    k, g = a.kind, a.args
    if k == "var":
        return [off.add(c.vars[g[0]]["wl"][0])]
    if k in ("floor", "divc"):
        r = maglins(g[0], off, depth + 1)
        return None if r is None else r + [off]
    if k == "mod":
        return [off.add(g[1])]
    if k == "ite":
        x, y = maglins(g[1], off, depth + 1), maglins(g[2], off, depth + 1)
        return None if x is None or y is None else x + y
    if k == "cvar":
        lo, hi = c.box[g[0]]
        return [off.addc(max(abs(lo), abs(hi)).bit_length())]
    if k == "mul" and len(g) == 2:
        x, y = _maglin(g[0], N.L0, depth + 1), _maglin(g[1], off, depth + 1)
        if x is None or y is None or len(x) > 1 or len(y) > 1:
            return None
        return [x[0].add(y[0])]
    return None


def magnitude_ok(x, base):
    """sufficient test for |x * 2**-base| <= 2**53; may fork on control conditions"""
    c = C.cur()
    b = magbound(x, base.neg())
    if b is not None and b <= LIM53:
        return True
    es = maglins(x, base.neg())
    if es is None:
        return False
    es = [c.reduce(e) for e in dict.fromkeys(es)]
    n = (len(es) - 1).bit_length() if len(es) > 1 else 0
    # few terms: allow each 2**(53-n)
    conds = []
    for e in es:
        q = N.le(N.from_lin(e), N.const(53 - n))
        if not c.ctl_possible(q):
            return False
        conds.append(q)
    for q in conds:
        if not c.decide(q):
            return False
    return True


def round53(x):
    """the double nearest to x (ties to even); exponent range is bounded by the drivers"""
    if N.is_const(x):
        v = N.const_val(x)
        f = Fraction(float(v))
        return x if f == v else N.const(f)
    c = C.cur()
    if not x.t:
        return x
    # a single power of two / single small atom is exact
    base = c.minbase(N.term_lins(x))
    if len(x.t) == 1 and next(iter(x.t))[0] is None:
        return x
    b = magbound(x, base.neg())
    if b is not None and b <= LIM53:
        return x
    M = N.mulpow2(x, base.neg())
    lim = N.const(LIM53)
    if not c.maybe(N.bnot(N.le(M, lim))) and not c.maybe(N.bnot(N.le(N.neg(lim), M))):
        c.stats.obligations += 1
        c.stats.discharged += 1
        return x
    if magnitude_ok(x, base):
        return x
    c.settle_all(N.cmp0("<=", x))
    base = c.minbase(N.term_lins(x))
    key = (c.pcd, "r53", x.id)
    r = c.cache.get(key)
    if r is None:
        r = _round53(c, x, base)
        c.cache[key] = r
    return r


def _round53(c, x, base):
    c.stats.obligations += 1
    M = N.mulpow2(x, base.neg())
    from .lower import Lowering
    v = Lowering(c).int(M)
    if max(abs(v.lo), abs(v.hi)) <= LIM53:
        return x
    R = N.from_atom(N.mkatom("rne", M))
    ok, _ = c.valid(N.eq(M, R), cube=False, timeout=1.0)
    if ok:
        c.stats.discharged += 1
        return x
    return N.mulpow2(R, base)


def wrap(x, bits, signed):
    """two's complement wrap of an integer Num unless it provably fits"""
    c = C.cur()
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if N.is_const(x):
        v = int(N.const_val(x))
        if lo <= v <= hi:
            return x
        v %= 1 << bits
        if signed and v > hi:
            v -= 1 << bits
        return N.const(v)
    fits = N.band(N.le(N.const(lo), x), N.le(x, N.const(hi)))
    c.stats.obligations += 1
    ok, _ = c.valid(fits, timeout=2.0)
    if ok:
        c.stats.discharged += 1
        return x
    k = Lin((), bits)
    if signed:
        h = N.const(1 << (bits - 1))
        return N.sub(modpow2(N.add(x, h), k), h)
    return modpow2(x, k)
