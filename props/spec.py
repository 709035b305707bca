"""Reference semantics, written once for symbolic (engine.symenv) and concrete (replay.conenv) use.

Everything here is exact rational arithmetic on the represented real values; nothing is taken from
the code under test except the FixFormat fields S, I, F and the mode names."""
from fractions import Fraction

HALF = Fraction(1, 2)
RNDS = ["Trunc_s", "NonSymPos_s", "NonSymNeg_s", "SymInf_s", "SymZero_s", "ConvEven_s", "ConvOdd_s"]
SATS = ["None_s", "Warn_s", "Sat_s", "SatWarn_s"]
WIDE = 53


def rnd_of(E, name):
    return getattr(E.pkg.FixRound, name)


def sat_of(E, name):
    return getattr(E.pkg.FixSaturate, name)


def width(f):
    return f.S + f.I + f.F


def is_wide(E, f):
    return E.dec(width(f) > WIDE)


def mk(E, S, I, F):
    return E.call(E.pkg.FixFormat, S, I, F)


def fmt(E, name, I=(-20, 80), F=(-20, 80), w=(1, 72), S=None):
    """an arbitrary valid format (fields symbolic within the bounds)"""
    s = E.int(name + "S", 0, 1) if S is None else S
    i = E.int(name + "I", *I)
    f = E.int(name + "F", *F)
    E.assume(i + f >= 0)
    E.assume(s + i + f >= w[0])
    E.assume(s + i + f <= w[1])
    return mk(E, s, i, f)


def vmax(E, f):
    return E.pow2(f.I) - E.pow2(-f.F)


def vmin(E, f):
    return -E.pow2(f.I) if E.dec(f.S == 1) else E.Q(0)


def value(E, name, f):
    """an arbitrary exact value of format f"""
    hi = E.pow2(f.I + f.F) - 1
    lo = -E.pow2(f.I + f.F) if E.dec(f.S == 1) else E.Q(0)
    m = E.mant(name, lo, hi, [f.I + f.F])
    return m * E.pow2(-f.F)


def rep(E, qs, f, shape=None):
    """data representation of exact values qs: list -> array of the shape; single -> 1-element array"""
    single = not isinstance(qs, list)
    if single:
        qs = [qs]
    shape = (len(qs),) if shape is None else shape
    if is_wide(E, f):
        return E.arr([q * E.pow2(f.F) for q in qs], shape, "object")
    return E.arr(qs, shape, "float64")


def rep_scalar(E, q, f):
    """Python scalar representation"""
    if is_wide(E, f):
        return E.scalar(q * E.pow2(f.F), "int")
    return E.scalar(q, "float")


def unrep(E, x, f, label="result"):
    """exact values of library data x in format f; the representation itself is checked"""
    t, k = E.dtype(x)
    if is_wide(E, f):
        if k not in ("object", "int"):
            E.fail(f"{label}: wide data has type {t} {k}")
        if t == "array" and E.elemkinds(x) not in (["int"], []):
            E.fail(f"{label}: wide data holds {E.elemkinds(x)}")
        s = E.pow2(-f.F)
        return [e * s for e in E.elems(x)]
    if k not in ("float64", "float"):
        E.fail(f"{label}: narrow data has type {t} {k}")
    return E.elems(x)


def in_fmt(E, q, f):
    """q is representable in f"""
    return E.and_(q <= vmax(E, f), q >= vmin(E, f), E.is_int(q * E.pow2(f.F)))


def spec_round(E, q, aF, rF, rnd):
    """value q (a multiple of 2**-aF) rounded to rF fractional bits"""
    if E.dec(rF >= aF):
        return q
    x = q * E.pow2(rF)
    if rnd == "Trunc_s":
        r = E.floor(x)
    elif rnd == "NonSymPos_s":
        r = E.floor(x + HALF)
    elif rnd == "NonSymNeg_s":
        r = E.ceil(x - HALF)
    elif rnd == "SymInf_s":
        r = E.ite(x >= 0, E.floor(x + HALF), E.ceil(x - HALF))
    elif rnd == "SymZero_s":
        r = E.ite(x >= 0, E.ceil(x - HALF), E.floor(x + HALF))
    else:
        # nearest; ties to even / odd
        f = E.floor(x)
        d = x - f
        tie_up = E.odd(f) if rnd == "ConvEven_s" else E.not_(E.odd(f))
        r = f + E.ite(E.or_(d > HALF, E.and_(d == HALF, tie_up)), 1, 0)
    return r * E.pow2(-rF)


def fits(E, q, f):
    return E.and_(q <= vmax(E, f), q >= vmin(E, f))


def spec_sat(E, q, f, sat):
    """q (a multiple of 2**-f.F) clipped or wrapped into f"""
    lo, hi = vmin(E, f), vmax(E, f)
    if sat in ("Sat_s", "SatWarn_s"):
        return E.ite(q > hi, hi, E.ite(q < lo, lo, q))
    return E.mod2(q - lo, f.I + f.S) + lo


def spec_resize(E, q, aF, f, rnd, sat):
    return spec_sat(E, spec_round(E, q, aF, f.F, rnd), f, sat)
