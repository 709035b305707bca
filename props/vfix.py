"""Shared parts of the VHDL property drivers: format grids, argument vectors with arbitrary index ranges, oracles on bits.

The formats are concrete (a structured grid); every bit of the data is symbolic."""
from vhdl.venv import Fmt, W
from .spec import RNDS, SATS, HALF, spec_round, spec_sat, spec_resize, vmax, vmin, fits, in_fmt

SHAPES = [("dt", 0), ("to", 0), ("dt", 5), ("to", 3)]


def vector(E, name, f, shape=("dt", 0)):
    """arbitrary bits of format f as std_logic_vector with the index range, and their exact value"""
    n = W(f)
    v = E.vec(name, n)
    q = E.value(v, f)
    d, off = shape
    if d == "to":
        v = E.reshape(v, off, True)
    elif off:
        v = E.reshape(v, n - 1 + off, False)
    return v, q


def check_bits(E, y, q, f, label):
    """y holds exactly the value q of format f (two's complement / binary, full width)"""
    E.check(y.n == W(f), f"{label}: width of the result")
    E.check(E.bits_eq(y, q * E.pow2(f.F)), label)


def ok(f):
    return W(f) >= 1 and f.I + f.F >= 0


def round_fmt(a, rF, rnd):
    """the documented rounding format (judged against Python by C21)"""
    I = a.I + (1 if rF < a.F and rnd != "Trunc_s" else 0)
    if a.S + I + rF < 1:
        I = -a.S - rF + 1
    return Fmt(a.S, I, rF)


def afmts(ws, fs):
    """operand formats: both signs, widths ws, fractional bits fs (binary point inside, left and right of the bits)"""
    return [Fmt(s, w - s - f, f) for s in (0, 1) for w in ws for f in fs if w - s >= 0]


def drops(w):
    """changes of the number of fractional bits: growing, equal, dropping one bit, some, all, more than all"""
    return sorted({-2, -1, 0, 1, 2, w - 2, w - 1, w, w + 1, w + 3})


def rfmts(a, rF):
    """result formats with rF fractional bits, around the range of a: narrower, equal, wider, both signs, minimal"""
    out = []
    for s in (0, 1):
        for I in sorted({a.I - 2, a.I - 1, a.I, a.I + 1, a.I + 2, -rF, -rF + 1, 1 - rF - s}):
            f = Fmt(s, I, rF)
            if ok(f) and f not in out:
                out.append(f)
    return out


def exf2(f):
    return f"({f.S},{f.I},{f.F})"
