"""Calls of the arithmetic functions and their exact meaning, and the concrete format tables."""
from .spec import *

BIN = ["add", "sub", "mult", "addsub"]
UN = ["neg", "abs"]


def exact(E, op, args):
    """exact value of the operation and a number of fractional bits that holds it"""
    x, a = args[0]
    if op in ("add", "sub", "mult", "addsub"):
        y, b = args[1]
        if op == "mult":
            return x * y, a.F + b.F
        F = a.F if E.dec(a.F >= b.F) else b.F
        if op == "add":
            return x + y, F
        if op == "sub":
            return x - y, F
        sel = args[2] if len(args) > 2 else True
        return E.ite(sel, x + y, x - y), F
    if op == "neg":
        return -x, a.F
    if op == "abs":
        return E.ite(x < 0, -x, x), a.F
    raise KeyError(op)


def call(E, op, args, r=None, rnd=None, sat=None, pos=True):
    f = getattr(E.pkg, "cl_fix_" + op)
    a = []
    for i, t in enumerate(args):
        if op == "addsub" and i == 2:
            a.append(t)
        else:
            a += [rep(E, t[0], t[1]), t[1]]
    if op == "addsub" and len(args) == 2:
        a.append(True)
    if r is not None:
        a.append(r)
        if rnd is not None:
            a.append(rnd_of(E, rnd))
            if sat is not None:
                a.append(sat_of(E, sat))
    return E.call(f, *a)


# (S,I,F) of argument and result: rounding and range reduction within and across representations
UNARY = [
    [(1, 3, 5), (1, 2, 3)], [(0, 4, 4), (1, 2, 2)], [(1, 4, 4), (0, 3, 1)], [(0, 8, 0), (0, 3, 0)],
    [(1, 20, 32), (1, 10, 12)], [(0, 0, 53), (0, 0, 20)], [(1, 0, 52), (0, 0, 52)], [(1, 52, 0), (1, 40, -6)],
    [(1, 40, 40), (1, 20, 20)], [(1, 60, 10), (1, 42, 10)], [(0, 64, 64), (1, 60, 60)], [(1, 20, 20), (1, 20, 60)],
    [(0, 26, 27), (1, 26, 27)], [(1, -4, 30), (1, -6, 20)], [(0, 30, -4), (0, 20, -8)], [(1, 127, 128), (0, 100, 64)],
    [(1, 30, 30), (1, 30, 22)], [(0, 60, 0), (1, 52, 0)], [(1, 1, 1), (1, 1, 0)], [(1, 2, 8), (0, 2, -1)],
]
# a, b, r
BINARY = [
    [(1, 3, 5), (1, 2, 4), (1, 2, 3)], [(0, 4, 4), (1, 2, 2), (0, 3, 2)], [(1, 20, 20), (0, 10, 22), (1, 15, 10)],
    [(1, 26, 26), (1, 26, 26), (1, 26, 26)], [(0, 0, 53), (0, 0, 53), (0, 1, 30)], [(1, 40, 20), (1, 3, 3), (1, 41, 12)],
    [(1, 3, 3), (1, 50, 20), (1, 20, 2)], [(0, 64, 0), (0, 0, 64), (1, 50, 2)], [(1, -3, 20), (1, 0, 10), (1, -2, 12)],
    [(0, 12, -4), (1, 8, 0), (1, 6, -2)], [(1, 52, 0), (0, 53, 0), (0, 53, 0)], [(1, 60, 60), (1, 50, 60), (0, 60, 40)],
    [(1, 0, 30), (1, 0, 30), (1, 0, 30)], [(0, 1, 0), (1, 0, 0), (1, 4, 4)],
]


def unary_cfgs(tier):
    return UNARY


def binary_cfgs(tier):
    return BINARY
