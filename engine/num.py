"""Exact symbolic numbers.

A Num is an exact dyadic-rational valued expression in normal form

        sum_i  c_i * atom_i * 2**lin_i

where c_i is a dyadic rational, atom_i an integer-valued atom (or the unit) and lin_i a linear
integer expression over *control* variables (format fields, shift amounts...).  Nothing here
rounds: rounding of floating point operations is inserted explicitly as an Rne atom by pyval.py.
"""
from fractions import Fraction


class Unsupported(Exception):
    """The code under test left the fragment that the encoder models (never a verdict)."""


# ------------------------------------------------------------------------------------------------
# Linear expressions over control variables: (frozen tuple of (name, coef)), const
# ------------------------------------------------------------------------------------------------
class Lin:
    __slots__ = ("t", "c", "_h")

    def __init__(self, t=(), c=0):
        self.t = t
        self.c = c
        self._h = hash((t, c))

    @staticmethod
    def var(name):
        return Lin(((name, 1),), 0)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def add(self, o):
        if not o.t:
            return Lin(self.t, self.c + o.c) if o.c else self
        if not self.t:
            return Lin(o.t, self.c + o.c)
        d = dict(self.t)
        for k, v in o.t:
            n = d.get(k, 0) + v
            if n:
                d[k] = n
            else:
                d.pop(k, None)
        return Lin(tuple(sorted(d.items())), self.c + o.c)

    def scale(self, k):
        if k == 1:
            return self
        if k == 0:
            return Lin()
        return Lin(tuple((n, v * k) for n, v in self.t), self.c * k)

    def neg(self):
        return self.scale(-1)

    def sub(self, o):
        return self.add(o.scale(-1))

    def addc(self, c):
        return Lin(self.t, self.c + c) if c else self

    def is_const(self):
        return not self.t

    def __repr__(self):
        s = "+".join((n if v == 1 else f"{v}*{n}") for n, v in self.t)
        return f"{s}{self.c:+d}" if s else str(self.c)


L0 = Lin()


# ------------------------------------------------------------------------------------------------
# Atoms (hash-consed)
# ------------------------------------------------------------------------------------------------
class Atom:
    __slots__ = ("id", "kind", "args")
    table = {}

    def __repr__(self):
        return f"{self.kind}#{self.id}"

    def __lt__(self, o):
        return self.id < o.id


def mkatom(kind, *args):
    k = (kind,) + tuple(args)
    a = Atom.table.get(k)
    if a is None:
        a = Atom()
        a.id = len(Atom.table)
        a.kind = kind
        a.args = args
        Atom.table[k] = a
    return a


def reset_atoms():
    Atom.table.clear()
    Num.table.clear()
    Bool.table.clear()


def _pow2exp(fr):
    """exponent k when fr == 2**k else None"""
    n, d = fr.numerator, fr.denominator
    if n <= 0:
        return None
    if n & (n - 1):
        return None
    if n > 1 and d > 1:
        return None
    return n.bit_length() - 1 if d == 1 else -(d.bit_length() - 1)


def dy_min_exp(fr):
    """largest k with 2**k dividing the dyadic fr"""
    n, d = fr.numerator, fr.denominator
    if d > 1:
        return -(d.bit_length() - 1)
    return (n & -n).bit_length() - 1


class Num:
    """terms: dict {(atom|None, lintuple): Fraction}; interned."""
    __slots__ = ("t", "id", "_key")
    table = {}

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        def at(a):
            return "" if a is None else repr(a) + "*"
        return " + ".join(f"{c}*{at(a)}2^({Lin(l, 0)})" for (a, l), c in self.t.items()) or "0"


def mknum(d):
    d = {k: v for k, v in d.items() if v}
    key = frozenset(d.items())
    n = Num.table.get(key)
    if n is None:
        n = Num()
        n.t = d
        n.id = len(Num.table)
        n._key = key
        Num.table[key] = n
    return n


def const(v):
    if isinstance(v, float):
        v = Fraction(v)
    else:
        v = Fraction(v)
    if v.denominator & (v.denominator - 1):
        raise Unsupported(f"non-dyadic constant {v}")
    return mknum({(None, ()): v})


def cvar(name):
    return mknum({(mkatom("cvar", name), ()): Fraction(1)})


def from_atom(a):
    return mknum({(a, ()): Fraction(1)})


def pow2(lin):
    c = Fraction(1 << lin.c) if lin.c >= 0 else Fraction(1, 1 << -lin.c)
    return mknum({(None, lin.t): c})


def add(x, y):
    if not y.t:
        return x
    if not x.t:
        return y
    d = dict(x.t)
    for k, v in y.t.items():
        n = d.get(k)
        d[k] = v if n is None else n + v
    return mknum(d)


def neg(x):
    return mknum({k: -v for k, v in x.t.items()})


def sub(x, y):
    return add(x, neg(y))


def scale(x, c):
    c = Fraction(c)
    return mknum({k: v * c for k, v in x.t.items()})


def mulpow2(x, lin):
    """x * 2**lin"""
    if lin.is_const():
        return scale(x, Fraction(1 << lin.c) if lin.c >= 0 else Fraction(1, 1 << -lin.c))
    c = Fraction(1 << lin.c) if lin.c >= 0 else Fraction(1, 1 << -lin.c)
    L = Lin(lin.t, 0)
    d = {}
    for (a, l), v in x.t.items():
        k = (a, Lin(l, 0).add(L).t)
        d[k] = d.get(k, 0) + v * c
    return mknum(d)


def is_const(x):
    return not x.t or (len(x.t) == 1 and (None, ()) in x.t)


def const_val(x):
    return x.t.get((None, ()), Fraction(0)) if x.t else Fraction(0)


def mul(x, y):
    if is_const(x):
        return scale(y, const_val(x))
    if is_const(y):
        return scale(x, const_val(y))
    d = {}
    for (a, l), v in x.t.items():
        for (b, m), w in y.t.items():
            if a is None:
                p = b
            elif b is None:
                p = a
            else:
                p = mkmul(a, b)
            k = (p, Lin(l, 0).add(Lin(m, 0)).t)
            d[k] = d.get(k, 0) + v * w
    return mknum(d)


def mkmul(a, b):
    fa = a.args if a.kind == "mul" else (a,)
    fb = b.args if b.kind == "mul" else (b,)
    f = sorted(fa + fb, key=lambda q: q.id)
    return mkatom("mul", *f)


def as_pow2(x):
    """Lin e when x == 2**e syntactically, else None"""
    if len(x.t) != 1:
        return None
    ((a, l), c), = x.t.items()
    if a is not None:
        return None
    k = _pow2exp(c)
    if k is None:
        return None
    return Lin(l, k)


def as_lin(x):
    """x as a linear control expression with integer coefficients, else None"""
    c = 0
    d = {}
    for (a, l), v in x.t.items():
        if l or v.denominator != 1:
            return None
        if a is None:
            c = int(v)
        elif a.kind == "cvar":
            d[a.args[0]] = int(v)
        else:
            return None
    return Lin(tuple(sorted(d.items())), c)


def from_lin(l):
    d = {}
    for n, v in l.t:
        d[(mkatom("cvar", n), ())] = Fraction(v)
    if l.c:
        d[(None, ())] = Fraction(l.c)
    return mknum(d)


def term_lins(x):
    """list of Lin exponents (coefficient's power of two included) of the terms of x"""
    return [Lin(l, dy_min_exp(c)) for (a, l), c in x.t.items()]


ZERO = const(0)
ONE = const(1)


# ------------------------------------------------------------------------------------------------
# Booleans (interned)
# ------------------------------------------------------------------------------------------------
class Bool:
    __slots__ = ("kind", "args", "id", "_neg", "_ctl")
    table = {}

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f"{self.kind}{self.args}"


def _mkb(kind, *args):
    k = (kind,) + args
    b = Bool.table.get(k)
    if b is None:
        b = Bool()
        b.kind = kind
        b.args = args
        b.id = len(Bool.table)
        b._neg = None
        b._ctl = None
        Bool.table[k] = b
    return b


def bconst(v):
    return _mkb("const", bool(v))


def bvar(name):
    return _mkb("bvar", name)


def _norm_sign(d):
    """try to decide the sign of d syntactically: returns -1,0,1 or None"""
    if not d.t:
        return 0
    if all(a is None for (a, l) in d.t):
        if all(c > 0 for c in d.t.values()):
            return 1
        if all(c < 0 for c in d.t.values()):
            return -1
    return None


def _pow2cmp(d):
    """d == p*2^L1 - q*2^L2 with p,q powers of two: return Lin L1-L2 (sign-equivalent)"""
    if len(d.t) != 2:
        return None
    (k1, c1), (k2, c2) = d.t.items()
    if k1[0] is not None or k2[0] is not None:
        return None
    if c1 < 0:
        (k1, c1), (k2, c2) = (k2, c2), (k1, c1)
    if c1 <= 0 or c2 >= 0:
        return None
    e1, e2 = _pow2exp(c1), _pow2exp(-c2)
    if e1 is None or e2 is None:
        return None
    return Lin(k1[1], e1).sub(Lin(k2[1], e2))


def _strip(d):
    """canonical scaling (sign preserving): the first atom's exponent becomes zero, so that
    comparisons that differ by a power of two are one and the same"""
    if len(d.t) == 0:
        return d
    ks = [k for k in d.t if k[0] is not None] or list(d.t)
    pa, pl = min(ks, key=lambda k: (k[0].id if k[0] is not None else -1, k[1]))
    if not pl:
        return d
    return mulpow2(d, Lin(pl, 0).neg())


def cmp0(op, d):
    """op in '<','<=','==' ; d <op> 0"""
    s = _norm_sign(d)
    if s is not None:
        return bconst({"<": s < 0, "<=": s <= 0, "==": s == 0}[op])
    if is_const(d):
        v = const_val(d)
        return bconst({"<": v < 0, "<=": v <= 0, "==": v == 0}[op])
    l = _pow2cmp(d)
    if l is not None:
        d = from_lin(l)
        if is_const(d):
            return cmp0(op, d) if d.t else bconst(op != "<")
    d = _strip(d)
    # scale to primitive integer coefficients
    k = min(dy_min_exp(c) for c in d.t.values())
    if k:
        d = mulpow2(d, Lin((), -k))
    lin = as_lin(d)
    if lin is not None:
        if op == "<":          # integer:  d < 0  <=>  d+1 <= 0
            return cmp0("<=", add(d, ONE))
    if op == "==":
        # canonical sign
        k0 = min(d.t.items(), key=lambda kv: ((kv[0][0].id if kv[0][0] else -1), kv[0][1]))
        if k0[1] < 0:
            d = neg(d)
    return _mkb(op, d)


def lt(x, y):
    return cmp0("<", sub(x, y))


def le(x, y):
    return cmp0("<=", sub(x, y))


def eq(x, y):
    return cmp0("==", sub(x, y))


def bnot(b):
    if b._neg is None:
        if b.kind == "const":
            r = bconst(not b.args[0])
        elif b.kind == "<":
            r = cmp0("<=", neg(b.args[0]))
        elif b.kind == "<=":
            r = cmp0("<", neg(b.args[0]))
        elif b.kind == "not":
            r = b.args[0]
        else:
            r = _mkb("not", b)
        b._neg = r
        if r._neg is None:
            r._neg = b
    return b._neg


def band(*bs):
    out = []
    for b in bs:
        if b.kind == "const":
            if not b.args[0]:
                return b
            continue
        for q in (b.args if b.kind == "and" else (b,)):
            if q not in out:
                out.append(q)
    for q in out:
        if bnot(q) in out:
            return bconst(False)
    if not out:
        return bconst(True)
    if len(out) == 1:
        return out[0]
    return _mkb("and", *sorted(out, key=lambda q: q.id))


def bor(*bs):
    return bnot(band(*[bnot(b) for b in bs]))


def bite(c, x, y):
    if c.kind == "const":
        return x if c.args[0] else y
    return bor(band(c, x), band(bnot(c), y))


def beq(x, y):
    if x is y:
        return bconst(True)
    return bor(band(x, y), band(bnot(x), bnot(y)))


def is_control(b):
    """decidable over control variables alone"""
    if b._ctl is None:
        if b.kind == "const":
            r = True
        elif b.kind in ("<", "<=", "=="):
            r = as_lin(b.args[0]) is not None
        elif b.kind == "bvar":
            r = False
        else:
            r = all(is_control(q) for q in b.args)
        b._ctl = r
    return b._ctl
