"""Symbolic Python / NumPy scalars and the builtins they meet."""
import builtins as _b
from fractions import Fraction
from . import num as N
from . import alg as A
from . import ctx as C
from .num import Lin, Unsupported

PYKINDS = ("int", "float", "bool")
NPKINDS = ("float64", "int64", "uint64", "bool_", "int32", "uint8", "float32")


class Sym:
    """scalar: kind in PYKINDS+NPKINDS; v is a Num (or Bool for bool kinds)"""
    __slots__ = ("kind", "v")
    __array_priority__ = 0

    def __init__(self, kind, v):
        self.kind = kind
        self.v = v

    # ---- identity-ish
    __hash__ = object.__hash__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return placeholder(self)

    def __str__(self):
        return placeholder(self)

    def __format__(self, spec):
        return placeholder(self)

    # ---- conversions
    def __bool__(self):
        return C.cur().decide(truth(self))

    def __index__(self):
        if self.kind in ("int", "int64", "uint64", "bool"):
            return C.cur().concretize(numof(self))
        raise TypeError("symbolic float used as an index")

    def __int__(self):
        return C.cur().concretize(A.trunc(numof(self)))

    def __float__(self):
        raise Unsupported("implicit float() of a symbolic value")

    def __floor__(self):
        return Sym("int", A.floor(numof(self)))

    def __ceil__(self):
        return Sym("int", A.ceil(numof(self)))

    def __trunc__(self):
        return Sym("int", A.trunc(numof(self)))

    def __round__(self, n=None):
        if n is not None and not (isinstance(n, int) and n == 0):
            raise Unsupported("round to digits")
        r = rint(numof(self))
        if self.kind in PYKINDS:
            return Sym("int" if n is None else self.kind, r)
        return Sym(self.kind if n is not None else "int", r)

    def is_integer(self):
        return Sym("bool", N.eq(A.floor(numof(self)), numof(self)))

    def bit_length(self):
        c = C.cur()
        x = numof(self)
        x = A.ite(N.lt(x, N.ZERO), N.neg(x), x)
        k = 0
        while not c.decide(N.lt(x, N.const(1 << k))):
            k += 1
        return k

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    # numpy-scalar attributes
    def __getattr__(self, name):
        if self.kind in PYKINDS or name.startswith("__"):
            raise AttributeError(name)
        from . import npshim as NP
        arr = NP.SymArray.scalar(self)
        at = getattr(arr, name)
        if callable(at):
            def f(*a, **k):
                r = at(*a, **k)
                if isinstance(r, NP.SymArray) and r.d.ndim == 0 and name not in ("reshape",):
                    return NP.unwrap0(r)
                return r
            return f
        if isinstance(at, NP.SymArray) and at.d.ndim == 0:
            return NP.unwrap0(at)
        return at

    class _Get:
        # Python numbers have no __getitem__ (NumPy scalars do)
        def __get__(self, x, owner):
            if x is None:
                return self
            if x.kind in PYKINDS:
                raise AttributeError("__getitem__")

            def get(k):
                if isinstance(k, tuple) and k == ():
                    return x
                from . import npshim as NP
                return NP.SymArray.scalar(x)[k]
            return get

    __getitem__ = _Get()

    # ---- arithmetic
    def __neg__(self):
        if self.kind in ("bool",):
            return Sym("int", N.neg(numof(self)))
        if self.kind == "uint64":
            return Sym("uint64", A.wrap(N.neg(self.v), 64, False))
        return Sym(self.kind, N.neg(numof(self)))

    def __pos__(self):
        return self

    def __abs__(self):
        x = numof(self)
        return Sym("int" if self.kind == "bool" else self.kind, A.ite(N.lt(x, N.ZERO), N.neg(x), x))

    def __invert__(self):
        if self.kind == "bool_":
            return Sym("bool_", N.bnot(self.v))
        return Sym("int" if self.kind == "bool" else self.kind, N.sub(N.neg(numof(self)), N.ONE))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)


def placeholder(s):
    """text stand-in for a symbolic value (mapped back by the string properties)"""
    c = C.cur()
    if N.is_const(numof(s)) and s.kind in ("int", "int64", "uint64"):
        return str(int(N.const_val(numof(s))))
    tab = c.notes.setdefault("placeholders", [])
    for i, q in enumerate(tab):
        if q is s:
            return f"\u27e6{i}\u27e7"
    tab.append(s)
    return f"\u27e6{len(tab) - 1}\u27e7"


def _mk(op, rop):
    def f(self, o):
        if not is_scalar(o):
            return NotImplemented
        return binop(op, self, o)

    def r(self, o):
        if not is_scalar(o):
            return NotImplemented
        return binop(op, o, self)
    return f, r


for _n, _op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"),
                ("pow", "**"), ("lshift", "<<"), ("rshift", ">>"), ("and", "&"), ("or", "|"), ("xor", "^")):
    _f, _r = _mk(_op, _op)
    setattr(Sym, f"__{_n}__", _f)
    setattr(Sym, f"__r{_n}__", _r)
for _n, _op in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
    def _c(self, o, _op=_op):
        if not is_scalar(o):
            if _op in ("==", "!=") and (o is None or isinstance(o, (str, tuple, type))):
                return _op == "!="
            return NotImplemented
        return compare(_op, self, o)
    setattr(Sym, f"__{_n}__", _c)


def is_scalar(o):
    return isinstance(o, (Sym, int, float, Fraction))


def lift(o):
    if isinstance(o, Sym):
        return o
    if isinstance(o, bool):
        return Sym("bool", N.bconst(o))
    if isinstance(o, int):
        return Sym("int", N.const(o))
    if isinstance(o, float):
        if o != o or o in (float("inf"), float("-inf")):
            raise Unsupported("inf/nan")
        return Sym("float", N.const(o))
    if isinstance(o, Fraction):
        return Sym("int", N.const(o))
    raise TypeError(f"unsupported operand {type(o)}")


def numof(o):
    o = lift(o)
    if o.kind in ("bool", "bool_"):
        return A.b2i(o.v)
    return o.v


def truth(o):
    o = lift(o)
    if o.kind in ("bool", "bool_"):
        return o.v
    return N.bnot(N.eq(o.v, N.ZERO))


RANK = {"bool": 0, "bool_": 0, "int": 1, "uint8": 2, "int32": 3, "int64": 4, "uint64": 4, "float": 6, "float64": 6}


def result_kind(a, b):
    """kind of an arithmetic result"""
    if a in PYKINDS and b in PYKINDS:
        if "float" in (a, b):
            return "float"
        return "int"
    if a in NPKINDS and b in NPKINDS:
        if a == b:
            return a
        s = {a, b}
        if "float64" in s:
            return "float64"
        if s == {"int64", "uint64"}:
            return "float64"
        for k in ("uint64", "int64", "int32", "uint8", "bool_"):
            if k in s:
                return k
    np_, py = (a, b) if a in NPKINDS else (b, a)
    if py == "float":
        return "float64"
    if py == "int" and np_ == "bool_":
        return "int64"
    return np_


def is_float(k):
    return k in ("float", "float64")


def conv(s, kind):
    """value conversion s -> kind (NumPy/Python casting rules), returns Sym"""
    s = lift(s)
    k = s.kind
    if k == kind:
        return s
    if kind in ("bool", "bool_"):
        return Sym(kind, truth(s))
    v = numof(s)
    if is_float(kind):
        return Sym(kind, v if is_float(k) else A.round53(v))
    if is_float(k):
        v = A.trunc(v)
    if kind == "int64":
        v = A.wrap(v, 64, True)
    elif kind == "uint64":
        v = A.wrap(v, 64, False)
    elif kind == "int32":
        v = A.wrap(v, 32, True)
    elif kind == "uint8":
        v = A.wrap(v, 8, False)
    elif kind != "int":
        raise Unsupported("conversion to " + kind)
    return Sym(kind, v)


def finish(kind, v):
    """apply the result kind's finite precision to the exact value v"""
    if is_float(kind):
        return Sym(kind, A.round53(v))
    if kind == "int64":
        return Sym(kind, A.wrap(v, 64, True))
    if kind == "uint64":
        return Sym(kind, A.wrap(v, 64, False))
    if kind == "int32":
        return Sym(kind, A.wrap(v, 32, True))
    if kind == "uint8":
        return Sym(kind, A.wrap(v, 8, False))
    return Sym(kind, v)


def rint(x):
    """round half to even"""
    f = A.floor(x)
    r = N.sub(x, f)
    if not r.t:
        return f
    h = N.const(Fraction(1, 2))
    odd = N.eq(A.modpow2(f, Lin((), 1)), N.ONE)
    up = N.bor(N.lt(h, r), N.band(N.eq(r, h), odd))
    return N.add(f, A.b2i(up))


def binop(op, a, b):
    a, b = lift(a), lift(b)
    if op in ("&", "|", "^"):
        return bitop(op, a, b)
    k = result_kind(a.kind, b.kind)
    if op in ("+", "*") and a.kind == "bool_" and b.kind == "bool_":
        return Sym("bool_", N.bor(a.v, b.v) if op == "+" else N.band(a.v, b.v))
    if op == "-" and a.kind == "bool_" and b.kind == "bool_":
        raise TypeError("numpy boolean subtract")
    if op == "**":
        return power(a, b, k)
    if op in ("<<", ">>"):
        if is_float(a.kind) or is_float(b.kind):
            raise TypeError(f"unsupported operand type(s) for {op}")
        if k in ("bool", "bool_"):
            k = "int" if k == "bool" else "int64"
        return shift(op, a, b, k)
    # operands are converted to the result kind first (int -> double rounds)
    if k in ("float", "float64"):
        if op == "/" and not is_float(a.kind) and not is_float(b.kind):
            pass
        else:
            a, b = conv(a, k), conv(b, k)
    if k == "bool_":
        k = "int64" if op in ("//", "%") else "float64"
    x, y = numof(a), numof(b)
    if k in ("uint64", "int64"):
        # Python int operands must fit the NumPy type (NEP 50)
        pass
    if op == "+":
        return finish(k, N.add(x, y))
    if op == "-":
        return finish(k, N.sub(x, y))
    if op == "*":
        return finish(k, N.mul(x, y))
    if op == "/":
        fk = "float" if k in ("int", "float", "bool") else "float64"
        if k not in ("int", "float", "bool"):      # NumPy true division converts first
            x, y = numof(conv(a, "float64")), numof(conv(b, "float64"))
        return Sym(fk, divide(x, y, True))
    if op == "//":
        if is_float(k):
            return finish(k, A.floor(divide(x, y, False)))
        return finish(k, floordiv(x, y))
    if op == "%":
        return finish(k, modulo(x, y))
    raise Unsupported("operator " + op)


def divide(x, y, rnd):
    if N.is_const(y) and not y.t:
        raise ZeroDivisionError("division by zero")
    q = A.divide(x, y)
    if q is None:
        if N.is_const(x) and N.is_const(y):
            f = N.const_val(x) / N.const_val(y)
            if rnd:
                return N.const(Fraction(float(f)))
        raise Unsupported("division by a symbolic or non power-of-two value")
    return A.round53(q) if rnd else q


def floordiv(x, y):
    if N.is_const(y) and not y.t:
        raise ZeroDivisionError("division by zero")
    q = A.divide(x, y)
    if q is not None:
        return A.floor(q)
    if N.is_const(y):
        n = N.const_val(y)
        if n.denominator == 1 and n > 0:
            return A.divc(x, int(n))
        if n.denominator == 1 and n < 0:
            return A.divc(N.neg(x), int(-n))
    l = N.as_lin(y)
    if l is not None:
        return floordiv(x, N.const(C.cur().concretize(y)))
    z = _split(y)
    if z is not None:
        return floordiv(x, z)
    raise Unsupported("integer division by a symbolic value")


def _split(y):
    """a divisor such as (1+S)*2**k: fork over the values of the control variables among its factors if they are few"""
    ctx = C.cur()
    d = N.const(0)
    hit = False
    for (a, l), c in y.t.items():
        z = N.mknum({(None, l): c})
        if a is not None:
            if a.kind != "cvar":
                return None
            n = N.as_lin(N.from_atom(a))
            if ctx.maxlin(n) - ctx.minlin(n) > 4:
                return None
            z = N.mul(z, N.const(ctx.concretize(N.from_atom(a))))
            hit = True
        d = N.add(d, z)
    return d if hit else None


def modulo(x, y):
    if N.is_const(y) and not y.t:
        raise ZeroDivisionError("modulo by zero")
    e = N.as_pow2(y)
    if e is not None:
        return A.modpow2(x, e)
    if N.is_const(y):
        return N.sub(x, N.mul(y, floordiv(x, y)))
    l = N.as_lin(y)
    if l is not None:
        return modulo(x, N.const(C.cur().concretize(y)))
    z = _split(y)
    if z is not None:
        return modulo(x, z)
    raise Unsupported("modulo by a symbolic value")


def exponent(y):
    """Lin for an integer exponent Num (concretized when not linear)"""
    l = N.as_lin(y)
    if l is None:
        l = Lin((), C.cur().concretize(y))
    return C.cur().reduce(l)


def power(a, b, k):
    x, y = numof(a), numof(b)
    c = C.cur()
    if N.is_const(x) and N.is_const(y) and a.kind in PYKINDS and b.kind in PYKINDS:
        xv, yv = N.const_val(x), N.const_val(y)
        if yv.denominator == 1:
            if k == "int" and yv < 0:
                return Sym("float", N.const(Fraction(float(xv) ** int(yv))))
            if k == "int":
                return Sym("int", N.const(int(xv) ** int(yv)))
            return Sym("float", N.const(Fraction(float(xv) ** int(yv))))
    e = N.as_pow2(x)
    s = 1
    if not N.is_const(y) and N.as_lin(y) is None and not A.is_integer(y):
        raise Unsupported("fractional exponent")
    if N.is_const(y) and N.const_val(y).denominator != 1:
        raise Unsupported("fractional exponent")
    if k in ("int", "bool", "int64", "uint64") or not is_float(k):
        neg = c.decide(N.lt(y, N.ZERO))
        if neg:
            if k in PYKINDS:
                k = "float"
            else:
                raise ValueError("Integers to negative integer powers are not allowed.")
        if k == "bool":
            k = "int"
    if e is None or e.t or (e.c not in (0, 1)):
        n = c.concretize(y)
        if n < 0:
            q = A.divide(N.ONE, npow(x, -n))
            if q is None:
                raise Unsupported("negative power")
            return finish(k, q)
        return finish(k, npow(x, n))
    if e.c == 0:
        return finish(k, N.ONE)
    return finish(k, N.pow2(exponent(y)))


def npow(x, n):
    r = N.ONE
    for _ in range(n):
        r = N.mul(r, x)
    return r


def shift(op, a, b, k):
    x, y = numof(a), numof(b)
    c = C.cur()
    if c.decide(N.lt(y, N.ZERO)):
        if k in PYKINDS:
            raise ValueError("negative shift count")
        raise Unsupported("negative shift of a NumPy integer")
    e = exponent(y)
    if k in ("int64", "uint64") and not c.lin_ge0(e.neg().addc(63)):
        if c.decide(N.lt(N.const(63), N.from_lin(e))):
            if op == "<<":
                return Sym(k, N.ZERO)
            return Sym(k, A.ite(N.lt(x, N.ZERO), N.const(-1), N.ZERO))
    if op == "<<":
        return finish(k, N.mulpow2(x, e))
    return finish(k, A.floor(N.mulpow2(x, e.neg())))


def bitop(op, a, b):
    if a.kind in ("bool", "bool_") and b.kind in ("bool", "bool_"):
        k = "bool" if a.kind == b.kind == "bool" else "bool_"
        return Sym(k, {"&": N.band, "|": N.bor, "^": lambda x, y: N.bnot(N.beq(x, y))}[op](a.v, b.v))
    k = result_kind(a.kind, b.kind)
    if is_float(k):
        raise TypeError(f"unsupported operand type(s) for {op}")
    x, y = numof(a), numof(b)
    if N.is_const(x) and N.is_const(y):
        p, q = int(N.const_val(x)), int(N.const_val(y))
        return Sym(k, N.const({"&": p & q, "|": p | q, "^": p ^ q}[op]))
    if op == "&":
        for p, q in ((x, y), (y, x)):
            e = N.as_pow2(N.add(q, N.ONE))
            if e is not None:
                return Sym(k, A.modpow2(p, e))
            if N.is_const(q) and not q.t:
                return Sym(k, N.ZERO)
    if x.id > y.id:
        x, y = y, x
    nm = {"&": "and", "|": "or", "^": "xor"}[op]
    return finish(k, N.from_atom(N.mkatom("bitop", nm, x, y)))


def compare(op, a, b):
    a, b = lift(a), lift(b)
    kb = "bool" if a.kind in PYKINDS and b.kind in PYKINDS else "bool_"
    x, y = numof(a), numof(b)
    # Python compares int with float exactly; NumPy converts to double first
    if a.kind in NPKINDS or b.kind in NPKINDS:
        k = result_kind(a.kind, b.kind)
        if is_float(k):
            x, y = numof(conv(a, k)), numof(conv(b, k))
    if op == "<":
        v = N.lt(x, y)
    elif op == "<=":
        v = N.le(x, y)
    elif op == ">":
        v = N.lt(y, x)
    elif op == ">=":
        v = N.le(y, x)
    elif op == "==":
        v = N.eq(x, y)
    else:
        v = N.bnot(N.eq(x, y))
    return Sym(kb, v)


def select(c, x, y):
    """if-then-else on scalars of equal kind (Bool c)"""
    if c.kind == "const":
        return x if c.args[0] else y
    x, y = lift(x), lift(y)
    if x.kind != y.kind:
        k = result_kind(x.kind, y.kind)
        if x.kind in PYKINDS and y.kind in PYKINDS:
            return x if C.cur().decide(c) else y
        x, y = conv(x, k), conv(y, k)
    if x.kind in ("bool", "bool_"):
        return Sym(x.kind, N.bite(c, x.v, y.v))
    return Sym(x.kind, A.ite(c, x.v, y.v))


# ------------------------------------------------------------------------------------------------
# builtins seen by the code under test
# ------------------------------------------------------------------------------------------------
class _MetaInt(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, Sym) and x.kind in ("int", "bool"))

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class ShimInt(metaclass=_MetaInt):
    def __new__(cls, x=0, base=None):
        if isinstance(x, str):
            return int(x, base) if base is not None else int(x)
        if isinstance(x, Sym):
            return Sym("int", A.trunc(numof(x)))
        from . import npshim as NP
        if isinstance(x, NP.SymArray):
            if x.d.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return ShimInt(x.d.reshape(-1)[0])
        if isinstance(x, int):
            return int(x)
        if isinstance(x, float):
            return int(x)
        if hasattr(x, "__int__"):
            return x.__int__()
        raise TypeError("int() argument")

    @staticmethod
    def from_bytes(*a, **k):
        raise Unsupported("int.from_bytes")


class _MetaFloat(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, Sym) and x.kind in ("float", "float64"))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class ShimFloat(metaclass=_MetaFloat):
    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return Sym("float", numof(conv(x, "float")))
        from . import npshim as NP
        if isinstance(x, NP.SymArray):
            if x.d.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return ShimFloat(x.d.reshape(-1)[0])
        return float(x)


class _MetaBool(type):
    def __instancecheck__(cls, x):
        return isinstance(x, bool) or (isinstance(x, Sym) and x.kind == "bool")

    def __eq__(cls, o):
        return o is cls or o is bool

    def __hash__(cls):
        return hash(bool)


class ShimBool(metaclass=_MetaBool):
    def __new__(cls, x=False):
        if isinstance(x, Sym):
            return Sym("bool", truth(x))
        return bool(x)


def _flatargs(a, k):
    if len(a) == 1:
        a = list(a[0])
        if not a:
            if "default" in k:
                return None
            raise ValueError("empty")
    return list(a)


def _pick(a, k, op):
    key = k.get("key")
    l = _flatargs(a, k)
    if l is None:
        return k["default"]
    r = l[0]
    for x in l[1:]:
        p, q = (key(x), key(r)) if key else (x, r)
        if key is None and is_scalar(p) and is_scalar(q):
            s = compare(op, p, q)
            if s.v.kind == "const":
                r = x if s.v.args[0] else r
            elif N.is_control(s.v) or lift(p).kind != lift(q).kind:
                r = x if C.cur().decide(s.v) else r
            else:
                r = select(s.v, x, r)
        else:
            r = x if ((p > q) if op == ">" else (p < q)) else r
    return r


def s_max(*a, **k):
    return _pick(a, k, ">")


def s_min(*a, **k):
    return _pick(a, k, "<")


def s_abs(x):
    return x.__abs__()


def s_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def s_any(it):
    for x in it:
        if x:
            return True
    return False


def s_all(it):
    for x in it:
        if not x:
            return False
    return True


def s_round(x, n=None):
    if isinstance(x, Sym):
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, range)


class s_range(metaclass=_RangeMeta):
    def __new__(cls, *a):
        if all(type(x) is int for x in a):
            return range(*a)
        a = [x if type(x) is int else x for x in a]
        if len(a) == 1:
            lo, hi, st = 0, a[0], 1
        elif len(a) == 2:
            lo, hi, st = a[0], a[1], 1
        else:
            lo, hi, st = a
        lo, hi, st = [x if type(x) is int else x.__index__() for x in (lo, hi, st)]
        return range(lo, hi, st)


def s_divmod(a, b):
    return (a // b, a % b)


def s_pow(a, b, m=None):
    if m is not None:
        raise Unsupported("three-argument pow")
    return a ** b


_type = type


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)


class s_type(metaclass=_TypeMeta):
    def __new__(cls, *a):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, Sym):
                if x.kind in PYKINDS:
                    return {"int": ShimInt, "float": ShimFloat, "bool": ShimBool}[x.kind]
                from . import npshim as NP
                return getattr(NP, x.kind)
            t = type(x)
            return {int: ShimInt, float: ShimFloat, bool: ShimBool}.get(t, t)
        return type(*a)


def s_len(x):
    return len(x)


_PYT = {"int": 0, "float": 0.0, "bool": True}


def s_hasattr(x, name):
    if isinstance(x, Sym) and x.kind in PYKINDS:
        return hasattr(_PYT[x.kind], name)
    return hasattr(x, name)


_NODEF = object()


def s_getattr(x, name, default=_NODEF):
    if isinstance(x, Sym) and not s_hasattr(x, name):
        if default is _NODEF:
            raise AttributeError(name)
        return default
    return getattr(x, name) if default is _NODEF else getattr(x, name, default)


def s_iter(x, *a):
    if isinstance(x, Sym):
        raise TypeError("object is not iterable")
    return iter(x, *a)


def make_builtins(importer):
    d = dict(_b.__dict__)
    d.update(int=ShimInt, float=ShimFloat, bool=ShimBool, max=s_max, min=s_min, abs=s_abs, sum=s_sum,
             any=s_any, all=s_all, round=s_round, range=s_range, divmod=s_divmod, pow=s_pow, type=s_type, hasattr=s_hasattr, iter=s_iter, getattr=s_getattr,
             __import__=importer)
    return d
