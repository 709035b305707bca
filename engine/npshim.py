"""The subset of NumPy that fixed-point code can meet, over symbolic scalars.

An array is a real NumPy *object* ndarray of scalars (so shapes, views, broadcasting and indexing
are NumPy's own) plus a dtype tag which decides the arithmetic.  Anything outside the subset raises
Unsupported, which is never a verdict.
"""
import math as _math
import numpy as _np
from fractions import Fraction
from . import num as N
from . import alg as A
from . import ctx as C
from . import pyval as P
from .num import Unsupported
from .pyval import Sym

_PYK = {"int": "int64", "float": "float64", "bool": "bool_"}


# ------------------------------------------------------------------------------------------------
# dtypes
# ------------------------------------------------------------------------------------------------
class _DTMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.kind in cls.kinds
        if isinstance(x, float) and "float64" in cls.kinds and cls is not float64:
            return False
        return type.__instancecheck__(cls, x)

    def __call__(cls, x=0, *a):
        if not hasattr(cls, "kind") or cls.kind is None:
            return type.__call__(cls, x, *a)
        if isinstance(x, SymArray):
            r = x.astype(cls.kind)
            return unwrap0(r) if r.d.ndim == 0 else r
        if isinstance(x, (list, tuple)):
            return array(x, dtype=cls.kind)
        if isinstance(x, str):
            x = float(x) if cls.kind == "float64" else int(x)
        if cls.kind == "object":
            return x
        return tokind(x, cls.kind)

    def __eq__(cls, o):
        if cls is o:
            return True
        if isinstance(o, (str, DType)) or o in (int, float, bool, object):
            return False if o in (int, float, bool, object) else False
        return False

    def __hash__(cls):
        return type.__hash__(cls)


class generic(metaclass=_DTMeta):
    kinds = ("float64", "int64", "uint64", "bool_", "int32", "uint8", "float32")
    kind = None


class number(generic):
    kinds = ("float64", "int64", "uint64", "int32", "uint8", "float32")
    kind = None


class integer(number):
    kinds = ("int64", "uint64", "int32", "uint8")
    kind = None


class signedinteger(integer):
    kinds = ("int64", "int32")
    kind = None


class unsignedinteger(integer):
    kinds = ("uint64", "uint8")
    kind = None


class floating(number):
    kinds = ("float64", "float32")
    kind = None


class float64(floating):
    kinds = ("float64",)
    kind = "float64"


class float32(floating):
    kinds = ("float32",)
    kind = "float32"


class int64(signedinteger):
    kinds = ("int64",)
    kind = "int64"


class int32(signedinteger):
    kinds = ("int32",)
    kind = "int32"


class uint64(unsignedinteger):
    kinds = ("uint64",)
    kind = "uint64"


class uint8(unsignedinteger):
    kinds = ("uint8",)
    kind = "uint8"


class bool_(generic):
    kinds = ("bool_",)
    kind = "bool_"


class object_(generic):
    kinds = ()
    kind = "object"


double = float_ = float64
int_ = intp = longlong = int64
uint = ulonglong = uint64
newaxis = None
pi = _math.pi
inf = float("inf")
nan = float("nan")

_CLS = {"float64": float64, "float32": float32, "int64": int64, "int32": int32, "uint64": uint64, "uint8": uint8,
        "bool_": bool_, "object": object_}
_KCHAR = {"float64": "f", "float32": "f", "int64": "i", "int32": "i", "uint64": "u", "uint8": "u", "bool_": "b",
          "object": "O"}
_SIZE = {"float64": 8, "float32": 4, "int64": 8, "int32": 4, "uint64": 8, "uint8": 1, "bool_": 1, "object": 8}
_ALIAS = {"float": "float64", "double": "float64", "f8": "float64", "int": "int64", "i8": "int64", "bool": "bool_",
          "O": "object", "u8": "uint64", "i4": "int32", "u1": "uint8", "d": "float64", "f": "float32",
          "object_": "object", "float_": "float64", "int_": "int64"}


def kindof(dt):
    if dt is None:
        return "float64"
    if isinstance(dt, DType):
        return dt.kindname
    if isinstance(dt, str):
        dt = dt.lstrip("<>=|")
        dt = _ALIAS.get(dt, dt)
        if dt in _CLS:
            return dt
        raise Unsupported("dtype " + dt)
    if dt is float or dt is P.ShimFloat:
        return "float64"
    if dt is int or dt is P.ShimInt:
        return "int64"
    if dt is bool or dt is P.ShimBool:
        return "bool_"
    if dt is object:
        return "object"
    if isinstance(dt, type) and issubclass(dt, generic) and dt.kind:
        return dt.kind
    raise Unsupported(f"dtype {dt!r}")


class DType:
    def __init__(self, k):
        self.kindname = k

    @property
    def kind(self):
        return _KCHAR[self.kindname]

    @property
    def char(self):
        return {"object": "O", "float64": "d", "int64": "l", "uint64": "L", "bool_": "?"}.get(self.kindname, "?")

    @property
    def name(self):
        return "bool" if self.kindname == "bool_" else self.kindname

    @property
    def type(self):
        return _CLS[self.kindname]

    @property
    def itemsize(self):
        return _SIZE[self.kindname]

    @property
    def hasobject(self):
        return self.kindname == "object"

    def __eq__(self, o):
        try:
            return kindof(o) == self.kindname if o is not None else self.kindname == "float64"
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.kindname)

    def __repr__(self):
        return f"dtype('{self.name}')"

    def __str__(self):
        return self.name


def dtype(x):
    return DType(kindof(x))


def issubdtype(a, b):
    k = kindof(a) if not (isinstance(a, type) and issubclass(a, generic) and a.kind is None) else None
    c = b if isinstance(b, type) and issubclass(b, generic) else _CLS[kindof(b)]
    if k is None:
        return issubclass(a, c)
    return issubclass(_CLS[k], c)


def tokind(x, k):
    """element x as an element of an array of kind k"""
    if k == "object":
        if isinstance(x, Sym):
            if x.kind == "float64":
                return Sym("float", x.v)
            if x.kind == "bool_":
                return Sym("bool", x.v)
            if x.kind in ("int64", "uint64", "int32", "uint8"):
                return Sym("int", x.v)
        return x
    if isinstance(x, SymArray):
        if x.d.size != 1:
            raise ValueError("setting an array element with a sequence.")
        x = x.d.reshape(-1)[0]
    if not P.is_scalar(x):
        if x is None and k == "float64":
            raise Unsupported("None in float array")
        raise TypeError(f"cannot convert {type(x)} to {k}")
    s = P.lift(x)
    if k in ("int64", "uint64", "int32", "uint8") and s.kind in ("int",):
        lo, hi = {"int64": (-2**63, 2**63 - 1), "uint64": (0, 2**64 - 1), "int32": (-2**31, 2**31 - 1), "uint8": (0, 255)}[k]
        x = P.numof(s)
        if not C.cur().decide(N.band(N.le(N.const(lo), x), N.le(x, N.const(hi)))):
            raise OverflowError(f"Python int too large to convert to {k}")
        return Sym(k, x)
    if k == "float32":
        raise Unsupported("float32")
    return P.conv(s, k)


def pykind(x):
    """kind of an array made from the scalar x"""
    k = P.lift(x).kind
    if k == "int":
        # big Python ints become uint64 / object
        v = P.numof(x)
        c = C.cur()
        if c.decide(N.band(N.le(N.const(-2**63), v), N.le(v, N.const(2**63 - 1)))):
            return "int64"
        if c.decide(N.band(N.le(N.ZERO, v), N.le(v, N.const(2**64 - 1)))):
            return "uint64"
        return "object"
    return _PYK.get(k, k)


_PROM = ["bool_", "uint8", "int32", "int64", "uint64", "float64", "object"]


def promote(ks):
    r = ks[0]
    for k in ks[1:]:
        if r == k:
            continue
        s = {r, k}
        if "object" in s:
            r = "object"
        elif "float64" in s:
            r = "float64"
        elif s in ({"int64", "uint64"}, {"int32", "uint64"}):
            r = "float64"
        elif "float32" in s:
            raise Unsupported("float32")
        else:
            r = max(r, k, key=_PROM.index)
    return r


def unwrap0(a):
    """what a NumPy ufunc returns for a 0-d result"""
    if a.d.ndim:
        return a
    return a.d[()]


def obj(shape):
    return _np.empty(shape, dtype=object)


def fill(shape, it):
    d = obj(shape)
    f = d.reshape(-1)
    i = -1
    for i, x in enumerate(it):
        f[i] = x
    return f.reshape(shape) if d.ndim else _mk0(f[0])


def _mk0(x):
    d = obj(())
    d[()] = x
    return d


class _Flat:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, i):
        r = self.a.d.flat[_idx(i)]
        if isinstance(r, _np.ndarray):
            return SymArray(r, self.a.k)
        return r

    def __setitem__(self, i, v):
        self.a.d.flat[_idx(i)] = tokind(v, self.a.k)

    def __iter__(self):
        return iter(list(self.a.d.reshape(-1)))

    def __len__(self):
        return self.a.d.size


def _idx(i):
    if isinstance(i, tuple):
        return tuple(_idx(q) for q in i)
    if isinstance(i, Sym):
        return C.cur().decide(i.v) if i.kind in ("bool", "bool_") else i.__index__()
    if isinstance(i, SymArray):
        if i.k == "bool_":
            b = obj(i.d.shape)
            for q in _np.ndindex(i.d.shape):
                b[q] = C.cur().decide(i.d[q].v)
            return b.astype(bool)
        return i.d.astype(object) if False else _np.array([int(q.__index__()) for q in i.d.reshape(-1)], dtype=int).reshape(i.d.shape)
    if isinstance(i, list):
        return [_idx(q) for q in i]
    if isinstance(i, slice):
        return slice(*[(_idx(q) if q is not None else None) for q in (i.start, i.stop, i.step)])
    return i


class SymArray:
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, d, k):
        self.d = d
        self.k = k

    @staticmethod
    def scalar(s):
        s = P.lift(s)
        return SymArray(_mk0(s), s.kind if s.kind in P.NPKINDS else _PYK[s.kind])

    # attributes
    @property
    def dtype(self):
        return DType(self.k)

    @property
    def shape(self):
        return self.d.shape

    @shape.setter
    def shape(self, s):
        self.d.shape = s

    @property
    def ndim(self):
        return self.d.ndim

    @property
    def size(self):
        return self.d.size

    @property
    def T(self):
        return SymArray(self.d.T, self.k)

    @property
    def flat(self):
        return _Flat(self)

    @property
    def real(self):
        return self

    @property
    def itemsize(self):
        return _SIZE[self.k]

    @property
    def nbytes(self):
        return _SIZE[self.k] * self.d.size

    @property
    def base(self):
        return self.d.base

    @property
    def flags(self):
        return self.d.flags

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        if self.d.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self.d)):
            yield self[i]

    def __getitem__(self, i):
        r = self.d[_idx(i)]
        if isinstance(r, _np.ndarray):
            return SymArray(r, self.k)
        return r

    def __setitem__(self, i, v):
        i = _idx(i)
        if isinstance(v, (list, tuple)):
            v = array(v)
        if isinstance(v, SymArray):
            v = v.astype(self.k).d if v.k != self.k else v.d
            if v.ndim == 0:
                v = v[()]
        else:
            v = tokind(v, self.k)
        if isinstance(v, _np.ndarray):
            self.d[i] = v
        else:
            t = self.d[i]
            if isinstance(t, _np.ndarray):
                b = obj(t.shape)
                for q in _np.ndindex(t.shape):
                    b[q] = v
                self.d[i] = b
            else:
                self.d[i] = v

    # conversions
    def __bool__(self):
        if self.d.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.d.reshape(-1)[0])

    def __int__(self):
        if self.d.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return P.ShimInt(self.d.reshape(-1)[0])

    def __float__(self):
        raise Unsupported("implicit float() of an array")

    def __index__(self):
        if self.d.ndim or self.k not in ("int64", "uint64", "int32", "uint8", "object"):
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self.d[()].__index__()

    def item(self, *a):
        if a:
            r = self.d.item(*a)
        else:
            if self.d.size != 1:
                raise ValueError("can only convert an array of size 1 to a Python scalar")
            r = self.d.reshape(-1)[0]
        return tokind(r, "object")

    def tolist(self):
        if self.d.ndim == 0:
            return tokind(self.d[()], "object")
        return [x.tolist() if isinstance(x, SymArray) else tokind(x, "object") for x in self]

    def astype(self, dt, copy=True, **kw):
        k = kindof(dt)
        if k == self.k and not copy:
            return self
        r = obj(self.d.shape)
        for q in _np.ndindex(self.d.shape):
            x = self.d[q]
            if k != self.k:
                if self.k == "object" and k != "object":
                    x = tokind(x, k)
                else:
                    x = tokind(x, k)
            r[q] = x
        return SymArray(r, k)

    def copy(self, order="C"):
        return SymArray(self.d.copy(), self.k)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a):
        if a and kindof(a[0]) != self.k:
            raise Unsupported("reinterpreting view")
        return SymArray(self.d.view(), self.k)

    def reshape(self, *s, order="C"):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        s = tuple(_idx(x) for x in s)
        return SymArray(self.d.reshape(s), self.k)

    def ravel(self, order="C"):
        return SymArray(self.d.ravel(), self.k)

    def flatten(self, order="C"):
        return SymArray(self.d.flatten(), self.k)

    def squeeze(self, axis=None):
        return SymArray(self.d.squeeze(axis), self.k)

    def transpose(self, *a):
        return SymArray(self.d.transpose(*a), self.k)

    def swapaxes(self, a, b):
        return SymArray(self.d.swapaxes(a, b), self.k)

    def repeat(self, *a, **k):
        return SymArray(self.d.repeat(*a, **k), self.k)

    def fill(self, v):
        self[...] = v

    def setflags(self, **k):
        self.d.setflags(**k)

    def any(self, axis=None, **k):
        return any(self, axis, **k)

    def all(self, axis=None, **k):
        return all(self, axis, **k)

    def max(self, axis=None, **k):
        return max(self, axis, **k)

    def min(self, axis=None, **k):
        return min(self, axis, **k)

    def sum(self, axis=None, **k):
        return sum(self, axis, **k)

    def prod(self, axis=None, **k):
        return prod(self, axis, **k)

    def clip(self, lo=None, hi=None, **k):
        return clip(self, lo, hi)

    def round(self, decimals=0, **k):
        return round(self, decimals)

    def dot(self, o):
        return dot(self, o)

    def conj(self):
        return self

    def tobytes(self):
        raise Unsupported("tobytes")

    def __repr__(self):
        return "array(" + str(self) + ")"

    def __str__(self):
        return str(self.tolist())

    def __format__(self, spec):
        return str(self)

    # operators
    def __neg__(self):
        return ufunc1(lambda x: -x, self)

    def __pos__(self):
        return ufunc1(lambda x: x, self)

    def __abs__(self):
        return abs(self)

    def __invert__(self):
        return ufunc1(lambda x: ~x, self)

    def __contains__(self, x):
        return bool(any(self == x))

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    __hash__ = None


ndarray = SymArray


def asarr(x, dtype=None):
    if isinstance(x, SymArray):
        return x if dtype is None else x.astype(dtype, copy=False)
    return array(x, dtype=dtype)


def weak(x):
    """Python scalars are weakly typed (NEP 50)"""
    return (type(x) in (int, float, bool)) or (isinstance(x, Sym) and x.kind in P.PYKINDS)


def _bop(op, x, y, k):
    """elementwise op; k: object -> Python semantics, else NumPy semantics with kind k operands"""
    if k == "object":
        if op in P_CMP:
            r = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
                 "==": lambda: x == y, "!=": lambda: x != y}[op]()
            return r
        return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "//": lambda: x // y,
                "%": lambda: x % y, "**": lambda: x ** y, "<<": lambda: x << y, ">>": lambda: x >> y,
                "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}[op]()
    x, y = P.lift(x), P.lift(y)
    if op in P_CMP:
        r = P.compare(op, x, y)
        return Sym("bool_", r.v)
    return P.binop(op, x, y)


P_CMP = ("<", "<=", ">", ">=", "==", "!=")


def operands(xs):
    """-> (list of (data ndarray, is scalar), common kind)"""
    ks = []
    ds = []
    weaks = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = array(x)
        if isinstance(x, SymArray):
            ks.append(x.k)
            ds.append(x.d)
        elif P.is_scalar(x):
            if weak(x):
                weaks.append(P.lift(x).kind)
            else:
                ks.append(P.lift(x).kind)
            ds.append(_mk0(x))
        else:
            ks.append("object")
            ds.append(_mk0(x))
    if not ks:
        k = promote([pykind(d[()]) for d in ds])
        return ds, k
    k = promote(ks)
    for w in weaks:
        if w == "float" and k not in ("object", "float64"):
            k = "float64"
        elif w == "int" and k == "bool_":
            k = "int64"
    return ds, k


def ew(f, ds, shape=None):
    """elementwise f over broadcast object arrays"""
    bs = _np.broadcast_arrays(*ds, subok=False)
    shp = bs[0].shape
    r = obj(shp)
    for q in _np.ndindex(shp):
        r[q] = f(*[b[q] for b in bs])
    return r


def _cast_in(x, k):
    if k == "object":
        return tokind(x, "object")
    s = P.lift(x)
    if s.kind == k:
        return s
    return tokind(s, k)


def ufunc2(op, a, b):
    ds, k = operands((a, b))
    if k == "object":
        r = ew(lambda x, y: _bop(op, tokind(x, "object"), tokind(y, "object"), "object"), ds)
        if op in P_CMP:
            r = ew(lambda z: Sym("bool_", P.truth(z) if P.is_scalar(z) else N.bconst(bool(z))), [r])
            return unwrap0(SymArray(r, "bool_"))
        return unwrap0(SymArray(r, "object"))
    if op in P_CMP:
        # comparing NumPy ints with Python ints is exact
        r = ew(lambda x, y: _bop(op, x, y, k), ds)
        return unwrap0(SymArray(r, "bool_"))
    if op == "/" and k != "float64":
        kk = "float64"
    else:
        kk = k
    if op in ("&", "|", "^", "<<", ">>") and k == "float64":
        raise TypeError("ufunc not supported for the input types")
    if op == "**" and k == "bool_":
        kk = k = "uint8"

    def f(x, y):
        x, y = P.lift(x), P.lift(y)
        x = _cast_in(x, kk if kk != "bool_" else k)
        y = _cast_in(y, kk if kk != "bool_" else k)
        r = P.binop(op, x, y)
        if r.kind in P.PYKINDS:
            r = Sym(_PYK[r.kind], r.v)
        return r
    r = ew(f, ds)
    rk = r.reshape(-1)[0].kind if r.size else kk
    return unwrap0(SymArray(r, rk))


def ufunc1(f, a, k=None):
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(a, SymArray):
        r = ew(f, [a.d])
        rk = a.k
        if rk != "object":
            rk = r.reshape(-1)[0].kind if r.size else rk
            rk = _PYK.get(rk, rk)
            r = ew(lambda x: Sym(rk, P.conv(x, rk).v), [r])
        return unwrap0(SymArray(r, k or rk))
    if P.is_scalar(a):
        s = P.lift(a)
        if s.kind in P.PYKINDS:
            s = tokind(a, pykind(a))
        r = f(s)
        if isinstance(r, Sym) and r.kind in P.PYKINDS and s.kind in P.NPKINDS:
            r = Sym(_PYK[r.kind], r.v)
        return r
    raise TypeError(f"ufunc argument {type(a)}")


def _setop(n, op):
    def f(self, o):
        if isinstance(o, (SymArray, list, tuple)) or P.is_scalar(o):
            return ufunc2(op, self, o)
        if op in ("==", "!="):
            if o is None or isinstance(o, str):
                return ufunc1(lambda x: Sym("bool_", N.bconst(op == "!=")), self, "bool_")
        return NotImplemented

    def r(self, o):
        if isinstance(o, (list, tuple)) or P.is_scalar(o):
            return ufunc2(op, o, self)
        return NotImplemented

    def i(self, o):
        t = ufunc2(op, self, o)
        if not isinstance(t, SymArray):
            t = SymArray(_mk0(t), P.lift(t).kind if self.k != "object" else "object")
            t.k = _PYK.get(t.k, t.k)
        if t.k != self.k:
            if self.k == "object" or (t.k == "bool_"):
                t = t.astype(self.k)
            else:
                raise TypeError(f"Cannot cast ufunc output from {t.k} to {self.k} with casting rule 'same_kind'")
        if t.d.shape != self.d.shape:
            raise ValueError("non-broadcastable output operand")
        self.d[...] = t.d
        return self
    setattr(SymArray, f"__{n}__", f)
    if op not in P_CMP:
        setattr(SymArray, f"__r{n}__", r)
        setattr(SymArray, f"__i{n}__", i)


for _n, _op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"),
                ("pow", "**"), ("lshift", "<<"), ("rshift", ">>"), ("and", "&"), ("or", "|"), ("xor", "^"),
                ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
    _setop(_n, _op)


# ------------------------------------------------------------------------------------------------
# creation
# ------------------------------------------------------------------------------------------------
def _nested(x):
    """shape and leaves of nested sequences"""
    if isinstance(x, SymArray):
        return x.d.shape, list(x.d.reshape(-1)), [x.k]
    if isinstance(x, (list, tuple, range)):
        subs = [_nested(q) for q in x]
        if not subs:
            return (0,), [], []
        s0 = subs[0][0]
        for s in subs:
            if s[0] != s0:
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(subs),) + s0, [l for s in subs for l in s[1]], [k for s in subs for k in s[2]]
    return (), [x], []


def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    if isinstance(x, _np.ndarray):
        raise Unsupported("foreign ndarray")
    if isinstance(x, SymArray):
        k = x.k if dtype is None else kindof(dtype)
        r = x.astype(k) if (copy or k != x.k) else x
    else:
        shape, leaves, ks = _nested(x)
        if dtype is None:
            kk = list(ks)
            for l in leaves:
                if P.is_scalar(l):
                    kk.append(pykind(l) if weak(l) else P.lift(l).kind)
                else:
                    kk.append("object")
            k = promote(kk) if kk else "float64"
        else:
            k = kindof(dtype)
        d = obj(shape)
        f = [tokind(l, k) for l in leaves]
        for i, q in enumerate(_np.ndindex(shape)):
            d[q] = f[i]
        r = SymArray(d, k)
    nd = ndmin
    while r.d.ndim < nd:
        r = SymArray(r.d[None], r.k)
    return r


def asarray(x, dtype=None, order=None, copy=None):
    if isinstance(x, SymArray) and (dtype is None or kindof(dtype) == x.k):
        return x
    return array(x, dtype=dtype)


asanyarray = asarray
ascontiguousarray = asarray


def _shape(s):
    if isinstance(s, SymArray):
        s = s.tolist()
    if isinstance(s, (list, tuple)):
        return tuple(x if type(x) is int else x.__index__() for x in s)
    return (s if type(s) is int else s.__index__(),)


def full(shape, v, dtype=None):
    k = kindof(dtype) if dtype is not None else (asarr(v).k)
    s = _shape(shape)
    d = obj(s)
    e = tokind(v, k)
    for q in _np.ndindex(s):
        d[q] = e
    return SymArray(d, k)


def zeros(shape, dtype=None, order="C"):
    k = kindof(dtype)
    return full(shape, 0, k) if k == "object" else full(shape, 0.0 if k == "float64" else 0, k)


def ones(shape, dtype=None, order="C"):
    k = kindof(dtype)
    return full(shape, 1, k) if k == "object" else full(shape, 1.0 if k == "float64" else 1, k)


def empty(shape, dtype=None, order="C"):
    k = kindof(dtype)
    if k == "object":
        return SymArray(obj(_shape(shape)), k)
    r = zeros(shape, k)
    c = C.cur()
    for q in _np.ndindex(r.d.shape):       # uninitialised: any value
        c.fresh += 1
        if k in ("uint64", "int64"):
            r.d[q] = Sym(k, c.datavar(f"uninit{c.fresh}", N.const(0), N.const(2**63 - 1), [N.Lin((), 63)]))
    return r


def zeros_like(a, dtype=None, **k):
    a = asarr(a)
    return zeros(a.shape, dtype or a.k)


def ones_like(a, dtype=None, **k):
    a = asarr(a)
    return ones(a.shape, dtype or a.k)


def empty_like(a, dtype=None, **k):
    a = asarr(a)
    return empty(a.shape, dtype or a.k)


def full_like(a, v, dtype=None, **k):
    a = asarr(a)
    return full(a.shape, v, dtype or a.k)


def arange(*a, dtype=None):
    v = [x if type(x) in (int, float) else x.__index__() for x in a]
    return array([x for x in range(*v)] if builtin_all(type(x) is int for x in v) else list(_np.arange(*v).tolist()),
                 dtype=dtype if dtype is not None else None) if range(*v) else zeros((0,), dtype or "int64")


def builtin_all(it):
    for x in it:
        if not x:
            return False
    return True


# ------------------------------------------------------------------------------------------------
# elementwise functions
# ------------------------------------------------------------------------------------------------
def _chk(kw):
    kw = {k: v for k, v in kw.items() if v is not None and k not in ("casting", "subok")}
    if kw:
        raise Unsupported(f"ufunc keyword {sorted(kw)}")


def _fl(x, f, k):
    """floor-like on one element"""
    if isinstance(x, Sym):
        v = P.numof(x)
        if x.kind in ("int", "float", "bool"):
            return Sym("int", f(v))
        if x.kind == "bool_":
            return x
        return Sym(x.kind, f(v))
    if type(x) is int:
        return x
    if type(x) is float:
        return Sym("int", f(N.const(x)))
    raise TypeError("floor")


def _rounder(f):
    def g(a, out=None, **kw):
        _chk(kw)
        r = ufunc1(lambda x: _fl(x, f, None), a)
        if isinstance(a, int) and not isinstance(a, Sym):
            r = tokind(a, "int64")
        return _out(r, out)
    return g


def _out(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out, = out
    out[...] = r
    return out


floor = _rounder(A.floor)
ceil = _rounder(A.ceil)
trunc = _rounder(A.trunc)
fix = trunc


def rint(a, out=None, **kw):
    _chk(kw)
    return _out(ufunc1(lambda x: Sym(x.kind, P.rint(P.numof(x))) if isinstance(x, Sym) else x.__round__(), a), out)


def round(a, decimals=0, out=None):
    if decimals != 0:
        raise Unsupported("round decimals")
    if isinstance(a, SymArray) and a.k == "object":
        return _out(ufunc1(lambda x: Sym(P.lift(x).kind, P.rint(P.numof(x))), a), out)
    return rint(a, out)


around = round_ = round


def abs(a, out=None, **kw):
    _chk(kw)
    return _out(ufunc1(lambda x: x.__abs__(), a), out)


absolute = fabs = abs


def negative(a, out=None, **kw):
    _chk(kw)
    return _out(ufunc1(lambda x: -x, a), out)


def positive(a):
    return ufunc1(lambda x: x, a)


def square(a):
    return multiply(a, a)


def invert(a):
    return ufunc1(lambda x: ~x, a)


bitwise_not = invert


def sign(a):
    def f(x):
        v = P.numof(x)
        return Sym(P.lift(x).kind, A.ite(N.lt(v, N.ZERO), N.const(-1), A.ite(N.eq(v, N.ZERO), N.ZERO, N.ONE)))
    return ufunc1(f, a)


def signbit(a):
    return ufunc1(lambda x: Sym("bool_", N.lt(P.numof(x), N.ZERO)), a, "bool_")


def isnan(a):
    return ufunc1(lambda x: Sym("bool_", N.bconst(False)), a, "bool_")


isinf = isnan


def isfinite(a):
    return ufunc1(lambda x: Sym("bool_", N.bconst(True)), a, "bool_")


def exp2(a):
    return power(2.0, a)


def ldexp(a, e):
    return multiply(a, power(2.0, e))


def _u2(op):
    def f(a, b, out=None, **kw):
        _chk(kw)
        if not isinstance(a, (SymArray, list, tuple)) and not isinstance(b, (SymArray, list, tuple)):
            r = ufunc2(op, asarr(a) if weak(a) and weak(b) else a, b)
        else:
            r = ufunc2(op, a, b)
        return _out(r, out)
    return f


add = _u2("+")
subtract = _u2("-")
multiply = _u2("*")
divide = true_divide = _u2("/")
floor_divide = _u2("//")
mod = remainder = _u2("%")
power = float_power = _u2("**")
left_shift = bitwise_left_shift = _u2("<<")
right_shift = bitwise_right_shift = _u2(">>")
bitwise_and = _u2("&")
bitwise_or = _u2("|")
bitwise_xor = _u2("^")
less = _u2("<")
less_equal = _u2("<=")
greater = _u2(">")
greater_equal = _u2(">=")
equal = _u2("==")
not_equal = _u2("!=")


def divmod(a, b):
    return floor_divide(a, b), mod(a, b)


def fmod(a, b):
    q = trunc(divide(a, b))
    return subtract(a, multiply(q, b))


def modf(a):
    raise Unsupported("modf")


def _tb(x):
    return P.truth(x)


def _logical(f, *xs):
    ds = [asarr(x).d for x in xs]
    r = ew(lambda *e: Sym("bool_", f(*[_tb(q) for q in e])), ds)
    return unwrap0(SymArray(r, "bool_"))


def logical_and(a, b, out=None):
    return _out(_logical(N.band, a, b), out)


def logical_or(a, b, out=None):
    return _out(_logical(N.bor, a, b), out)


def logical_not(a, out=None):
    return _out(_logical(N.bnot, a), out)


def logical_xor(a, b, out=None):
    return _out(_logical(lambda x, y: N.bnot(N.beq(x, y)), a, b), out)


def _sel(c, x, y, k):
    if c.kind == "const":
        return x if c.args[0] else y
    if k == "object":
        lx, ly = P.is_scalar(x), P.is_scalar(y)
        if lx and ly and P.lift(x).kind == P.lift(y).kind:
            return P.select(c, x, y)
        return x if C.cur().decide(c) else y
    return P.select(c, x, y)


def where(c, *xy):
    if not xy:
        c = asarr(c)
        idx = [q for q in _np.ndindex(c.d.shape) if C.cur().decide(_tb(c.d[q]))]
        return tuple(array([q[i] for q in idx], dtype="int64") if idx else zeros((0,), "int64") for i in range(c.d.ndim or 1))
    x, y = xy
    ds, k = operands((x, y))
    cd = asarr(c).d
    r = ew(lambda b, p, q: _sel(_tb(b), _cast_in(p, k), _cast_in(q, k), k), [cd] + ds)
    return SymArray(r, k)


def select(conds, choices, default=0):
    r = default
    for c, x in reversed(list(zip(conds, choices))):
        r = where(c, x, r)
    return asarr(r)


def choose(i, choices):
    raise Unsupported("choose")


def _mm(op):
    def f(a, b, out=None, **kw):
        _chk(kw)
        ds, k = operands((a, b))

        def g(x, y):
            x, y = _cast_in(x, k), _cast_in(y, k)
            c = P.truth(_bop(op, x, y, k))
            return _sel(c, x, y, k)
        return _out(unwrap0(SymArray(ew(g, ds), k)), out)
    return f


maximum = fmax = _mm(">=")
minimum = fmin = _mm("<=")


def clip(a, lo=None, hi=None, out=None, **kw):
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return _out(r, out)


# ------------------------------------------------------------------------------------------------
# reductions
# ------------------------------------------------------------------------------------------------
def _reduce(f, a, axis, keepdims, empty=None, k=None, initial=None, post=None):
    a = asarr(a)
    k = k or a.k
    if axis is None:
        xs = list(a.d.reshape(-1))
        r = _red1(f, xs, empty, initial)
        if keepdims:
            d = obj((1,) * a.d.ndim)
            d.reshape(-1)[0] = r
            return SymArray(d, k)
        return r
    if isinstance(axis, tuple):
        for ax in sorted((x % a.d.ndim for x in axis), reverse=True):
            a = asarr(_reduce(f, a, ax, keepdims, empty, k, initial))
        return a
    m = _np.moveaxis(a.d, axis, -1)
    r = obj(m.shape[:-1])
    for q in _np.ndindex(m.shape[:-1]):
        r[q] = _red1(f, list(m[q]), empty, initial)
    if keepdims:
        r = _np.expand_dims(r, axis)
    return unwrap0(SymArray(r, k))


def _red1(f, xs, empty, initial):
    if initial is not None:
        xs = [initial] + xs
    if not xs:
        if empty is None:
            raise ValueError("zero-size array to reduction operation which has no identity")
        return empty
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def _b(x):
    return Sym("bool_", _tb(x))


def any(a, axis=None, out=None, keepdims=False):
    a = asarr(a)
    a = SymArray(ew(_b, [a.d]), "bool_") if a.d.size else SymArray(a.d, "bool_")
    return _reduce(lambda x, y: Sym("bool_", N.bor(x.v, y.v)), a, axis, keepdims, Sym("bool_", N.bconst(False)))


def all(a, axis=None, out=None, keepdims=False):
    a = asarr(a)
    a = SymArray(ew(_b, [a.d]), "bool_") if a.d.size else SymArray(a.d, "bool_")
    return _reduce(lambda x, y: Sym("bool_", N.band(x.v, y.v)), a, axis, keepdims, Sym("bool_", N.bconst(True)))


def max(a, axis=None, out=None, keepdims=False, initial=None):
    a = asarr(a)
    return _reduce(lambda x, y: _sel(P.truth(_bop(">=", x, y, a.k)), x, y, a.k), a, axis, keepdims, initial=initial)


def min(a, axis=None, out=None, keepdims=False, initial=None):
    a = asarr(a)
    return _reduce(lambda x, y: _sel(P.truth(_bop("<=", x, y, a.k)), x, y, a.k), a, axis, keepdims, initial=initial)


amax = nanmax = max
amin = nanmin = min


def ptp(a):
    return max(a) - min(a)


def sum(a, axis=None, dtype=None, keepdims=False, initial=None, **kw):
    a = asarr(a, dtype)
    if a.k == "bool_":
        a = a.astype("int64")
    return _reduce(lambda x, y: x + y, a, axis, keepdims, empty=tokind(0, a.k), initial=initial)


def prod(a, axis=None, dtype=None, keepdims=False, initial=None):
    a = asarr(a, dtype)
    if a.k == "bool_":
        a = a.astype("int64")
    e = Sym("float64", N.ONE) if not a.d.size else None
    return _reduce(lambda x, y: x * y, a, axis, keepdims, empty=e, initial=initial)


def count_nonzero(a):
    a = asarr(a)
    return sum(SymArray(ew(_b, [a.d]), "bool_"))


def cumsum(a, axis=None, dtype=None):
    a = asarr(a, dtype)
    r, t = [], None
    for x in a.d.reshape(-1):
        t = x if t is None else t + x
        r.append(t)
    return array(r, dtype=a.k)


def dot(a, b):
    return matmul(a, b) if not (ndim(a) == 0 or ndim(b) == 0) else multiply(a, b)


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    k = promote([a.k, b.k])
    a, b = a.astype(k), b.astype(k)
    if a.d.ndim == 0 or b.d.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    x = a.d[None] if a.d.ndim == 1 else a.d
    y = b.d[:, None] if b.d.ndim == 1 else b.d
    if x.shape[-1] != y.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    bs = _np.broadcast_shapes(x.shape[:-2], y.shape[:-2])
    x = _np.broadcast_to(x, bs + x.shape[-2:])
    y = _np.broadcast_to(y, bs + y.shape[-2:])
    r = obj(bs + (x.shape[-2], y.shape[-1]))
    for q in _np.ndindex(r.shape):
        t = None
        for j in range(x.shape[-1]):
            p = x[q[:-2] + (q[-2], j)] * y[q[:-2] + (j, q[-1])]
            t = p if t is None else t + p
        r[q] = t if t is not None else tokind(0, k)
    if a.d.ndim == 1:
        r = r[..., 0, :]
    if b.d.ndim == 1:
        r = r[..., 0]
    return unwrap0(SymArray(r, k)) if isinstance(r, _np.ndarray) else r


def inner(a, b):
    return matmul(a, b)


def tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    k = promote([a.k, b.k])
    a, b = a.astype(k), b.astype(k)
    if isinstance(axes, int):
        xa, xb = list(range(a.d.ndim - axes, a.d.ndim)), list(range(axes))
    else:
        xa, xb = [[t] if isinstance(t, int) else list(t) for t in axes]
    xa, xb = [t % a.d.ndim for t in xa], [t % b.d.ndim for t in xb]
    if [a.d.shape[t] for t in xa] != [b.d.shape[t] for t in xb]:
        raise ValueError("shape-mismatch for sum")
    fa = [t for t in range(a.d.ndim) if t not in xa]
    fb = [t for t in range(b.d.ndim) if t not in xb]
    n = 1
    for t in xa:
        n *= a.d.shape[t]
    sa, sb = tuple(a.d.shape[t] for t in fa), tuple(b.d.shape[t] for t in fb)
    x = SymArray(a.d.transpose(fa + xa).reshape(-1, n), k)
    y = SymArray(b.d.transpose(xb + fb).reshape(n, -1), k)
    return SymArray(asarr(matmul(x, y)).d.reshape(sa + sb), k)


def outer(a, b):
    a, b = asarr(a), asarr(b)
    return asarr(SymArray(a.d.reshape(-1, 1), a.k)) * SymArray(b.d.reshape(1, -1), b.k)


def append(a, b, axis=None):
    if axis is None:
        return concatenate([ravel(a), ravel(b)])
    return concatenate([a, b], axis)


def array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if a.d.shape != b.d.shape:
        return False
    return all(equal(a, b))


# ------------------------------------------------------------------------------------------------
# shape
# ------------------------------------------------------------------------------------------------
def ndim(a):
    if isinstance(a, SymArray):
        return a.d.ndim
    if isinstance(a, (list, tuple)):
        return array(a).d.ndim
    return 0


def shape(a):
    return asarr(a).d.shape if isinstance(a, (SymArray, list, tuple)) else ()


def size(a, axis=None):
    s = shape(a)
    if axis is not None:
        return s[axis]
    n = 1
    for x in s:
        n *= x
    return n


def reshape(a, s, order="C"):
    return asarr(a).reshape(s)


def ravel(a):
    return asarr(a).ravel()


def squeeze(a, axis=None):
    return asarr(a).squeeze(axis)


def transpose(a, *x):
    return asarr(a).transpose(*x)


def atleast_1d(*xs):
    r = []
    for x in xs:
        x = asarr(x)
        r.append(SymArray(x.d.reshape(1), x.k) if x.d.ndim == 0 else x)
    return r[0] if len(r) == 1 else tuple(r)


def atleast_2d(x):
    x = asarr(x)
    return SymArray(_np.atleast_2d(x.d), x.k)


def expand_dims(a, axis):
    a = asarr(a)
    return SymArray(_np.expand_dims(a.d, axis), a.k)


def moveaxis(a, s, d):
    a = asarr(a)
    return SymArray(_np.moveaxis(a.d, s, d), a.k)


def swapaxes(a, s, d):
    a = asarr(a)
    return SymArray(_np.swapaxes(a.d, s, d), a.k)


def broadcast_to(a, s):
    a = asarr(a)
    return SymArray(_np.broadcast_to(a.d, _shape(s)), a.k)


def broadcast_arrays(*xs):
    xs = [asarr(x) for x in xs]
    return [SymArray(d, x.k) for d, x in zip(_np.broadcast_arrays(*[x.d for x in xs]), xs)]


def broadcast_shapes(*s):
    return _np.broadcast_shapes(*s)


def _cat(fn):
    def f(xs, axis=0, **kw):
        xs = [asarr(x) for x in xs]
        k = promote([x.k for x in xs])
        return SymArray(fn([x.astype(k).d for x in xs], axis=axis), k)
    return f


concatenate = _cat(_np.concatenate)
stack = _cat(_np.stack)


def vstack(xs):
    return concatenate([atleast_2d(x) for x in xs], 0)


def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if xs[0].d.ndim == 1 else 1)


def column_stack(xs):
    return stack(xs, -1)


def tile(a, reps):
    a = asarr(a)
    return SymArray(_np.tile(a.d, reps), a.k)


def repeat(a, n, axis=None):
    a = asarr(a)
    return SymArray(_np.repeat(a.d, n, axis=axis), a.k)


def flip(a, axis=None):
    a = asarr(a)
    return SymArray(_np.flip(a.d, axis), a.k)


def copy(a, **k):
    return array(a)


def copyto(dst, src, where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = globals()["where"](where, src, dst)


def isscalar(x):
    return P.is_scalar(x) or isinstance(x, str)


def iterable(x):
    return hasattr(x, "__iter__") and not (isinstance(x, SymArray) and x.d.ndim == 0)


def nditer(*a, **k):
    raise Unsupported("nditer")


def ndindex(*s):
    return _np.ndindex(*s)


def ndenumerate(a):
    for q in _np.ndindex(a.d.shape):
        yield q, a.d[q]


def shares_memory(a, b):
    return _np.shares_memory(a.d, b.d)


may_share_memory = shares_memory


def result_type(*xs):
    return DType(operands([x for x in xs])[1])


def can_cast(a, b, casting="safe"):
    return promote([kindof(a), kindof(b)]) == kindof(b)


def vectorize(f, otypes=None, **kw):
    def g(*xs):
        ds = [asarr(x).d for x in xs]
        r = ew(f, ds)
        if otypes:
            k = kindof(otypes[0])
        else:
            x = r.reshape(-1)[0]
            k = pykind(x) if P.is_scalar(x) and weak(x) else (P.lift(x).kind if P.is_scalar(x) else "object")
        return SymArray(ew(lambda x: tokind(x, k), [r]), k)
    return g


def frompyfunc(f, nin, nout):
    def g(*xs):
        return unwrap0(SymArray(ew(f, [SymArray.astype(asarr(x), "object").d for x in xs]), "object"))
    return g


def fromiter(it, dtype, count=-1):
    return array(list(it), dtype=dtype)


class _Info:
    def __init__(self, **k):
        self.__dict__.update(k)


def iinfo(dt):
    k = kindof(dt)
    lo, hi = {"int64": (-2**63, 2**63 - 1), "uint64": (0, 2**64 - 1), "int32": (-2**31, 2**31 - 1), "uint8": (0, 255)}[k]
    return _Info(min=lo, max=hi, bits=_SIZE[k] * 8)


def finfo(dt):
    return _Info(eps=2.0**-52, bits=64, nmant=52, max=1.7976931348623157e308, min=-1.7976931348623157e308, tiny=2.0**-1022)


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def set_printoptions(**k):
    pass


class _Random:
    """nondeterministic draws: any value of the requested range"""

    class RandomState:
        def __init__(self, *a):
            raise Unsupported("RandomState")

    @staticmethod
    def seed(*a):
        pass

    @staticmethod
    def randint(low, high=None, size=None, dtype="int64"):
        if high is None:
            low, high = 0, low
        return draw(low, high, size, kindof(dtype))

    @staticmethod
    def default_rng(*a):
        return _Gen()

    @staticmethod
    def random(size=None):
        return drawunit(size)

    random_sample = ranf = sample = random

    @staticmethod
    def rand(*d):
        return drawunit(d if d else None)

    @staticmethod
    def uniform(low=0.0, high=1.0, size=None):
        return low + (high - low) * drawunit(size)

    @staticmethod
    def randn(*d):
        raise Unsupported("np.random.randn")


def drawunit(size=None):
    """a double k * 2**-53 of [0, 1)"""
    u = lambda: Sym("float64", N.mul(drawint(N.ZERO, N.const(2**53)), N.const(Fraction(1, 2**53))))
    if size is None:
        return Sym("float", u().v)
    s = _shape(size)
    d = obj(s)
    for q in _np.ndindex(s):
        d[q] = u()
    return SymArray(d, "float64")


class _Gen:
    def random(self, size=None):
        return drawunit(size)

    def integers(self, low, high=None, size=None, dtype="int64", endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1
        return draw(low, high, size, kindof(dtype))

    def __getattr__(self, n):
        raise Unsupported("Generator." + n)


random = _Random()


def _one(x):
    if isinstance(x, SymArray):
        if x.d.size != 1:
            raise Unsupported("array random bounds")
        x = x.d.reshape(-1)[0]
    return P.lift(x)


def drawint(lo, hi1):
    """fresh integer in [lo, hi1); records the interval for the oracle"""
    c = C.cur()
    if c.decide(N.le(hi1, lo)):
        raise ValueError("low >= high")
    i = c.notes.setdefault("ndraws", 0)
    c.notes["ndraws"] = i + 1
    hi = N.sub(hi1, N.ONE)
    wl = c.notes.get("draw_wl", [N.Lin((), 200)])
    x = c.datavar(f"draw{i}", lo, hi, wl)
    c.notes.setdefault("draws", []).append((lo, hi))
    return x


def draw(low, high, size, k):
    lo, hi = A.trunc(P.numof(_one(low))), A.trunc(P.numof(_one(high)))
    c = C.cur()
    lim = {"int64": (-2**63, 2**63), "uint64": (0, 2**64), "int32": (-2**31, 2**31), "uint8": (0, 256)}[k]
    if not c.decide(N.band(N.le(N.const(lim[0]), lo), N.le(hi, N.const(lim[1])))):
        raise ValueError("low/high out of bounds for " + k)
    if size is None:
        return Sym("int" if k == "int64" else k, drawint(lo, hi))
    s = _shape(size)
    d = obj(s)
    for q in _np.ndindex(s):
        d[q] = Sym(k, drawint(lo, hi))
    return SymArray(d, k)


def __getattr__(name):
    raise Unsupported("numpy." + name)
