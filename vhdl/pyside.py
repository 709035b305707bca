"""The Python format code (en_cl_fix_types.py and the string helpers of en_cl_fix.py) inside the VHDL exploration.

Symbolic runs execute the real source text with integers replaced by PI (a wrapper of Ex whose comparisons fork the path); concrete runs import
the real package."""
import ast
import builtins
import os
import sys
from .sym import *
from .types import *

REPO = os.environ.get("VERIF_REPO", "/repo")
PKGDIR = os.path.join(REPO, "bittrue/models/python")


class PB:
    """a condition; asking for its truth forks"""
    __slots__ = ("c", "env")

    def __init__(self, c, env):
        self.c, self.env = c, env

    def __bool__(self):
        return self.env.ctx.decide(self.c)

    def __and__(self, o):
        return PB(band(self.c, o.c if isinstance(o, PB) else bool(o)), self.env)

    def __or__(self, o):
        return PB(bor(self.c, o.c if isinstance(o, PB) else bool(o)), self.env)

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        raise Unsupported("~bool")

    def _int(self):
        return PI(exite(self.c, Ex(1), Ex(0)), self.env)

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __eq__(self, o):
        return self._int() == o

    __hash__ = None


def _cmp(op):
    def f(self, o):
        o = self._of(o)
        if o is None:
            return NotImplemented
        return PB(getattr(self.x, op)(o), self.env)
    return f


class PI:
    """an unbounded Python int"""
    __slots__ = ("x", "env", "txt")

    def __init__(self, x, env, txt=None):
        self.x, self.env, self.txt = ex(x), env, txt

    def _of(self, o):
        if isinstance(o, PI):
            return o.x
        if isinstance(o, bool) or type(o) is int:
            return ex(int(o))
        if isinstance(o, PB):
            return o._int().x
        return None

    def _bin(f):
        def g(self, o):
            o = self._of(o)
            if o is None:
                return NotImplemented
            return PI(f(self.x, o), self.env)
        return g
    __add__ = __radd__ = _bin(lambda a, b: a + b)
    __sub__ = _bin(lambda a, b: a - b)
    __rsub__ = _bin(lambda a, b: b - a)
    __mul__ = __rmul__ = _bin(lambda a, b: a * b)
    __eq__, __lt__, __le__, __gt__, __ge__ = map(_cmp, ("__eq__", "__lt__", "__le__", "__gt__", "__ge__"))

    def __ne__(self, o):
        o = self._of(o)
        if o is None:
            return NotImplemented
        return PB(bnot(self.x == o), self.env)

    def __neg__(self):
        return PI(-self.x, self.env)

    def __pos__(self):
        return self

    def __abs__(self):
        return PI(exite(self.x >= 0, self.x, -self.x), self.env)

    def __bool__(self):
        return self.env.ctx.decide(bnot(self.x == 0))

    def __int__(self):
        raise Unsupported("int() of a symbolic integer outside the loaded module")

    def __index__(self):
        return int(self.env.ctx.concretize(self.x))

    def __and__(self, o):
        raise Unsupported("& on symbolic Python integers")

    __or__ = __xor__ = __rand__ = __ror__ = __rxor__ = __and__
    __hash__ = None

    def __lshift__(self, o):
        o = self._of(o)
        return PI(self.x.shl(int(self.env.ctx.concretize(o))), self.env)

    def __rshift__(self, o):
        o = self._of(o)
        return PI(self.x.shl(-int(self.env.ctx.concretize(o))).floor(), self.env)

    def __str__(self):
        return self.__format__("")

    __repr__ = __str__

    def __format__(self, spec):
        if spec not in ("", "d") or self.txt is None:
            return format(self.__index__(), spec)
        return self.env.py_mark(self.txt)


class _IntMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, (builtins.int, PI))

    def __call__(c, x=0, *a):
        if isinstance(x, PI):
            return x
        if isinstance(x, PB):
            return x._int()
        return builtins.int(x, *a)


class Int(metaclass=_IntMeta):
    pass


def _ext(pick):
    base = getattr(builtins, pick)

    def f(*a, key=None, **kw):
        xs = list(a) if len(a) > 1 else list(a[0])
        if key is not None or kw or not any(isinstance(x, (PI, PB)) for x in xs):
            return base(xs, **({"key": key} if key else {}), **kw)
        env = next(x.env for x in xs if isinstance(x, (PI, PB)))
        q = [x if isinstance(x, PI) else PI(x._int().x if isinstance(x, PB) else x, env) for x in xs]
        r = q[0].x
        for x in q[1:]:
            r = exite(x.x > r if pick == "max" else x.x < r, x.x, r)
        return PI(r, env)
    return f


class _Np:
    """what the string helpers of en_cl_fix.py need"""
    maximum = staticmethod(lambda a, b: _ext("max")(a, b))
    minimum = staticmethod(lambda a, b: _ext("min")(a, b))

    @staticmethod
    def ndim(x):
        return 1 if isinstance(x, (list, tuple)) else 0

    @staticmethod
    def array(x, ndmin=0, **k):
        return list(x) if isinstance(x, (list, tuple)) else [x] if ndmin else x

    @staticmethod
    def atleast_1d(x):
        return list(x) if isinstance(x, (list, tuple)) else [x]

    def __getattr__(self, n):
        raise Unsupported("numpy." + n)


_CODE = {}


def _source(name):
    fn = os.path.join(PKGDIR, "en_cl_fix_pkg", name)
    if fn not in _CODE:
        tree = ast.parse(open(fn).read(), fn)
        if name == "en_cl_fix.py":
            tree.body = [n for n in tree.body if isinstance(n, (ast.FunctionDef, ast.Assign))
                         or isinstance(n, ast.ImportFrom) and (n.module or "").endswith("en_cl_fix_types")]
            tree.body = [n for n in tree.body if not isinstance(n, ast.ImportFrom)]
            for n in tree.body:
                if isinstance(n, ast.FunctionDef):
                    n.decorator_list = []
        tree.body = [n for n in tree.body if not (isinstance(n, (ast.Import, ast.ImportFrom)) and
                                                  (getattr(n, "module", None) or n.names[0].name).split(".")[0] == "numpy")]
        for n in ast.walk(tree):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                n.left.value = n.left.value.replace("%d", "%s").replace("%i", "%s")
        _CODE[fn] = compile(tree, fn, "exec")
    return _CODE[fn]


class TextFile:
    def __init__(self, env, name):
        self.env, self.name = env, name
        self.text = ""

    def write(self, s):
        self.text += s
        return len(s)

    def writelines(self, l):
        for s in l:
            self.write(s)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.env.py_files[self.name] = self.text
        return False


class SymPy:
    """namespace of the Python format code over symbolic integers"""

    def __init__(self, env):
        self.env = env
        env.py_marks = {}
        env.py_files = {}

        def opn(name, mode="r", *a, **k):
            if "w" not in mode:
                raise Unsupported("open for reading")
            return TextFile(env, name)

        def pr(*a, file=None, sep=" ", end="\n", **k):
            file.write(sep.join(map(str, a)) + end)
        self.ns = dict(__name__="en_cl_fix_types", __builtins__=dict(vars(builtins), int=Int, max=_ext("max"), min=_ext("min"),
                                                                   open=opn, print=pr), np=_Np(), numpy=_Np())
        exec(_source("en_cl_fix_types.py"), self.ns)
        self.full = False

    def __getitem__(self, n):
        if n not in self.ns and not self.full:
            exec(_source("en_cl_fix.py"), self.ns)
            self.full = True
        return self.ns[n]

    def int(self, x, txt=None):
        return x if type(x) is int else PI(x, self.env, txt)

    def ex(self, v):
        return v.x if isinstance(v, PI) else v._int().x if isinstance(v, PB) else ex(int(v))


class RealPy:
    def __init__(self, env):
        self.env = env
        env.py_marks = {}
        env.py_files = {}
        sys.dont_write_bytecode = True
        if PKGDIR not in sys.path:
            sys.path.insert(0, PKGDIR)
        import en_cl_fix_pkg
        self.m = en_cl_fix_pkg

    def __getitem__(self, n):
        return getattr(self.m, n)

    def int(self, x, txt=None):
        return int(ex(x).frac())

    def ex(self, v):
        return ex(int(v))
