"""Loads the package under test from /repo's current source with symbolic builtins and modules."""
import builtins as _b
import math as _math
import os
import sys
import types
from . import num as N
from . import alg as A
from . import ctx as C
from . import pyval as P
from . import npshim
from .num import Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
PKGDIR = os.path.join(REPO, "bittrue", "models", "python", "en_cl_fix_pkg")


# ---------------------------------------------------------------------------------------- warnings
class WarningsShim(types.ModuleType):
    def __init__(self):
        super().__init__("warnings")

    @staticmethod
    def warn(message, category=None, stacklevel=1, source=None):
        C.cur().warnings.append(str(message))

    @staticmethod
    def warn_explicit(message, *a, **k):
        C.cur().warnings.append(str(message))

    @staticmethod
    def simplefilter(*a, **k):
        pass

    filterwarnings = resetwarnings = simplefilter

    class catch_warnings:
        def __init__(self, record=False, **k):
            self.record = record

        def __enter__(self):
            self.n = len(C.cur().warnings)
            return [] if self.record else None

        def __exit__(self, *a):
            del C.cur().warnings[self.n:]     # warnings inside do not reach the caller
            return False


# ---------------------------------------------------------------------------------------- random
class RandomShim(types.ModuleType):
    def __init__(self):
        super().__init__("random")

    @staticmethod
    def randrange(a, b=None, step=1):
        if b is None:
            a, b = 0, a
        if type(step) is not int or step != 1:
            raise Unsupported("randrange step")
        return P.Sym("int", npshim.drawint(P.numof(P.ShimInt(a)), P.numof(P.ShimInt(b))))

    @staticmethod
    def randint(a, b):
        return P.Sym("int", npshim.drawint(P.numof(P.ShimInt(a)), N.add(P.numof(P.ShimInt(b)), N.ONE)))

    @staticmethod
    def getrandbits(k):
        return P.Sym("int", npshim.drawint(N.ZERO, N.pow2(P.exponent(P.numof(k)))))

    @staticmethod
    def random():
        return npshim.drawunit()

    @staticmethod
    def uniform(a, b):
        return a + (b - a) * npshim.drawunit()

    @staticmethod
    def seed(*a):
        pass

    def __getattr__(self, n):
        raise Unsupported("random." + n)


# ---------------------------------------------------------------------------------------- math
class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        self.pi = _math.pi
        self.inf = _math.inf

    @staticmethod
    def _s(x):
        if isinstance(x, npshim.SymArray):
            return x.d.reshape(-1)[0]
        return x

    def floor(self, x):
        return P.Sym("int", A.floor(P.numof(self._s(x))))

    def ceil(self, x):
        return P.Sym("int", A.ceil(P.numof(self._s(x))))

    def trunc(self, x):
        return P.Sym("int", A.trunc(P.numof(self._s(x))))

    def ldexp(self, x, e):
        return P.ShimFloat(self._s(x)) * 2.0 ** e

    def fabs(self, x):
        return P.ShimFloat(self._s(x)).__abs__()

    def pow(self, x, y):
        return P.ShimFloat(x) ** y

    def isnan(self, x):
        return False

    def isinf(self, x):
        return False

    def isfinite(self, x):
        return True

    def __getattr__(self, n):
        v = getattr(_math, n)

        def f(*a):
            a = [int(N.const_val(q.v)) if isinstance(q, P.Sym) and q.kind == "int" and N.is_const(q.v) else q for q in a]
            if builtins_any(isinstance(q, (P.Sym, npshim.SymArray)) for q in a):
                raise Unsupported("math." + n)
            return v(*a)
        return f if callable(v) else v


def builtins_any(it):
    for x in it:
        if x:
            return True
    return False


# ---------------------------------------------------------------------------------------- copy
class CopyShim(types.ModuleType):
    def __init__(self):
        super().__init__("copy")
        import copy
        self.copy = copy.copy
        self.deepcopy = copy.deepcopy


_REAL_OK = {"enum", "abc", "typing", "functools", "itertools", "collections", "operator", "numbers", "dataclasses",
            "__future__", "types", "contextlib", "os", "sys", "re", "string", "collections.abc", "os.path", "fractions"}


_CODE = {}


class Loader:
    def __init__(self, pkgdir=None, name="en_cl_fix_pkg"):
        self.dir = pkgdir or PKGDIR
        self.name = name
        self.mods = {}
        self.files = []
        self.shims = {"numpy": npshim, "warnings": WarningsShim(), "random": RandomShim(), "math": MathShim(),
                      "copy": CopyShim(), "numpy.random": npshim.random}
        self.builtins = P.make_builtins(self._import)
        self.builtins["open"] = self._open
        self.builtins["print"] = lambda *a, **k: None
        self.opened = {}

    # in-memory files for the text exchange properties
    def _open(self, fn, mode="r", *a, **k):
        import io
        key = str(fn)
        if "w" in mode:
            s = io.StringIO()
            s.close_real = s.close
            ld = self

            def close():
                ld.opened[key] = s.getvalue()
            s.close = close
            s.__class__ = _SIO
            return s
        if "a" in mode:
            raise Unsupported("append mode")
        if key in self.opened:
            return io.StringIO(self.opened[key])
        raise FileNotFoundError(fn)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals.get("__package__") or self.name
            parts = pk.split(".")
            base = ".".join(parts[:len(parts) - (level - 1)])
            full = base + ("." + name if name else "")
            m = self.load(full)
            if not name:
                for f in fromlist or ():
                    if not hasattr(m, f):
                        setattr(m, f, self.load(full + "." + f))
            return m
        if name == self.name or name.startswith(self.name + "."):
            m = self.load(name)
            return m if fromlist else self.load(self.name)
        if name in self.shims:
            m = self.shims[name]
            if not fromlist and "." in name:
                return self.shims[name.split(".")[0]]
            return m
        if name in _REAL_OK:
            return _b.__import__(name, globals, locals, fromlist, level)
        raise Unsupported("import of " + name)

    def load(self, full):
        if full in self.mods:
            return self.mods[full]
        rel = full.split(".")[1:]
        p = os.path.join(self.dir, *rel)
        if os.path.isdir(p):
            fn, pk = os.path.join(p, "__init__.py"), full
        else:
            fn, pk = p + ".py", full.rpartition(".")[0]
        if not os.path.exists(fn):
            raise ImportError(full)
        m = types.ModuleType(full)
        m.__file__ = fn
        m.__package__ = pk
        if pk == full:
            m.__path__ = [p]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[full] = m
        self.files.append(fn)
        if fn not in _CODE:
            _CODE[fn] = compile(open(fn).read(), fn, "exec")
        exec(_CODE[fn], m.__dict__)
        par, _, leaf = full.rpartition(".")
        if par and par in self.mods:
            setattr(self.mods[par], leaf, m)
        return m


import io as _io


class _SIO(_io.StringIO):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def load_pkg():
    ld = Loader()
    m = ld.load("en_cl_fix_pkg")
    m.__loader__ = None
    return m, ld
