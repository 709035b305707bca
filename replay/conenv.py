"""Concrete side of the dual-mode drivers: runs the same driver on the real package and real NumPy."""
import math
import warnings
from fractions import Fraction
import numpy as np


class CheckFailed(BaseException):
    pass


class Skip(BaseException):
    """an assumption does not hold for these inputs"""


class ConEnv:
    symbolic = False

    def __init__(self, pkg, inp):
        self.pkg = pkg
        self.ctl = inp["ctl"]
        self.data = inp["data"]
        self.choices = list(inp["choices"])
        self.obs = []
        self._w = []

    # ---- stand-ins for the random sources: every draw takes the recorded value (or an extreme)
    def draws(self, mode):
        """'data': recorded values; 'lo'/'hi': every draw returns its smallest/largest outcome"""
        import random
        env = self
        env.ndraw = 0

        def one(lo, hi):
            lo, hi = int(lo), int(hi)
            if lo > hi:
                raise ValueError("low >= high")
            v = {"lo": lo, "hi": hi}.get(mode)
            if v is None:
                v = min(max(int(env.data.get("draw%d" % env.ndraw, lo)), lo), hi)
            env.ndraw += 1
            return v

        def many(lo, hi, size, dtype):
            if size is None:
                return np.dtype(dtype).type(one(lo, hi)) if dtype is not int else one(lo, hi)
            a = np.empty(size, dtype=dtype)
            for q in np.ndindex(*a.shape):
                a[q] = one(lo, hi)
            return a

        def unit(size=None):
            if size is None:
                return one(0, 2**53 - 1) / 2.0**53
            a = np.empty(size)
            for q in np.ndindex(*a.shape):
                a[q] = one(0, 2**53 - 1) / 2.0**53
            return a

        def randint(low, high=None, size=None, dtype=int):
            low, high = (0, low) if high is None else (low, high)
            return many(low, int(high) - 1, size, dtype)

        class Gen:
            def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
                low, high = (0, low) if high is None else (low, high)
                return many(low, int(high) - (0 if endpoint else 1), size, dtype)

            def random(self, size=None):
                return unit(size)
        random.randrange = lambda a, b=None, step=1: one(0, a - 1) if b is None else one(a, b - 1)
        random.randint = one
        random.getrandbits = lambda k: one(0, 2**k - 1)
        random.random = lambda: unit()
        random.uniform = lambda a, b: a + (b - a) * unit()
        np.random.randint = randint
        np.random.random = np.random.random_sample = unit
        np.random.rand = lambda *d: unit(d if d else None)
        np.random.uniform = lambda low=0.0, high=1.0, size=None: low + (high - low) * unit(size)
        np.random.default_rng = lambda *a: Gen()

    def fresh(self):
        """a newly imported package: no state of earlier calls is left"""
        import importlib
        import sys
        n = self.pkg.__name__
        for k in [k for k in sys.modules if k == n or k.startswith(n + ".")]:
            del sys.modules[k]
        self.pkg = importlib.import_module(n)

    def choice(self, name, options):
        return options[self.choices.pop(0)]

    def dec(self, c):
        return bool(c)

    def assume(self, c):
        if not c:
            raise Skip()

    def int(self, name, lo, hi):
        return int(self.ctl[name])

    def Q(self, v):
        return Fraction(v)

    def floor(self, q):
        return Fraction(math.floor(q))

    def ceil(self, q):
        return Fraction(math.ceil(q))

    def ite(self, c, x, y):
        return Fraction(x) if c else Fraction(y)

    def pow2(self, k):
        return Fraction(2) ** int(k)

    def mod2(self, q, k):
        return Fraction(q) % (Fraction(2) ** int(k))

    def odd(self, q):
        return Fraction(q) % 2 == 1

    def and_(self, *c):
        return all(c)

    def or_(self, *c):
        return any(c)

    def not_(self, c):
        return not c

    def iff(self, a, b):
        return bool(a) == bool(b)

    def true(self):
        return True

    def is_int(self, q):
        return Fraction(q).denominator == 1

    def round53(self, q):
        q = Fraction(q)
        return Fraction(q.numerator / q.denominator) if q else q

    def mant(self, name, lo, hi, wl):
        v = Fraction(int(self.data.get(name, 0)))
        if not (lo <= v <= hi):
            raise Skip()
        return v

    def flag(self, name):
        v = self.data.get(name, False)
        return bool(v) if isinstance(v, bool) else bool(int(v))

    def npbool(self, vals, shape=None):
        if not isinstance(vals, list):
            return bool(vals)
        a = np.array([bool(v) for v in vals], dtype=bool)
        return a.reshape(shape) if shape is not None else a

    def arr(self, elems, shape, kind):
        if kind == "object":
            a = np.empty(shape, dtype=object)
            for i, q in enumerate(np.ndindex(*shape)):
                e = Fraction(elems[i])
                assert e.denominator == 1
                a[q] = int(e)
            return a
        k = {"bool_": bool}.get(kind, kind)
        a = np.empty(shape, dtype=k)
        for i, q in enumerate(np.ndindex(*shape)):
            e = Fraction(elems[i])
            v = float(e) if kind == "float64" else int(e)
            assert Fraction(v) == e, "value not exact in the requested representation"
            a[q] = v
        return a

    def objarr(self, items, shape):
        a = np.empty(shape, dtype=object)
        for i, q in enumerate(np.ndindex(*shape)):
            a[q] = items[i]
        return a

    def scalar(self, q, kind):
        q = Fraction(q)
        if kind == "float":
            return float(q)
        if kind == "int":
            return int(q)
        if kind == "float64":
            return np.float64(float(q))
        return getattr(np, kind)(int(q))

    def shape(self, x):
        return tuple(x.shape) if isinstance(x, np.ndarray) else ()

    def dtype(self, x):
        if isinstance(x, np.ndarray):
            n = x.dtype.name
            return ("array", "bool_" if n == "bool" else n)
        if isinstance(x, np.generic):
            n = x.dtype.name
            return ("scalar", "bool_" if n == "bool" else n)
        if isinstance(x, (bool, int, float)):
            return ("scalar", type(x).__name__)
        return ("other", type(x).__name__)

    def elems(self, x):
        r = list(x.reshape(-1)) if isinstance(x, np.ndarray) else [x]
        out = []
        for e in r:
            if isinstance(e, (np.bool_, bool)):
                out.append(Fraction(int(e)))
            elif isinstance(e, (int, np.integer)):
                out.append(Fraction(int(e)))
            elif isinstance(e, (float, np.floating)):
                if not math.isfinite(e):
                    self.fail("non-finite element")
                out.append(Fraction(float(e)))
            else:
                self.fail(f"element of type {type(e).__name__}")
        return out

    def elemkinds(self, x):
        r = list(x.reshape(-1)) if isinstance(x, np.ndarray) else [x]
        out = set()
        for e in r:
            if isinstance(e, np.generic):
                n = e.dtype.name
                out.add("bool_" if n == "bool" else n)
            else:
                out.add(type(e).__name__)
        return sorted(out)

    def bools(self, x):
        r = list(x.reshape(-1)) if isinstance(x, np.ndarray) else [x]
        return [bool(e) for e in r]

    def alias(self, x, y):
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            return bool(np.shares_memory(x, y))
        return False

    def warns(self):
        w = [str(x.message) for x in self._w]
        del self._w[:]
        return w

    def call(self, f, *a, **k):
        try:
            return f(*a, **k)
        except Exception as e:
            self.fail(f"unexpected {type(e).__name__}: {str(e)[:120]}")

    def raises(self, f, *a, **k):
        try:
            f(*a, **k)
            return None
        except Exception as e:
            return type(e).__name__

    def check(self, cond, label):
        if not cond:
            raise CheckFailed(label)

    def fail(self, label):
        raise CheckFailed(label)

    def observe(self, name, q):
        if isinstance(q, (bool, np.bool_)):
            self.obs.append([name, bool(q)])
        elif isinstance(q, (int, Fraction)):
            self.obs.append([name, str(Fraction(q))])
        else:
            self.obs.append([name, q])


def run_one(mod, pkg, inp):
    """-> dict(status = ok|fail|skip|error, label, obs)"""
    env = ConEnv(pkg, inp)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        env._w = w
        env.fresh()
        env.draws("data")
        try:
            mod.run(env, inp["case"])
            return dict(status="ok", obs=env.obs)
        except CheckFailed as e:
            return dict(status="fail", label=str(e), obs=env.obs)
        except Skip:
            return dict(status="skip", obs=env.obs)
        except Exception as e:
            import traceback
            return dict(status="error", label=f"{type(e).__name__}: {e}", trace=traceback.format_exc()[-1500:], obs=env.obs)
