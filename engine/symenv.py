"""Symbolic side of the dual-mode drivers (see replay/conenv.py for the concrete side)."""
from fractions import Fraction
import random as _random
import time
import numpy as _np
from . import num as N
from . import alg as A
from . import ctx as C
from . import pyval as P
from . import npshim as NP
from .num import Lin, Unsupported
from .pyval import Sym
from .evalc import Evaluator
import os as _os

SELFTEST = _os.environ.get("VERIF_SELFTEST") == "1"

F_WIDE = 53


class Stop(C.PathAbort):
    """stop this path (after a failed check)"""


class SymEnv:
    symbolic = True

    def __init__(self, ctx, pkg, case, seed=1, max_samples=40, loader=None):
        self.ctx = ctx
        self.pkg = pkg
        self.case = case
        self.failures = []
        self.samples = []
        self.max_samples = max_samples
        self.undecided = []
        self.rng = _random.Random(seed)
        self.checks = 0
        self.syntactic = 0
        self.loader = loader
        self.sample_s = 0.0
        self.npaths = 0

    # ------------------------------------------------------------------ path control
    def begin(self):
        self.ctx.notes.clear()
        self.choices = []
        self.obs = []
        self.goals = []
        self.failed = False
        self.ctx.warnings.clear()

    def choice(self, name, options):
        k = self.ctx.choose(len(options))
        self.choices.append(k)
        return options[k]

    def dec(self, cond):
        """decide a condition (forks in symbolic mode)"""
        return bool(cond)

    def assume(self, cond):
        c = P.truth(cond)
        if N.is_control(c) and not self.ctx.ctl_possible(c):
            raise C.Infeasible()
        self.ctx.assume(c)

    def int(self, name, lo, hi):
        return Sym("int", self.ctx.ctlvar(name, lo, hi))

    # ------------------------------------------------------------------ exact arithmetic
    def Q(self, v):
        return Sym("int", N.const(v))

    def floor(self, q):
        return Sym("int", A.floor(P.numof(q)))

    def ceil(self, q):
        return Sym("int", A.ceil(P.numof(q)))

    def ite(self, c, x, y):
        return Sym("int", A.ite(P.truth(c), P.numof(x), P.numof(y)))

    def pow2(self, k):
        return Sym("int", N.pow2(P.exponent(P.numof(k))))

    def mod2(self, q, k):
        """q mod 2**k"""
        return Sym("int", A.modpow2(P.numof(q), P.exponent(P.numof(k))))

    def odd(self, q):
        return Sym("bool", N.eq(A.modpow2(P.numof(q), Lin((), 1)), N.ONE))

    def and_(self, *cs):
        return Sym("bool", N.band(*[P.truth(c) for c in cs]))

    def or_(self, *cs):
        return Sym("bool", N.bor(*[P.truth(c) for c in cs]))

    def not_(self, c):
        return Sym("bool", N.bnot(P.truth(c)))

    def iff(self, a, b):
        return Sym("bool", N.beq(P.truth(a), P.truth(b)))

    def true(self):
        return Sym("bool", N.bconst(True))

    def is_int(self, q):
        """is the rational q an integer"""
        q = P.numof(q)
        if A.is_integer(q):
            return self.true()
        return Sym("bool", N.eq(A.floor(q), q))

    def round53(self, q):
        return Sym("int", A.round53(P.numof(q)))

    # ------------------------------------------------------------------ inputs
    def mant(self, name, lo, hi, wl):
        """integer data variable; lo, hi exact values, |v| <= 2**w for w in wl (ints or Sym ints)"""
        x = self.ctx.datavar(name, P.numof(lo), P.numof(hi), [P.exponent(P.numof(w)) for w in wl])
        return Sym("int", x)

    def flag(self, name):
        return Sym("bool", self.ctx.boolvar(name))

    def npbool(self, vals, shape=None):
        """bool array of flags (or the Python bool itself when vals is a scalar)"""
        if not isinstance(vals, list):
            return vals
        d = NP.fill((len(vals),) if shape is None else shape, [Sym("bool_", P.truth(v)) for v in vals])
        return NP.SymArray(d, "bool_")

    def arr(self, elems, shape, kind):
        """array of exact values with dtype kind ('float64','object','int64','uint64','bool_')"""
        k = {"object": "int"}.get(kind, kind)
        return NP.SymArray(NP.fill(shape, [Sym(k, P.numof(e)) for e in elems]), kind)

    def objarr(self, items, shape):
        """object array of arbitrary objects"""
        return NP.SymArray(NP.fill(shape, items), "object")

    def scalar(self, q, kind):
        """kind: 'float','int','float64','int64'"""
        return Sym(kind, P.numof(q))

    # ------------------------------------------------------------------ outputs
    def shape(self, x):
        return tuple(x.shape) if isinstance(x, NP.SymArray) else ()

    def dtype(self, x):
        """('array'|'scalar', kind)"""
        if isinstance(x, NP.SymArray):
            return ("array", x.k)
        if P.is_scalar(x):
            return ("scalar", P.lift(x).kind)
        return ("other", type(x).__name__)

    def elems(self, x):
        """exact values of the elements; object elements must be Python ints/floats"""
        if isinstance(x, NP.SymArray):
            r = list(x.d.reshape(-1))
        else:
            r = [x]
        out = []
        for e in r:
            if not P.is_scalar(e):
                self.fail(f"element of type {type(e).__name__}")
            out.append(Sym("int", P.numof(e)))
        return out

    def elemkinds(self, x):
        if isinstance(x, NP.SymArray):
            return sorted({P.lift(e).kind if P.is_scalar(e) else type(e).__name__ for e in x.d.reshape(-1)})
        return [P.lift(x).kind]

    def bools(self, x):
        if isinstance(x, NP.SymArray):
            r = list(x.d.reshape(-1))
        else:
            r = [x]
        return [Sym("bool", P.truth(e)) for e in r]

    def bits(self, x):
        """underlying storage identity, to detect aliasing and mutation"""
        return x.d if isinstance(x, NP.SymArray) else None

    def alias(self, x, y):
        if isinstance(x, NP.SymArray) and isinstance(y, NP.SymArray):
            return bool(_np.shares_memory(x.d, y.d))
        return False

    def warns(self):
        w = list(self.ctx.warnings)
        self.ctx.warnings.clear()
        return w

    def fresh(self):
        """a newly imported package: no state of earlier calls is left"""
        from . import pyload
        self.pkg, self.loader = pyload.load_pkg()

    # ------------------------------------------------------------------ calling the code
    def call(self, f, *a, **k):
        try:
            return f(*a, **k)
        except (C.PathAbort, Unsupported, C.Inconclusive):
            raise
        except RecursionError:
            raise Unsupported("recursion")
        except Exception as e:
            if self.ctx.log:
                import traceback
                self.ctx.log(traceback.format_exc())
            self.fail(f"unexpected {type(e).__name__}: {str(e)[:120]}")

    def raises(self, f, *a, **k):
        """(exception type name or None)"""
        try:
            f(*a, **k)
            return None
        except (C.PathAbort, Unsupported, C.Inconclusive):
            raise
        except Exception as e:
            return type(e).__name__

    # ------------------------------------------------------------------ verdicts
    def check(self, cond, label):
        b = P.truth(cond)
        self.checks += 1
        self.ctx.stats.obligations += 1
        if b.kind == "const" and b.args[0]:
            self.syntactic += 1
            self.ctx.stats.discharged += 1
            return
        ok, m = self.ctx.valid(b)
        if SELFTEST and ok:
            self.goals.append(b)
        if ok:
            self.ctx.stats.discharged += 1
            return
        if ok is None:
            self.undecided.append(dict(label=label, choices=list(self.choices)))
            return
        if m is None or not m.ctl and not m.data:
            m = self.ctx.find(N.bconst(True))
        self.record(label, m)

    def possible(self, cond, label):
        """some inputs of this path make cond true"""
        b = P.truth(cond)
        self.checks += 1
        self.ctx.stats.obligations += 1
        try:
            m = self.ctx.find(b)
        except C.Inconclusive:
            self.undecided.append(dict(label=label, choices=list(self.choices)))
            return
        if m is None:
            self.record(label, self.ctx.find(N.bconst(True)))
        self.ctx.stats.discharged += 1

    def fail(self, label):
        self.checks += 1
        m = self.ctx.find(N.bconst(True))
        if m is None:
            raise C.Infeasible()
        self.record(label, m)

    def record(self, label, m):
        self.failures.append(dict(label=label, input=self.inputs(m)))
        raise Stop()

    def selftest(self, ev):
        """a real model of the path satisfies every constraint of the linear abstraction"""
        import z3
        from .lra import Lra
        from . import sx
        L = Lra(self.ctx)
        L.build(list(self.ctx.facts), [], self.goals)
        sub = [v == int(ev.m.ctl[n]) for n, v in L.ctl.items()]
        for (a, lt), v in L.mono.items():
            if "|" not in v.s or (a is not None and a.kind == "cvar" and not lt):
                continue
            sub.append(v == Fraction(ev.num(N.mulpow2(N.from_atom(a) if a is not None else N.ONE, Lin(lt, 0)))))
        for n, v in ev.m.data.items():
            if isinstance(v, bool):
                sub.append(L.d.var("b_" + n, "B") == sx.BoolVal(v))
        so = z3.Solver()
        so.from_string(L.d.text(sub + L.cons))
        if so.check() != z3.sat:
            for c in L.cons:
                so = z3.Solver()
                so.from_string(L.d.text(sub + [c]))
                if so.check() != z3.sat:
                    raise AssertionError(f"linear abstraction violated by a real model: {c.s}")
            raise AssertionError("linear abstraction violated by a real model")

    def inputs(self, m):
        return dict(case=self.case, ctl={k: int(v) for k, v in m.ctl.items()},
                    data={k: (bool(v) if isinstance(v, bool) else str(v)) for k, v in m.data.items()},
                    choices=list(self.choices))

    def observe(self, name, q):
        self.obs.append((name, q))

    def end(self):
        """path finished: pick a model of the path, to be run through the real code"""
        self.npaths += 1
        if (len(self.samples) >= self.max_samples and self.rng.random() > 0.02) or self.sample_s > 12:
            return
        t0 = time.time()
        m = None
        hints = []
        for n in self.ctx.vars:
            a = N.from_atom(N.mkatom("var", n))
            d = self.ctx.vars[n]
            if self.rng.random() < 0.8 and not (N.is_const(d["lo"]) and N.is_const(d["hi"]) and
                                                N.const_val(d["hi"]) - N.const_val(d["lo"]) < 8):
                k = self.rng.choice((2, 3, 4))
                hints.append(N.eq(A.modpow2(a, Lin((), k)), N.const(self.rng.randrange(1, 1 << k))))
        for bs in ([N.band(*hints)] if hints else []) + [N.bconst(True)]:
            try:
                r, m = self.ctx.query([b for b in [bs] if b.kind != "const"], 2.0, cube=False)
            except (Unsupported, C.Inconclusive):
                m = None
            if m is not None:
                break
        self.sample_s += time.time() - t0
        if m is None:
            return
        ev = Evaluator(self.ctx, m)
        out = []
        try:
            for name, q in self.obs:
                if isinstance(q, Sym):
                    if q.kind in ("bool", "bool_"):
                        out.append([name, bool(ev.bool(q.v))])
                    else:
                        v = ev.num(q.v)
                        out.append([name, str(Fraction(v))])
                elif isinstance(q, int) and not isinstance(q, bool):
                    out.append([name, str(q)])
                else:
                    out.append([name, q])
        except KeyError:
            return
        if SELFTEST:
            self.selftest(ev)
        self.samples.append(dict(input=self.inputs(m), obs=out))


def run_case(mod, case, opts):
    """explore one case; returns a plain dict"""
    import time
    from . import pyload
    t0 = time.time()
    N.reset_atoms()
    C.Facts.tab.clear()
    logs = []
    log = logs.append if opts.get("verbose") else None
    cx = C.Ctx(timeout=opts.get("timeout", 1.5), cube_timeout=opts.get("cube_timeout", 20.0),
               max_paths=opts.get("max_paths", 20000), log=log,
               deadline=(t0 + opts["case_s"]) if opts.get("case_s") else None)
    C.CUR = cx
    res = dict(case=case, error=None, undecided=[], failures=[], samples=[], files=[])
    try:
        loader = None
        pkg = None
        if getattr(mod, "NEEDS", "py") in ("py", "both"):
            pkg, loader = pyload.load_pkg()
            res["files"] = loader.files
        env = SymEnv(cx, pkg, case, seed=opts.get("seed", 1), max_samples=opts.get("samples", 6), loader=loader)
        nfail = opts.get("max_fail", 3)

        def one():
            if len(env.failures) >= nfail:
                raise Stop()
            if loader is not None:
                env.fresh()
            env.begin()
            mod.run(env, case)
            env.end()
        cx.explore(one)
        res.update(undecided=env.undecided, failures=env.failures, samples=env.samples, checks=env.checks,
                   syntactic=env.syntactic)
    except Unsupported as e:
        import traceback
        res["error"] = "unsupported: " + str(e)
        res["trace"] = traceback.format_exc()[-1500:]
    except C.Inconclusive as e:
        res["error"] = "inconclusive: " + str(e)
    except C.PathAbort as e:
        res["error"] = "aborted"
    except Exception as e:
        import traceback
        res["error"] = f"engine: {type(e).__name__}: {e}"
        res["trace"] = traceback.format_exc()[-3000:]
    if res["error"]:
        try:
            res.update(failures=env.failures, samples=env.samples, undecided=env.undecided, checks=env.checks,
                       syntactic=env.syntactic)
        except NameError:
            pass
    res["stats"] = cx.stats.as_dict()
    res["logs"] = logs
    res["wall"] = time.time() - t0
    return res
