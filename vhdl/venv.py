"""Driver environment for the VHDL properties: symbolic exploration, and concrete replay against GHDL results."""
import json
import random as _random
import time
from collections import namedtuple
from fractions import Fraction
import z3
from .sym import *
from .types import *
from .interp import Interp, Scope, PA
from .builtins import strv, VFile
from . import pyside

Fmt = namedtuple("Fmt", "S I F")
HDL = ("hdl",)
TB = ("lib/en_tb/hdl",)
STDARR = {t.name: t for t in (INTV, BOOLV, REALV)}


def W(f):
    return f.S + f.I + f.F


class Need(PathAbort):
    """concrete mode: the result of a call is not known yet"""


class VEnvBase:
    ALL = {"slv": SLV, "nsu": NSU, "nss": NSS, "nbu": NBU, "nbs": NBS, "bv": BITV}

    def __init__(self, ctx, case, interp, seed=1, max_samples=6):
        self.ctx, self.case, self.I = ctx, case, interp
        self.failures, self.samples, self.undecided = [], [], []
        self.checks = self.syntactic = 0
        self.rng = _random.Random(seed)
        self.max_samples = max_samples
        self.npaths = 0

    def begin(self):
        self.choices, self.obs = [], []
        self.I.reports = []
        self.I.journal = []
        self.I.steps = 0
        self.I.depth = 0
        self.I.loopdepth = 0
        self.I.ifcount = 0
        self.I.files_map = {}
        self.ncall = 0
        self.last_reports = []
        self._py = None

    # ------------------------------------------------------------------ the Python side
    @property
    def py(self):
        if self._py is None:
            self._py = (pyside.SymPy if self.symbolic else pyside.RealPy)(self)
        return self._py

    def py_mark(self, txt):
        k = chr(0xE000 + len(self.py_marks))
        self.py_marks[k] = txt
        return k

    def pytext(self, s):
        """characters of a Python string"""
        r = []
        for c in s:
            r += self.py_marks[c] if c in self.py_marks else [ord(c)]
        return r

    def pycall(self, f, *args):
        """f(*args); a Python exception is a violation"""
        try:
            return f(*args)
        except Exception as e:
            if isinstance(e, (AssertionError, ValueError, TypeError, KeyError, IndexError, ArithmeticError)):
                self.fail(f"Python raises {type(e).__name__}: {e}")
            raise

    # ------------------------------------------------------------------ exact arithmetic (same interface as the Python side)
    def Q(self, v):
        return exf(Fraction(v)) if not isinstance(v, Ex) else v

    def floor(self, q):
        return ex(q).floor()

    def ceil(self, q):
        return -((-ex(q)).floor())

    def ite(self, c, x, y):
        return exite(c, x, y)

    def pow2(self, k):
        return exf(Fraction(2) ** k)

    def mod2(self, q, k):
        return ex(q).mod2(k)

    def odd(self, q):
        q = ex(q)
        return q.mod2(1) == 1

    def and_(self, *cs):
        return band(*cs)

    def or_(self, *cs):
        return bor(*cs)

    def not_(self, c):
        return bnot(c)

    def iff(self, a, b):
        return biff(a, b)

    def true(self):
        return True

    def is_int(self, q):
        return ex(q).is_int()

    def round53(self, q):
        return round53(ex(q))

    def dec(self, c):
        return self.ctx.decide(c)

    # ------------------------------------------------------------------ values
    def fmt(self, f):
        t = self.pkg("en_cl_fix_pkg").d["fixformat_t"][0].ty
        names = [n for n, _ in t.fields]
        return Rec(t, dict(zip(names, (f.S, f.I, f.F))))

    def pkg(self, name):
        p = self.I.package("work", name)
        if p is None:
            raise Unsupported(f"no package {name}")
        return p

    def enum(self, tname, lit, pkg="en_cl_fix_pkg"):
        t = self.pkg(pkg).d[tname.lower()][0].ty
        return EV(t, t.lits.index(lit.lower()))

    def rec(self, S, I, F):
        """a FixFormat_t of symbolic integers"""
        t = self.pkg("en_cl_fix_pkg").d["fixformat_t"][0].ty
        return Rec(t, dict(zip([n for n, _ in t.fields], [ival(x) for x in (S, I, F)])))

    def digit(self, d):
        """character code of a decimal digit"""
        d = ival(ex(d))
        return d + 48 if isinstance(d, int) else z3.simplify((d + 48).bits(8))

    def chars(self, v):
        """character codes of a string value"""
        return [v.get(i) for i in range(v.n)] if hasattr(v, "get") else list(v.raws())

    def anycase(self, name, c):
        """the letter c in either case"""
        if not c.isalpha():
            return ord(c)
        f = self.flag(name)
        return bite(f, ord(c.upper()), ord(c.lower())) if isinstance(f, bool) else z3.If(f, z3.BitVecVal(ord(c.upper()), 8), z3.BitVecVal(ord(c.lower()), 8))

    def pyfile(self, f):
        """characters of the file that f(name) writes"""
        self.py
        if self.symbolic:
            self.pycall(f, "f")
            return self.pytext(self.py_files["f"])
        import os
        import tempfile
        with tempfile.TemporaryDirectory(prefix="verif_py_") as td:
            fn = os.path.join(td, "f.txt")
            self.pycall(f, fn)
            return [ord(c) for c in open(fn).read()]

    def vint(self, x):
        return ival(x)

    def fields(self, r):
        return [ex(x) for x in r.f.values()]

    def rnd(self, name):
        return self.enum("FixRound_t", name)

    def sat(self, name):
        return self.enum("FixSaturate_t", name)

    def str(self, s):
        return strv(s) if isinstance(s, str) else mkvec(STRING, s)

    def codeof(self, c):
        """a character code as an integer"""
        return c if isinstance(c, int) else exu(c, 8)

    def window(self, name, n, ty, lo, w, fill):
        """n bits, of which those from lo to lo+w-1 are arbitrary and the others those of fill"""
        t = self.bv(name, w)
        b = ext(fill, n, lo - 1, 0) if lo else 0
        b = cat(t, w, b, lo)
        return bvec(ty, n, cat(ext(fill, n, n - 1, lo + w) if n > lo + w else 0, n - lo - w, b, lo + w))

    def reshape(self, v, left, to):
        """the same bits with another index range"""
        return v.rebound(left, left + v.n - 1 if to else left - v.n + 1, to)

    def value(self, v, f):
        """exact value of the bits v in format f"""
        return self.int_of(v, f.S).shl(-f.F)

    def int_of(self, v, signed):
        if v.bv is None:
            self.fail("metavalues in the result")
        return exs(v.bv, v.n) if signed else exu(v.bv, v.n)

    def bits_eq(self, v, q):
        """the bits v are the low bits of the integer q"""
        if v.bv is None:
            return False
        q = ex(q)
        z = q.floor().bits(v.n)
        return band(q.is_int(), True if v.n and lineq(v.bv, z, v.n) else bveq(v.bv, z, v.n))

    def real(self, x):
        return x.x

    def type(self, name, pkg="en_cl_fix_pkg"):
        if name in STDARR:
            return STDARR[name]
        return self.pkg(pkg).d[name][0].ty

    def const(self, ty, n, v):
        return bvec(ty, n, v & mask(n))

    def same(self, a, b):
        """two vectors hold the same bits"""
        if a.n != b.n:
            return False
        if a.bv is not None and b.bv is not None:
            return bveq(a.bv, b.bv, a.n)
        return band(*[same(x, y) if conc(x) or conc(y) else x == y for x, y in zip(a.raws(), b.raws())])

    def slv(self, q, n):
        """the low n bits of the integer q as std_logic_vector (n-1 downto 0)"""
        return bvec(SLV, n, ex(q).floor().bits(n))

    def bit(self, b):
        return EV(LOGIC, 3 if b else 2)

    def is1(self, x):
        """condition: the std_logic / bit value x is '1'"""
        b = bit_of(x.ty, x.v)
        if b is None:
            self.fail("metavalue")
        return bit_is1(b)

    # ------------------------------------------------------------------ calls
    def call(self, fn, *args, ret=None, pkg="en_cl_fix_pkg", named=None, proc=False, files=None, out=None):
        """result of a call; files: text files (name -> list of lines) that exist before the call; out: a text file that the
        call writes (then the result is a pair with the lines of that file)"""
        r, err = self._call(fn, args, ret, pkg, named, proc, files, out)
        if err is not None:
            self.fail(f"{fn}: run-time error: {err}")
        return r

    def raises(self, fn, *args, ret=None, pkg="en_cl_fix_pkg", named=None, proc=False, files=None):
        """error text or None"""
        return self._call(fn, args, ret, pkg, named, proc, files)[1]

    def interp_call(self, fn, args, ret, pkg, named, proc, files, out):
        n0 = len(self.I.reports)
        self.I.files_map = {n: [mkvec(STRING, l) for l in ls] for n, ls in (files or {}).items()}
        try:
            st = St(self.type(ret.split(":")[1], "en_tb_base_pkg")) if ret is not None and ret.startswith("arr:") else None
            r = self.I.invoke(self.pkg(pkg), fn, list(args), proc=proc, named=named, rst=st)
            if out is not None:
                if out not in self.I.files_map:
                    raise VError("the file was not written")
                r = (r, [list(l.raws()) for l in self.I.files_map[out]])
            err = None
        except VError as e:
            r, err = None, str(e)
        self.last_reports = self.I.reports[n0:]
        return r, err

    def line(self, chars=None):
        """a line (None: null)"""
        return NULL if chars is None else Ref(Cell("line", St(STRING), "variable", mkvec(STRING, chars)))

    def linechars(self, l):
        return [] if isinstance(l, Null) else self.chars(l.cell.val)

    def warned(self, sev="warning"):
        """condition: the last call reported with this severity"""
        return bor(*[c for c, s, t in self.last_reports if s == sev])

    def reported(self):
        return bor(*[c for c, s, t in self.last_reports if s != "lib"])

    def observe(self, name, q):
        self.obs.append((name, q))


class SymVEnv(VEnvBase):
    symbolic = True

    def choice(self, name, options):
        k = self.ctx.choose(len(options)) if len(options) > 1 else 0
        self.choices.append(k)
        return options[k]

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        if not self.ctx.feasible(c):
            raise Infeasible()
        self.ctx.assume(c)

    def bv(self, name, n):
        return self.ctx.bv(name, n)

    def vec(self, name, n, ty=SLV):
        """an arbitrary vector (n-1 downto 0)"""
        return bvec(ty, n, self.bv(name, n))

    def int(self, name, lo, hi):
        """an arbitrary integer"""
        w = hi.bit_length() or 1 if lo >= 0 else max(sbits(lo), sbits(hi))
        t = self.bv(name, w)
        x = exu(t, w) if lo >= 0 else Ex(t)
        self.ctx.assume(z3.simplify(band(x >= lo, x <= hi)))
        return x

    def flag(self, name):
        return bit_is1(self.bv(name, 1))

    def logic(self, name):
        return EV(LOGIC, self.bv(name, 1))

    def char(self, name, alphabet=None):
        t = self.bv(name, 8)
        if alphabet is not None:
            self.ctx.assume(z3.Or(*[t == ord(c) for c in alphabet]))
        return t

    def _call(self, fn, args, ret, pkg, named, proc, files=None, out=None):
        return self.interp_call(fn, args, ret, pkg, named, proc, files, out)

    def sim(self, entity, generics, stim, outs, **k):
        from .simu import simulate
        return simulate(self.I, entity, generics, stim, outs, **k)

    # ------------------------------------------------------------------ verdicts
    def check(self, c, label):
        self.checks += 1
        self.ctx.stats.obligations += 1
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
        if c is True:
            self.syntactic += 1
            self.ctx.stats.discharged += 1
            return
        ok, m = self.ctx.valid(c)
        if ok:
            self.ctx.stats.discharged += 1
            return
        if ok is None:
            self.undecided.append(dict(label=label, choices=list(self.choices)))
            return
        self.record(label, m)

    def possible(self, c, label):
        self.checks += 1
        self.ctx.stats.obligations += 1
        if c is True or c is not False and self.ctx.feasible(c):
            self.ctx.stats.discharged += 1
            return
        self.fail(label)

    def fail(self, label):
        self.checks += 1
        m = self.ctx._check([], 60)
        if m is False:
            raise Infeasible()
        if m is None:
            m = self.ctx.probe([])
        if m is None:
            raise Inconclusive("no model of the failing path")
        self.record(label, m)

    def record(self, label, m):
        self.failures.append(dict(label=label, input=self.inputs(m)))
        raise Stop()

    def inputs(self, m):
        return dict(case=self.case, data={k: str(v) for k, v in self.ctx.modelvals(m).items()}, choices=list(self.choices))

    def end(self):
        self.npaths += 1
        if len(self.samples) >= self.max_samples and self.rng.random() > 0.01 or len(self.samples) > 3 * self.max_samples:
            return
        m = None
        about = []
        if Prods.defs:
            for n, q in self.obs:
                terms_of(q, about)
        for tries in range(2):
            hints = []
            if about:
                # products: fix one operand so that the query stays easy
                for n, v in sorted(self.ctx.vars.items(), key=lambda t: t[1].size())[:1]:
                    k = v.size()
                    hints.append(v == (self.rng.randrange(1 << k) if tries == 0 else self.rng.choice((0, 1, mask(k), 1 << (k - 1)))))
            elif tries == 0:
                for n, v in self.ctx.vars.items():
                    w = v.size()
                    k = min(w, self.rng.choice((2, 3, 5)))
                    lo = self.rng.randrange(0, w - k + 1)
                    hints.append(z3.Extract(lo + k - 1, lo, v) == self.rng.randrange(1 << k))
            m = self.ctx._check(hints, 5, about)
            if m not in (None, False):
                break
        if m in (None, False):
            return
        self.samples.append(dict(input=self.inputs(m), obs=[[n, self.evalobs(q, m)] for n, q in self.obs]))

    def evalobs(self, q, m):
        def bvval(t):
            return t if conc(t) else m.eval(t, model_completion=True).as_long()

        def b(c):
            return c if isinstance(c, bool) else z3.is_true(m.eval(c, model_completion=True))
        return obsval(q, bvval, b)


def terms_of(q, out):
    if isinstance(q, R):
        q = q.x
    if isinstance(q, Ex):
        if not q.conc:
            out.append(q.v)
    elif isinstance(q, Vec):
        out += [t for t in ([q.bv] if q.bv is not None else q.lst) if not conc(t)]
    elif isinstance(q, EV):
        if not conc(q.v):
            out.append(q.v)
    elif isinstance(q, Rec):
        for x in q.f.values():
            terms_of(x, out)
    elif isinstance(q, Arr):
        for x in q.lst:
            terms_of(x, out)
    elif isinstance(q, (list, tuple)):
        for x in q:
            terms_of(x, out)
    elif isinstance(q, z3.ExprRef):
        out.append(q)


def obsval(q, bvval, b):
    if isbool(q):
        return bool(b(q))
    if isinstance(q, R):
        q = q.x
    if isinstance(q, Ex):
        if q.conc:
            return str(q.frac())
        t = bvval(q.v)
        w = q.v.size()
        return str(exs(t, w).shl(q.e).frac())
    if isinstance(q, int):
        return str(q)
    if isinstance(q, Vec):
        if q.bv is not None:
            return f"{q.left}{'to' if q.to else 'dt'}{q.n}:{bvval(q.bv)}" if q.n else "null"
        return f"{q.left}{'to' if q.to else 'dt'}{q.n}:" + ",".join(str(bvval(r)) for r in q.lst)
    if isinstance(q, EV):
        return f"e{raw_of_bit(q.ty, bvval(q.v)) if not conc(q.v) and islogic(q.ty) else bvval(q.v)}"
    if isinstance(q, Rec):
        return [obsval(x, bvval, b) for x in q.f.values()]
    if isinstance(q, Arr):
        return [obsval(x, bvval, b) for x in q.lst]
    if isinstance(q, (list, tuple)):
        return [obsval(x, bvval, b) for x in q]
    return str(q)


class ConVEnv(VEnvBase):
    """concrete run of a driver: calls are answered from a table of GHDL results, or (first round) by the interpreter"""
    symbolic = False

    def __init__(self, inp, interp, ctx, table):
        super().__init__(ctx, inp["case"], interp)
        self.inp = inp
        self.table = table
        self.pending = []          # calls answered by the interpreter
        self.begin()

    def choice(self, name, options):
        k = self.inp["choices"][len(self.choices)] if len(self.choices) < len(self.inp["choices"]) else 0
        self.choices.append(k)
        return options[k]

    def assume(self, c):
        if c is not True:
            raise Infeasible()

    def bv(self, name, n):
        if n == 0:
            return 0
        return int(self.inp["data"].get(name, 0)) & mask(n)

    def vec(self, name, n, ty=SLV):
        return bvec(ty, n, self.bv(name, n))

    def int(self, name, lo, hi):
        if lo >= 0:
            return Ex(self.bv(name, hi.bit_length() or 1))
        w = max(sbits(lo), sbits(hi))
        return Ex(exs(self.bv(name, w), w).v)

    def flag(self, name):
        return bool(self.bv(name, 1))

    def logic(self, name):
        return EV(LOGIC, raw_of_bit(LOGIC, self.bv(name, 1)))

    def char(self, name, alphabet=None):
        return self.bv(name, 8)

    def _call(self, fn, args, ret, pkg, named, proc, files=None, out=None):
        from . import ghdl
        key = ghdl.callkey(fn, args, ret, pkg, named, proc, files, out)
        if key in self.table:
            r, err, reps = self.table[key]
            self.last_reports = [(True, s, t) for s, t in reps]
            return r, err
        r, err = self.interp_call(fn, args, ret, pkg, named, proc, files, out)
        self.pending.append((key, ghdl.Call(fn, args, ret, pkg, named, proc, files, out), r, err))
        return r, err

    def sim(self, entity, generics, stim, outs, **k):
        from . import ghdl
        key = ghdl.simkey(entity, generics, stim, outs, k)
        if key in self.table:
            r, err, reps = self.table[key]
            if err is not None:
                raise VError(err)
            return r
        from .simu import simulate
        try:
            r = simulate(self.I, entity, generics, stim, outs, **k)
            err = None
        except VError as e:
            r, err = None, str(e)
        self.pending.append((key, ghdl.Sim(entity, generics, stim, outs, k), r, err))
        if err is not None:
            raise VError(err)
        return r

    def check(self, c, label):
        if c is not True:
            raise Failed(label)

    def possible(self, c, label):
        pass

    def fail(self, label):
        raise Failed(label)

    def end(self):
        pass


class Failed(PathAbort):
    pass


def run_concrete(mod, inp, interp, table):
    """(status, label, obs, pending calls)"""
    cx = Ctx()
    interp.ctx = cx
    env = ConVEnv(inp, interp, cx, table)
    status, label = "ok", None
    try:
        mod.run(env, inp["case"])
    except Failed as f:
        status, label = "fail", str(f)
    except Infeasible:
        status = "infeasible"
    except VError as e:
        status, label = "fail", "run-time error: " + str(e)
    except Unsupported as e:
        status, label = "error", "unsupported: " + str(e)
    obs = [[n, obsval(q, lambda t: t, lambda b: b)] for n, q in env.obs]
    return status, label, obs, env.pending


def replay(mod, inputs):
    """run the driver on concrete inputs with every call answered by GHDL"""
    from . import ghdl
    if not inputs:
        return []
    table = {}
    interp = Interp(Ctx(), getattr(mod, "DIRS", HDL))
    for rounds in range(8):
        results, need = [], {}
        for inp in inputs:
            st, lab, obs, pend = run_concrete(mod, inp, interp, table)
            results.append(dict(status=st, label=lab, obs=obs))
            for key, c, r, err in pend:
                need[key] = (c, r, err)
        if not need:
            break
        table.update(ghdl.execute(need, getattr(mod, "DIRS", HDL), interp))
    return results


def run_case(mod, case, opts):
    t0 = time.time()
    Prods.reset()
    logs = []
    cx = Ctx(max_paths=opts.get("max_paths", 50000), deadline=min((t0 + opts["case_s"]) if opts.get("case_s") else 1e18, opts.get("deadline", 1e18)),
             log=logs.append if opts.get("verbose") else None, timeout=opts.get("timeout", 60))
    res = dict(case=case, error=None, undecided=[], failures=[], samples=[], files=[], checks=0, syntactic=0)
    env = None
    try:
        interp = Interp(cx, getattr(mod, "DIRS", HDL))
        res["files"] = interp.files
        env = SymVEnv(cx, case, interp, seed=opts.get("seed", 1), max_samples=opts.get("samples", 6))
        nfail = opts.get("max_fail", 3)

        def one():
            if len(env.failures) >= nfail:
                raise Stop()
            env.begin()
            try:
                mod.run(env, case)
            except Dead:
                raise Infeasible()
            except VError as e:
                env.fail("run-time error: " + str(e))
            env.end()
        cx.explore(one)
    except Unsupported as e:
        import traceback
        res["error"] = "unsupported: " + str(e)
        res["trace"] = traceback.format_exc()[-2500:]
    except Inconclusive as e:
        res["error"] = "inconclusive: " + str(e)
    except PathAbort as e:
        res["error"] = "aborted"
    except RecursionError:
        res["error"] = "unsupported: recursion"
    except Exception as e:
        import traceback
        res["error"] = f"engine: {type(e).__name__}: {e}"
        res["trace"] = traceback.format_exc()[-3000:]
    if env is not None:
        res.update(failures=env.failures, samples=env.samples, undecided=env.undecided, checks=env.checks,
                   syntactic=env.syntactic)
    res["stats"] = cx.stats.as_dict()
    res["logs"] = logs
    res["wall"] = time.time() - t0
    return res
