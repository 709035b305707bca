"""Path exploration and lowering to QF_BV.

One Ctx explores every path of a driver by re-execution with decision prefixes.  Control facts
(linear facts about format fields / shift amounts) are decided by z3's linear integer solver; all
facts about data go to z3's bit-vector solver with widths chosen so that nothing can overflow.
"""
import time
from fractions import Fraction
import z3
from . import num as N
from .num import Lin, Unsupported

CW = 16          # width used for control variables in bit-vector queries


class PathAbort(BaseException):
    pass


class Infeasible(PathAbort):
    pass


class Inconclusive(Exception):
    """solver gave no answer within its budget (never a verdict)"""


class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.ctl_queries = 0
        self.obligations = 0
        self.discharged = 0
        self.cubes = 0
        self.rne = 0
        self.lin_queries = 0
        self.lin_unsat = 0

    def merge(self, d):
        for k, v in d.items():
            setattr(self, k, getattr(self, k, 0) + v)

    def as_dict(self):
        return dict(self.__dict__)


CUR = None       # current Ctx


def cur():
    return CUR


class Facts:
    """interned chain of path facts, so caches survive re-execution"""
    tab = {}

    @staticmethod
    def ext(parent, bid):
        k = (parent, bid)
        r = Facts.tab.get(k)
        if r is None:
            r = len(Facts.tab) + 1
            Facts.tab[k] = r
        return r


class Model:
    def __init__(self, ctl, data):
        self.ctl = ctl      # name -> int
        self.data = data    # name -> int / bool


class Ctx:
    def __init__(self, timeout=4.0, cube_timeout=20.0, max_paths=20000, log=None, deadline=None):
        self.timeout = timeout
        self.cube_timeout = cube_timeout
        self.lin_timeout = 1.0
        self.max_paths = max_paths
        self.stats = Stats()
        self.log = log
        self.deadline = deadline
        self.cache = {}
        self.ctlcache = {}
        self.settled = set()
        self.reset_path([])

    # ---------------------------------------------------------------- path state
    def reset_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.facts = []              # Bool facts (control + data) on this path
        self.factset = set()
        self.pc = 0                  # interned id of control facts
        self.pcd = 0                 # interned id of all facts
        self.box = {}                # control var -> (lo,hi)
        self.vars = {}               # data var name -> dict
        self.cfacts = []             # z3 int constraints on this path
        self.clins = []              # Lin l with fact l <= 0
        self.csolver = None
        self.lowcache = {}
        self.warnings = []
        self.fresh = 0
        self.eqs = []                # solved control equalities (var, Lin)
        self.notes = {}

    # ---------------------------------------------------------------- declaration
    def ctlvar(self, name, lo, hi):
        self.box[name] = (lo, hi)
        n = N.cvar(name)
        self.assume(N.le(N.const(lo), n))
        self.assume(N.le(n, N.const(hi)))
        return n

    def datavar(self, name, lo, hi, wl):
        """integer data variable with Num bounds lo..hi, |v| <= 2**w for a Lin w in wl"""
        self.vars[name] = dict(lo=lo, hi=hi, wl=wl)
        a = N.mkatom("var", name)
        x = N.from_atom(a)
        self.assume(N.le(lo, x))
        self.assume(N.le(x, hi))
        return x

    def boolvar(self, name):
        return N.bvar(name)

    # ---------------------------------------------------------------- facts
    def assume(self, b):
        if b.kind == "const":
            if not b.args[0]:
                raise Infeasible()
            return
        if b.kind == "and":
            for q in b.args:
                self.assume(q)
            return
        if b in self.factset:
            return
        self.factset.add(b)
        self.facts.append(b)
        self.pcd = Facts.ext(self.pcd, b.id)
        if N.is_control(b):
            self.pc = Facts.ext(self.pc, b.id)
            self.cfacts.append(self.ctl_z3(b))
            if self.csolver is not None:
                self.csolver.add(self.cfacts[-1])
            if b.kind == "<=":
                self.clins.append(N.as_lin(b.args[0]))
            elif b.kind == "==":
                l = N.as_lin(b.args[0])
                self.clins.append(l)
                self.clins.append(l.neg())
                self._solve_eq(l)

    def _solve_eq(self, l):
        l = self.reduce(l)
        for n, v in l.t:
            if v in (1, -1):
                rest = Lin(tuple(x for x in l.t if x[0] != n), l.c)
                sol = rest.scale(-v)
                self.eqs = [(m, self._subst1(e, n, sol)) for m, e in self.eqs] + [(n, sol)]
                return

    @staticmethod
    def _subst1(l, n, sol):
        for m, v in l.t:
            if m == n:
                return Lin(tuple(x for x in l.t if x[0] != n), l.c).add(sol.scale(v))
        return l

    def reduce(self, l):
        if l.t and self.eqs:
            for n, sol in self.eqs:
                l = self._subst1(l, n, sol)
        return l

    # ---------------------------------------------------------------- control solver
    def lin_z3(self, l):
        e = z3.IntVal(l.c)
        for n, v in l.t:
            e = e + v * z3.Int(n)
        return e

    _zc = {}

    def ctl_z3(self, b):
        r = Ctx._zc.get(b)
        if r is None:
            if len(Ctx._zc) > 20000:
                Ctx._zc.clear()
            r = Ctx._zc[b] = self._ctl_z3(b)
        return r

    def _ctl_z3(self, b):
        k = b.kind
        if k == "const":
            return z3.BoolVal(b.args[0])
        if k == "<=":
            return self.lin_z3(N.as_lin(b.args[0])) <= 0
        if k == "<":
            return self.lin_z3(N.as_lin(b.args[0])) < 0
        if k == "==":
            return self.lin_z3(N.as_lin(b.args[0])) == 0
        if k == "not":
            return z3.Not(self.ctl_z3(b.args[0]))
        if k == "and":
            return z3.And(*[self.ctl_z3(q) for q in b.args])
        raise Unsupported(k)

    def _cs(self):
        if self.csolver is None:
            self.csolver = z3.SolverFor("QF_LIA")
            self.csolver.set("timeout", 20000)
            for f in self.cfacts:
                self.csolver.add(f)
        return self.csolver

    def ctl_sat(self, *zs):
        """satisfiability of control facts + zs; returns model or None"""
        s = self._cs()
        self.stats.ctl_queries += 1
        t = time.time()
        s.push()
        for z in zs:
            s.add(z)
        r = s.check()
        m = s.model() if r == z3.sat else None
        s.pop()
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            raise Inconclusive("control solver unknown")
        return m

    def boxmax(self, l):
        v = l.c
        for n, k in l.t:
            lo, hi = self.box[n]
            v += k * (hi if k > 0 else lo)
        return v

    def ctl_possible(self, b):
        """can control Bool b hold on this path?"""
        if b.kind == "const":
            return b.args[0]
        key = (self.pc, b.id)
        r = self.ctlcache.get(key)
        if r is None:
            r = self._ctl_possible(b)
            self.ctlcache[key] = r
        return r

    def _ctl_possible(self, b):
        if b.kind == "<=":
            l = N.as_lin(b.args[0])
            if -self.boxmax(l.neg()) > 0:
                return False
            # single known fact f <= 0 with l - (-f).. : l > 0 is forced when -f+1.. cheap check
            for f in self.clins:
                s = l.add(f)          # l = s - f ;  f <= 0 ; if s > 0 always then l > 0
                if not s.t:
                    if s.c > 0:
                        return False
        return self.ctl_sat(self.ctl_z3(b)) is not None

    def entails(self, b):
        return not self.ctl_possible(N.bnot(b))

    def lin_ge0(self, l):
        l = self.reduce(l)
        if not l.t:
            return l.c >= 0
        return self.entails(N.le(N.ZERO, N.from_lin(l)))

    def maxlin(self, l):
        l = self.reduce(l)
        if not l.t:
            return l.c
        key = ("max", self.pc, l)
        r = self.ctlcache.get(key)
        if r is None:
            hi = self.boxmax(l)
            e = self.lin_z3(l)
            m = self.ctl_sat()
            if m is None:
                raise Infeasible()
            lo = m.eval(e, model_completion=True).as_long()
            step = 1
            # try the upper bound first, then bisect
            while lo < hi:
                mid = (lo + hi + 1) // 2
                m = self.ctl_sat(e >= mid)
                if m is None:
                    hi = mid - 1
                else:
                    lo = m.eval(e, model_completion=True).as_long()
            r = lo
            self.ctlcache[key] = r
        return r

    def minlin(self, l):
        return -self.maxlin(l.neg())

    # ---------------------------------------------------------------- decisions
    def decide(self, b):
        if b.kind == "const":
            return b.args[0]
        if b in self.factset:
            return True
        nb = N.bnot(b)
        if nb in self.factset:
            return False
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive("deadline")
        ctl = N.is_control(b)
        if not ctl:
            # paths that only the linear abstraction admits are explored too (harmless: their
            # obligations hold vacuously and a counterexample needs a bit-precise model)
            pt, pf = self.maybe(b), self.maybe(nb)
            if pt and pf and not self.box:
                pt, pf = self.possible(b), self.possible(nb)
        i = len(self.trace)
        if i < len(self.prefix):
            v, open_ = self.prefix[i]
        else:
            if ctl:
                pt = self.ctl_possible(b)
                pf = self.ctl_possible(nb)
            if not pt and not pf:
                raise Infeasible()
            v, open_ = pt, (pt and pf)
        self.trace.append((v, open_))
        self.assume(b if v else nb)
        return v

    def choose(self, n, label=""):
        """nondeterministic choice 0..n-1 (each explored on its own path)"""
        for k in range(n - 1):
            i = len(self.trace)
            if i < len(self.prefix):
                v, open_ = self.prefix[i]
            else:
                v, open_ = True, True
            self.trace.append((v, open_))
            if v:
                return k
        return n - 1

    def concretize(self, x):
        """fork over every feasible integer value of Num x; returns int"""
        if N.is_const(x):
            v = N.const_val(x)
            if v.denominator != 1:
                raise Unsupported("concretize non-integer")
            return int(v)
        l = N.as_lin(x)
        if l is not None:
            l = self.reduce(l)
            if not l.t:
                return l.c
            while True:
                m = self.minlin(l)
                if self.decide(N.eq(N.from_lin(l), N.const(m))):
                    return m
                l = self.reduce(l)
                if not l.t:
                    return l.c
        # data: enumerate models
        for _ in range(4096):
            m = self.find(N.bconst(True))
            if m is None:
                raise Infeasible()
            v = self.eval(x, m)
            if v.denominator != 1:
                raise Unsupported("concretize non-integer")
            if self.decide(N.eq(x, N.const(v))):
                return int(v)
        raise Unsupported("concretize: too many values")

    # ---------------------------------------------------------------- settling exponents
    def minbase(self, lins, fork=True):
        """the least of the exponents; forks (fork=True) until one is known to be least"""
        best = {}
        for l in lins:
            l = self.reduce(l)
            b = best.get(l.t)
            if b is None or l.c < b.c:
                best[l.t] = l
        ls = list(best.values())
        while len(ls) > 1:
            a, b = ls[0], ls[1]
            if self.lin_ge0(b.sub(a)):
                ls.pop(1)
            elif self.lin_ge0(a.sub(b)):
                ls.pop(0)
            elif not fork:
                return Lin((), min(self.minlin(l) for l in ls))
            elif self.decide(N.le(N.from_lin(a), N.from_lin(b))):
                ls.pop(1)
            else:
                ls.pop(0)
        return ls[0]

    def settle(self, b):
        """fork until every exponent comparison needed to lower b is decided (deterministic, so
        that replayed prefixes meet the same decisions)"""
        key = (self.pc, b.id)
        if key in self.settled:
            return
        pc0 = self.pc
        n0 = len(self.trace)
        self._settle_bool(b, set())
        if self.pc == pc0 and len(self.trace) == n0:
            self.settled.add(key)

    def settle_all(self, b):
        for f in list(self.facts):
            if not N.is_control(f):
                self.settle(f)
        self.settle(b)

    def _settle_bool(self, b, seen):
        if b in seen:
            return
        seen.add(b)
        if b.kind in ("<", "<=", "=="):
            self._settle_num(b.args[0], seen)
        elif b.kind in ("not", "and"):
            for q in b.args:
                self._settle_bool(q, seen)

    def _settle_num(self, x, seen):
        if x in seen or not x.t:
            return
        seen.add(x)
        if len(x.t) > 1:
            self.minbase(N.term_lins(x))
        for (a, l) in x.t:
            if a is not None:
                self._settle_atom(a, seen)

    def _settle_atom(self, a, seen):
        if a in seen:
            return
        seen.add(a)
        k, g = a.kind, a.args
        if k == "floor":
            self._settle_num(g[0], seen)
            b = self.minbase(N.term_lins(g[0]))
            if not self.lin_ge0(b) and not self.lin_ge0(b.neg()):
                self.decide(N.le(N.ZERO, N.from_lin(b)))
        elif k == "ite":
            self._settle_bool(g[0], seen)
            self._settle_num(g[1], seen)
            self._settle_num(g[2], seen)
        elif k == "mul":
            for q in g:
                self._settle_atom(q, seen)
        elif k in ("rne", "divc", "mod"):
            self._settle_num(g[0], seen)
        elif k == "bitop":
            self._settle_num(g[1], seen)
            self._settle_num(g[2], seen)

    # ---------------------------------------------------------------- exploration
    def explore(self, fn):
        """run fn() on every path"""
        global CUR
        stack = [[]]
        old = CUR
        CUR = self
        try:
            while stack:
                pre = stack.pop()
                self.reset_path(pre)
                if self.deadline and time.time() > self.deadline:
                    raise Inconclusive("deadline")
                try:
                    fn()
                    self.stats.paths += 1
                except PathAbort:
                    pass
                tr = self.trace
                for i in range(len(tr) - 1, len(pre) - 1, -1):
                    v, open_ = tr[i]
                    if open_:
                        stack.append(tr[:i] + [(not v, False)])
                        tr = tr[:i] + [(v, False)]
                # order: deepest alternative explored first
                if self.stats.paths > self.max_paths:
                    raise Inconclusive(f"more than {self.max_paths} paths")
        finally:
            CUR = old

    # ---------------------------------------------------------------- data queries
    def maybe(self, b):
        if b.kind == "const":
            return b.args[0]
        key = (self.pcd, "maybe", b.id)
        r = self.cache.get(key)
        if r is None:
            r = self.cache[key] = self.linear([b])[0] != "unsat"
        return r

    def possible(self, b):
        r = self.query([b], self.timeout, cube=False)
        return r[0] != "unsat"

    def find(self, b):
        self.settle_all(b)
        key = (self.pcd, "find", b.id)
        r = self.cache.get(key)
        if r is None:
            r = self.query([b], self.timeout, cube=True)
            if r[0] == "unknown":
                raise Inconclusive("find")
            self.cache[key] = r
        return r[1] if r[0] == "sat" else None

    def valid(self, b, cube=True, timeout=None):
        """is b true for every value on this path?  -> (True,None) | (False,model) | (None,None)"""
        if b.kind == "const" and b.args[0]:
            return True, None
        if b in self.factset:
            return True, None
        if not self.maybe(N.bnot(b)):
            return True, None
        key = (self.pcd, "lvalid", b.id)
        r = self.cache.get(key)
        if r is None:
            sub = self.subgoal(b)
            r = self.cache[key] = sub is not None and (
                sub.kind == "const" and sub.args[0] or self.linear([N.bnot(sub)])[0] == "unsat")
        if r:
            return True, None
        self.settle_all(b)
        key = (self.pcd, "valid", b.id)
        if key in self.cache:
            return self.cache[key]
        r = self.query([N.bnot(b)], timeout or self.timeout, cube=cube)
        out = {"unsat": (True, None), "sat": (False, r[1]), "unknown": (None, None)}[r[0]]
        if out[0] is not None:
            self.cache[key] = out
        return out

    @staticmethod
    def subgoal(b):
        """mod(M1,k) == mod(M2,k) follows from M1 == M2"""
        if b.kind != "==" or len(b.args[0].t) != 2:
            return None
        (k1, c1), (k2, c2) = b.args[0].t.items()
        a1, a2 = k1[0], k2[0]
        if c1 != -c2 or k1[1] != k2[1] or a1 is None or a2 is None:
            return None
        if a1.kind != a2.kind or a1.kind not in ("mod", "floor", "rne", "divc"):
            return None
        if a1.args[1:] != a2.args[1:]:
            return None
        return N.eq(a1.args[0], a2.args[0])

    def query(self, bs, timeout, cube=True):
        for b in bs:
            if b.kind == "const" and not b.args[0]:
                return ("unsat", None)
        if all(N.is_control(b) for b in bs) and all(N.is_control(f) for f in self.facts):
            m = self.ctl_sat(*[self.ctl_z3(b) for b in bs if b.kind != "const"])
            if m is None:
                return ("unsat", None)
            return ("sat", Model({n: m.eval(z3.Int(n), model_completion=True).as_long() for n in self.box}, {}))
        from .lower import Lowering
        r, ctl = self.linear(bs)
        if r == "unsat":
            return r, None
        low = Lowering(self)
        r, m = self._solve(low, bs, timeout)
        if r == "unknown" and ctl is not None and cube:
            # the same query at the control values suggested by the abstraction
            sub = self.at(ctl)
            if sub is not None:
                r, m = sub._solve(Lowering(sub), bs, self.cube_timeout)
                if r != "sat":
                    r = "unknown"
        if r == "unknown" and cube:
            r, m = self._cube(low, bs)
        return r, m

    def linear(self, bs):
        """mixed integer linear abstraction (unsat is a proof); also suggests control values"""
        from .lra import Lra
        t = time.time()
        L = Lra(self)
        try:
            cons = L.build(self.facts, bs)
        except Unsupported:
            return "unknown", None
        s = z3.SolverFor("QF_LIRA")
        s.set("timeout", int(self.lin_timeout * 1000))
        s.from_string(cons)
        t1 = time.time()
        r = s.check()
        dt = time.time() - t1
        self.stats.queries += 1
        self.stats.solver_s += dt
        self.stats.lin_queries += 1
        if self.log and dt > 0.5:
            self.log(f"slow linear query {dt:.1f}s {r} cons={len(L.cons)}")
        if r == z3.unsat:
            self.stats.unsat += 1
            self.stats.lin_unsat += 1
            return "unsat", None
        if r == z3.sat:
            m = s.model()
            return "sat", {n: m.eval(z3.Int("c_" + n), model_completion=True).as_long() for n in L.ctl}
        return "unknown", None

    def at(self, ctl):
        sub = self
        for n, v in ctl.items():
            sub = sub.fork_with(N.eq(N.cvar(n), N.const(v)))
            if sub is None:
                return None
        return sub

    def _solve(self, low, bs, timeout, extra=()):
        zs = low.formula(list(self.facts) + list(bs))
        s = z3.SolverFor("QF_BV")
        s.set("timeout", int(timeout * 1000))
        for z in zs:
            s.add(z)
        for z in extra:
            s.add(z)
        t = time.time()
        r = s.check()
        dt = time.time() - t
        self.stats.queries += 1
        self.stats.solver_s += dt
        if self.log and dt > 1.0:
            self.log(f"slow query {dt:.1f}s {r}")
        if r == z3.unsat:
            self.stats.unsat += 1
            return "unsat", None
        if r == z3.unknown:
            self.stats.unknown += 1
            return "unknown", None
        self.stats.sat += 1
        m = s.model()
        mm = low.model(m)
        if low.abstracted and not self._consistent(mm, bs):
            # spurious model of an abstracted product: redo with the real multiplication at the
            # control values of this model, otherwise give up
            return self._refine(mm, bs, timeout)
        return "sat", mm

    def _consistent(self, mm, bs):
        from .evalc import Evaluator
        ev = Evaluator(self, mm)
        try:
            return all(ev.bool(b) for b in list(self.facts) + list(bs))
        except KeyError:
            return False

    def _refine(self, mm, bs, timeout):
        from .lower import Lowering
        low = Lowering(self, realmul=True)
        eqs = list(self.eqs)
        zs = low.formula(list(self.facts) + list(bs))
        s = z3.SolverFor("QF_BV")
        s.set("timeout", int(self.cube_timeout * 1000))
        for z in zs:
            s.add(z)
        t = time.time()
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            return "sat", low.model(s.model())
        self.stats.unknown += 1
        return "unknown", None

    def _cube(self, low, bs):
        """split the query on the exact value of a shift amount"""
        from .lower import Lowering
        cand = sorted(low.shifts.items(), key=lambda kv: (-kv[1][0], kv[1][2]))
        cand = [(l, mn, mx) for l, (cnt, mn, mx) in cand if mx > mn]
        if not cand:
            return self._solve(low, bs, self.cube_timeout)
        l, mn, mx = cand[0]
        for v in range(mn, mx + 1):
            if self.deadline and time.time() > self.deadline:
                raise Inconclusive("deadline")
            sub = self.fork_with(N.eq(N.from_lin(l), N.const(v)))
            if sub is None:
                continue
            self.stats.cubes += 1
            lw = Lowering(sub)
            r, m = sub._solve(lw, bs, self.cube_timeout)
            if r == "unknown" and lw.shifts and any(b > a for _, a, b in lw.shifts.values()):
                r, m = sub._cube(lw, bs)
            if r != "unsat":
                return r, m
        return "unsat", None

    def fork_with(self, b):
        """a scratch copy of this path state with one more fact (None if infeasible)"""
        c = Ctx.__new__(Ctx)
        c.__dict__.update(self.__dict__)
        c.facts = list(self.facts)
        c.factset = set(self.factset)
        c.cfacts = list(self.cfacts)
        c.clins = list(self.clins)
        c.eqs = list(self.eqs)
        c.csolver = None
        c.lowcache = {}
        if b.kind == "const":
            return c if b.args[0] else None
        if not c.ctl_possible(b):
            return None
        c.assume(b)
        return c

    def eval(self, x, model):
        from .evalc import Evaluator
        return Evaluator(self, model).num(x)
