"""Symbolic delta-cycle simulation of synthesisable entities with one clock."""
from .sym import *
from .types import *
from .interp import Scope
from .parser import Nd


def nodes(x):
    """all Nd below x"""
    if isinstance(x, Nd):
        yield x
        for v in x.a.values():
            yield from nodes(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from nodes(v)
    elif isinstance(x, dict):
        for v in x.values():
            yield from nodes(v)


def nd(k, line, **a):
    return Nd(k, line, **a)


def condassign(t, x, line):
    """t <= x when c else ...  as sequential statements"""
    if x.k != "when":
        return [nd("sassign", line, t=t, x=x)]
    return [nd("if", line, c=x.c, th=condassign(t, x.x, line), el=condassign(t, x.y, line) if x.y is not None else [])]


def identical(a, b):
    if a is b:
        return True
    if isinstance(a, EV) and isinstance(b, EV):
        return same(a.v, b.v)
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.bv is not None and b.bv is not None:
            return same(a.bv, b.bv)
        return a.n == b.n and all(same(x, y) for x, y in zip(a.raws(), b.raws()))
    if isbool(a) and isbool(b):
        return same(a, b)
    if isint(a) and isint(b):
        return same_ex(a, b)
    if isinstance(a, Rec) and isinstance(b, Rec):
        return all(identical(a.f[n], b.f[n]) for n in a.f)
    if isinstance(a, Arr) and isinstance(b, Arr):
        return len(a.lst) == len(b.lst) and all(identical(x, y) for x, y in zip(a.lst, b.lst))
    return False


def same_ex(a, b):
    a, b = ex(a), ex(b)
    return a.e == b.e and same(a.v, b.v)


def differs(a, b):
    """condition: the values differ"""
    if identical(a, b):
        return False
    if isinstance(a, EV):
        x, y = bit_of(a.ty, a.v), bit_of(b.ty, b.v)
        if x is not None and y is not None:
            return bnot(bveq(x, y, 1))
        if conc(a.v) and conc(b.v):
            return a.v != b.v
        return True            # a metavalue against a symbolic '0'/'1'
    if isinstance(a, Vec):
        if a.bv is not None and b.bv is not None:
            return bnot(bveq(a.bv, b.bv, a.n))
        return True if any(conc(x) and conc(y) and x != y or conc(x) != conc(y) for x, y in zip(a.raws(), b.raws())) else \
            bor(*[bnot(x == y) for x, y in zip(a.raws(), b.raws())])
    if isbool(a):
        return bnot(biff(a, b))
    if isint(a):
        return bnot(ex(a) == ex(b))
    if isinstance(a, Rec):
        return bor(*[differs(a.f[n], b.f[n]) for n in a.f])
    if isinstance(a, Arr):
        return bor(*[differs(x, y) for x, y in zip(a.lst, b.lst)])
    raise Unsupported("signal type")


def mentions(x, var):
    return any(n.k == "id" and n.n == var for n in nodes(x))


def first_use(body, var):
    """how the statements use the variable: none, set (assigned before any other use on every path), part, bad"""
    r = "none"
    for s in body:
        if not mentions(s, var):
            continue
        if s.k == "vassign" and s.t.k == "id" and s.t.n == var and not mentions(s.x, var):
            return "set"
        if s.k == "if" and not mentions(s.c, var):
            bs = [first_use(s.th, var), first_use(s.el, var)]
        elif s.k == "case" and not mentions(s.x, var):
            bs = [first_use(b, var) for _, b in s.arms]
        elif s.k == "loop" and not mentions([v for k, v in s.a.items() if k != "body"], var):
            bs = [first_use(s.body, var), "none"]
        else:
            return "bad"
        if "bad" in bs:
            return "bad"
        if all(b == "set" for b in bs):
            return "set"
        r = "part"
    return r


class Proc:
    def __init__(self, scope, body, sens, pure, wait=None):
        self.scope, self.body, self.sens, self.pure, self.wait = scope, body, sens, pure, wait


class Sim:
    def __init__(self, I, entity, generics):
        self.I = I
        self.procs, self.signals = [], []
        self.ports = {}
        self.instance(entity, None, {n: v for n, v in generics.items()}, {}, self.ports, 0)

    def instance(self, entity, arch, gvals, pcells, ports, depth):
        I = self.I
        if depth > 20:
            raise Unsupported("deep hierarchy")
        es = I.units.get(("entity", entity))
        if not es:
            raise Unsupported(f"no entity {entity}")
        e = es[0]
        archs = I.units.get(("arch", entity), [])
        if arch:
            archs = [a for a in archs if a.n == arch]
        if not archs:
            raise Unsupported(f"no architecture of {entity}")
        a = archs[-1]
        root = Scope(I.std, "root:" + entity)
        I.context(root, e.ctx)
        I.context(root, a.ctx)
        es = Scope(root, entity)
        for g in e.g:
            st = I.subtype(g.st, es)
            if g.n in gvals:
                v = gvals[g.n]
            elif g.dflt is not None:
                v = I.ev(g.dflt, es, st)
            else:
                raise VError(f"generic {g.n} has no value")
            es.add(g.n, Cell(g.n, st, "constant", I.coerce(v, st)))
        for p in e.p:
            st = I.subtype(p.st, es)
            if p.n in pcells:
                c = pcells[p.n]
                v = c.val
                if isinstance(v, (Vec, Arr)) and st.ty.kind == "array":
                    if st.rng is not None:
                        l, r, to = st.rng
                        n = max(0, (r - l if to else l - r) + 1)
                        if n != v.n:
                            raise VError(f"port {p.n} of {entity}: width mismatch")
                        if n and (v.left, v.to) != (l, to):
                            raise Unsupported(f"port {p.n}: index ranges differ")
                if c.st.ty is not st.ty:
                    raise Unsupported(f"port {p.n}: type conversion")
            else:
                if p.dflt is not None:
                    v = I.coerce(I.ev(p.dflt, es, st), st)
                else:
                    v = I.default(st)
                c = self.signal(p.n, st, v)
            es.add(p.n, c)
            ports[p.n] = c
        I.elab_decls(e.decls, es, None)
        sc = Scope(es, entity + ".arch")
        self.decls(a.decls, sc)
        self.concurrent(e.body, es, depth)
        self.concurrent(a.body, sc, depth)

    def signal(self, n, st, v):
        c = Cell(n, st, "signal", v)
        c.drv = Cell(n, st, "driver", v)
        self.signals.append(c)
        return c

    def decls(self, ds, sc):
        for d in ds:
            if d.k == "obj" and d.cls == "shared":
                raise Unsupported("shared variable")
            if d.k == "component":
                continue
            self.I.elab_decl(d, sc, None)
        for its in sc.d.values():
            for it in its:
                if isinstance(it, Cell) and it.cls == "signal" and it not in self.signals:
                    self.signals.append(it)

    # ------------------------------------------------------------------ concurrent statements
    def reads(self, x, sc):
        out = []
        for n in nodes(x):
            if n.k == "id":
                its = self.I.lookup(n.n, sc)
                if its and isinstance(its[0], Cell) and its[0].cls == "signal" and its[0] not in out:
                    out.append(its[0])
        return out

    def comb(self, body, sc, sens=None):
        self.procs.append(Proc(sc, body, self.reads(body, sc) if sens is None else sens, True))

    def concurrent(self, body, sc, depth):
        for s in body:
            getattr(self, "c_" + s.k)(s, sc, depth)

    def c_cassign(self, s, sc, depth):
        b = condassign(s.t, s.x, s.line)
        self.comb(b, sc)

    def c_csel(self, s, sc, depth):
        self.comb([nd("case", s.line, x=s.sel, arms=[(ch, [nd("sassign", s.line, t=s.t, x=x)]) for ch, x in s.arms])], sc)

    def c_cassert(self, s, sc, depth):
        self.comb([s.s], sc)

    def c_cpcall(self, s, sc, depth):
        self.comb([nd("pcall", s.line, x=s.x)], sc)

    def c_block(self, s, sc, depth):
        b = Scope(sc, "block")
        self.decls(s.decls, b)
        self.concurrent(s.body, b, depth)

    def c_ifgen(self, s, sc, depth):
        for c, d, b in s.arms:
            v = True if c is None else self.I.cond(self.I.ev(c, sc, St(BOOL)))
            if not isinstance(v, bool):
                raise Unsupported("symbolic generate condition")
            if v:
                g = Scope(sc, "generate")
                self.decls(d, g)
                self.concurrent(b, g, depth)
                return

    def c_forgen(self, s, sc, depth):
        l, r, to = self.I.rng(s.rng, sc)
        for i in range(l, r + 1) if to else range(l, r - 1, -1):
            g = Scope(sc, "generate")
            g.add(s.var, Cell(s.var, St(INT), "constant", i))
            self.decls(s.decls, g)
            self.concurrent(s.body, g, depth)

    def c_casegen(self, s, sc, depth):
        v = self.I.ev(s.x, sc)
        for ch, d, b in s.arms:
            c = bor(*[self.I.case_match(v, x, sc) for x in ch])
            if not isinstance(c, bool):
                raise Unsupported("symbolic generate condition")
            if c:
                g = Scope(sc, "generate")
                self.decls(d, g)
                self.concurrent(b, g, depth)
                return

    def c_process(self, s, sc, depth):
        I = self.I
        p = Scope(sc, "process")
        I.elab_decls(s.decls, p, None)
        waits = [n for n in nodes(s.body) if n.k == "wait"]
        body, wait = s.body, None
        if s.sens is None:
            if len(waits) != 1 or not s.body or not (s.body[0].k == "wait" or s.body[-1].k == "wait") or waits[0].timed:
                raise Unsupported("process with wait statements")
            w = waits[0]
            first = s.body[0].k == "wait"
            body = s.body[1:] if first else s.body[:-1]
            sens = self.reads(w.on if w.on is not None else w.until, p)
            wait = (w.until, first)
        elif s.sens == "all":
            sens = self.reads(s.body, p)
        else:
            sens = self.reads(s.sens, p)
        edge = any(n.k == "attr" and n.n in ("event", "last_value", "active") or
                   n.k == "id" and n.n in ("rising_edge", "falling_edge") for n in nodes(s.body))
        state = any(d.k == "obj" and d.cls == "variable" and first_use(body, d.n) == "bad" for d in s.decls) or \
            any(d.k in ("subbody", "file") for d in s.decls)
        assigned = self.targets(s.body, p)
        rd = [c for c in self.reads(body, p)]
        pure = not edge and not state and wait is None and all(c in sens for c in rd if c not in assigned)
        self.procs.append(Proc(p, body, sens, pure, wait))

    def targets(self, body, sc):
        r = []
        for n in nodes(body):
            if n.k == "sassign":
                t = n.t
                while t.k != "id":
                    t = t.x
                its = self.I.lookup(t.n, sc)
                if its and isinstance(its[0], Cell):
                    r.append(its[0])
        return r

    def c_inst(self, s, sc, depth):
        I = self.I
        x = s.x
        name = x.n
        es = I.units.get(("entity", name))
        if not es:
            raise Unsupported(f"instance of {name}")
        e = es[0]
        # formal types are needed to evaluate the actuals of generics
        tmp = Scope(I.std, "formal")
        I.context(tmp, e.ctx)
        tmp = Scope(tmp, "formal")
        gv = {}
        for i, a in enumerate(s.g):
            f, act = a[0], a[1]
            f = e.g[i].n if f is None else self.fname(f)
            g = next((g for g in e.g if g.n == f), None)
            if g is None:
                raise VError(f"no generic {f}")
            if act.k == "open":
                continue
            st = I.subtype(g.st, tmp)
            v = I.coerce(I.ev(act, sc, st), st)
            gv[f] = v
            tmp.add(f, Cell(f, st, "constant", v))
        pc = {}
        for i, a in enumerate(s.p):
            f, act = a[0], a[1]
            f = e.p[i].n if f is None else self.fname(f)
            p = next((p for p in e.p if p.n == f), None)
            if p is None:
                raise VError(f"no port {f}")
            if act.k == "open":
                continue
            if act.k == "id":
                its = I.lookup(act.n, sc)
                if its and isinstance(its[0], Cell) and its[0].cls == "signal":
                    pc[f] = its[0]
                    continue
            if p.mode != "in":
                raise Unsupported("port association with an expression")
            # expression: a signal of its own
            v = I.ev(act, sc, None)
            if isinstance(v, EV) and v.ty is None:
                v = I.coerce(v, St(LOGIC))
            ty = v.ty if not isbool(v) and not isint(v) else BOOL if isbool(v) else INT
            st = St(ty, (v.left, v.right, v.to)) if isinstance(v, Vec) else St(ty)
            c = self.signal("%" + f, st, v)
            h = Scope(sc, "assoc")
            h.add(c.name, c)
            self.comb([nd("sassign", s.line, t=nd("id", s.line, n=c.name), x=act)], h, self.reads(act, sc))
            pc[f] = c
        self.instance(name, s.arch, gv, pc, {}, depth + 1)

    def fname(self, f):
        if isinstance(f, str):
            return f
        if f.k == "id":
            return f.n
        raise Unsupported("formal part")

    # ------------------------------------------------------------------ simulation
    def run_proc(self, p, first=False):
        I = self.I
        if p.wait is not None:
            until, atstart = p.wait
            if first:
                if atstart:
                    return
            elif until is not None:
                c = I.cond(I.ev(until, p.scope, St(BOOL)))
                if not I.ctx.decide(c):
                    return
        I.exec_block(p.body, p.scope)

    def init(self):
        for p in self.procs:
            self.run_proc(p, True)
        self.settle()

    def settle(self):
        ctx = self.I.ctx
        for delta in range(200):
            changed = {}
            for s in self.signals:
                c = differs(s.val, s.drv.val)
                if c is not False:
                    changed[s] = c
            if not changed:
                return
            for s, c in changed.items():
                s.val = s.drv.val
                s.ev = c
            for p in self.procs:
                c = bor(*[changed[s] for s in p.sens if s in changed])
                if c is False:
                    continue
                if c is not True and not p.pure:
                    if not ctx.decide(c):
                        continue
                self.run_proc(p)
            for s in changed:
                s.ev = False
        raise Unsupported("no stable state")

    def set(self, name, v):
        c = self.ports[name]
        st = self.I.subtype_of(c.val, c.st) if isinstance(c.val, (Vec, Arr)) else c.st
        c.drv.val = self.I.coerce(v, st)


def simulate(I, entity, generics, stim, outs, clk="clk"):
    """per clock cycle (outputs before the rising edge, outputs after it)"""
    s = Sim(I, entity, generics)
    bit = [EV(LOGIC, 2), EV(LOGIC, 3)]
    s.ports[clk].val = s.ports[clk].drv.val = bit[0]
    for n, v in stim[0].items():
        s.set(n, v)
        s.ports[n].val = s.ports[n].drv.val
    s.init()
    res = []
    for cyc in stim:
        s.set(clk, bit[0])
        s.settle()
        for n, v in cyc.items():
            s.set(n, v)
        s.settle()
        pre = {o: s.ports[o].val for o in outs}
        s.set(clk, bit[1])
        s.settle()
        res.append((pre, {o: s.ports[o].val for o in outs}))
    return res
