"""Symbolic interpreter for VHDL subprograms and simple synchronous designs, over the real source files."""
import glob
import os
import re
import z3
from fractions import Fraction
from .sym import *
from .types import *
from . import parser as PA
from .builtins import Builtins, BI, strv, VFile

REPO = os.environ.get("VERIF_REPO", "/repo")


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class ExitX(Exception):
    def __init__(self, label):
        self.label = label


class NextX(Exception):
    def __init__(self, label):
        self.label = label


class EL:
    """enumeration literal"""
    __slots__ = ("ev",)

    def __init__(self, ev):
        self.ev = ev


class SubP:
    """subprogram"""
    __slots__ = ("node", "scope", "body", "bscope", "sig", "name", "psts", "rst")

    def __init__(self, node, scope):
        self.node, self.scope, self.name = node, scope, node.n
        self.body = node if node.k == "subbody" else None
        self.bscope = scope
        self.psts = None
        self.rst = None


class Scope:
    __slots__ = ("d", "parent", "uses", "name", "pkgs")

    def __init__(self, parent=None, name=""):
        self.d = {}
        self.parent = parent
        self.uses = []
        self.name = name

    def add(self, n, item):
        self.d.setdefault(n, []).append(item)


class Deferred:
    """an aggregate, evaluated once its type is known"""
    __slots__ = ("node", "scope")

    def __init__(self, node, scope):
        self.node, self.scope = node, scope


def overloadable(it):
    return isinstance(it, (SubP, EL, BI))


_PARSED = {}


def find_units(dirs):
    """design units by (kind, name) in the VHDL files of the directories"""
    units, files = {}, []
    for d in dirs:
        for fn in sorted(glob.glob(os.path.join(REPO, d, "**", "*.vhd"), recursive=True) +
                         glob.glob(os.path.join(REPO, d, "**", "*.vhdl"), recursive=True)):
            key = (fn, os.stat(fn).st_mtime_ns)
            if key not in _PARSED:
                _PARSED[key] = PA.parse_file(fn)
            for u in _PARSED[key]:
                n = u.n if u.k != "arch" else u.ent
                units.setdefault((u.k, n), []).append(u)
            files.append(os.path.relpath(fn, REPO))
    return units, files


class Interp(Builtins):
    def __init__(self, ctx, dirs=("hdl",)):
        self.ctx = ctx
        self.units, self.files = find_units(dirs)
        self.packages = {}
        self.journal = []
        self.reports = []
        self.ifcount = 0
        self.depth = 0
        self.steps = 0
        self.loopdepth = 0
        self.lines = {}
        self.std = self.make_std()

    # ------------------------------------------------------------------ libraries
    def make_std(self):
        s = Scope(None, "std.standard")
        self.builtin_scope(s)
        self.libs = {}
        for l in ("std", "ieee", "work"):
            self.libs[l] = Scope(None, l)
        self.ieee_scopes()
        return s

    def use(self, scope, names):
        for n in names:
            if n[0] == "context":
                continue
            lib = n[0]
            if len(n) == 1:
                continue
            pk = self.package(lib, n[1])
            if pk is None:
                continue
            if len(n) == 2:
                scope.add(n[1], pk)
            elif n[2] == "all":
                if pk not in scope.uses:
                    scope.uses.append(pk)
            else:
                for it in pk.d.get(n[2], []):
                    scope.add(n[2], it)

    def package(self, lib, name):
        if lib in ("ieee", "std"):
            r = self.libs[lib].d.get(name)
            return r[0] if r else None
        if name in self.packages:
            return self.packages[name]
        us = self.units.get(("package", name))
        if not us:
            return None
        u = us[0]
        root = Scope(self.std, "root:" + name)
        self.context(root, u.ctx)
        hs = Scope(root, name)
        self.packages[name] = hs
        self.elab_decls(u.decls, hs, None)
        bs = self.units.get(("packbody", name))
        if bs:
            b = bs[0]
            broot = Scope(root, "broot:" + name)
            self.context(broot, b.ctx)
            # names of the header are visible in the body
            body = Scope(None, name + ".body")
            hsview = Scope(broot, name)
            hsview.d = hs.d
            hsview.uses = hs.uses
            body.parent = hsview
            self.elab_decls(b.decls, body, hs)
        return hs

    def context(self, scope, ctx):
        for c in ctx:
            if c.k == "use":
                self.use(scope, c.names)

    # ------------------------------------------------------------------ lookup
    def lookup(self, name, scope):
        over = []
        s = scope
        while s is not None:
            its = s.d.get(name)
            if its:
                if not overloadable(its[-1]):
                    if over:
                        return over
                    return [its[-1]]
                over.extend(i for i in its if i not in over)
            for u in s.uses:
                its = u.d.get(name)
                if its:
                    if not overloadable(its[-1]):
                        if not over:
                            # two different types of the same name hide each other; take the first
                            return [its[-1]]
                    else:
                        over.extend(i for i in its if i not in over)
            s = s.parent
        if over:
            return over
        if name in self.libs:
            return [self.libs[name]]
        return []

    # ------------------------------------------------------------------ declarations
    def elab_decls(self, decls, scope, header):
        for d in decls:
            self.elab_decl(d, scope, header)

    def elab_decl(self, d, scope, header=None):
        k = d.k
        if k in ("subdecl", "subbody"):
            sp = SubP(d, scope)
            if k == "subbody":
                # complete an earlier declaration
                for s in (scope, header):
                    if s is None:
                        continue
                    for it in s.d.get(d.n, []):
                        if isinstance(it, SubP) and it.body is None and len(it.node.params) == len(d.params) and \
                                self.samesig(it, sp):
                            it.body = d
                            it.bscope = scope
                            return
            scope.add(d.n, sp)
        elif k == "obj":
            if d.init is None and d.cls == "constant":
                return       # deferred constant
            st = self.subtype(d.st, scope)
            if d.init is not None:
                v = self.coerce(self.ev(d.init, scope, st), st, d)
            else:
                v = self.default(st)
            c = Cell(d.n, st, d.cls, v)
            if d.cls == "signal":
                c.drv = Cell(d.n, st, "driver", v)
            scope.add(d.n, c)
        elif k == "type":
            self.elab_type(d, scope)
        elif k == "subtypedecl":
            scope.add(d.n, self.subtype(d.st, scope))
        elif k == "alias":
            its = self.resolve(d.x, scope, soft=True)
            if its is not None:
                for it in its:
                    scope.add(d.n, it)
            else:
                raise Unsupported(f"alias {d.n}")
        elif k == "use":
            self.use(scope, d.names)
        elif k == "file":
            f = Cell(d.n, St(TEXT), "file", self.newfile())
            scope.add(d.n, f)
            if d.fn is not None:
                mode = "read_mode"
                if d.mode is not None:
                    mode = FOK.lits[self.ev(d.mode, scope).v]
                self.file_open(f.val, self.ev(d.fn, scope), mode)
        else:
            raise Unsupported(f"declaration {k}")

    def samesig(self, a, b):
        try:
            pa, pb = self.params(a), self.params(b)
        except VError:
            return False
        except Unsupported:
            return [self.srcof(p.st) for p in a.node.params] == [self.srcof(p.st) for p in b.node.params]
        if [p.ty for p in pa] != [p.ty for p in pb]:
            return False
        return a.node.kind == b.node.kind and (a.node.kind == "procedure" or self.retst(a).ty is self.retst(b).ty)

    def srcof(self, st):
        x = st.mark
        r = []
        while x.k == "sel":
            r.append(x.n)
            x = x.x
        r.append(x.n if x.k == "id" else "?")
        return r[0]

    def elab_type(self, d, scope):
        t = d.d
        if t.k == "enum":
            ty = Ty("enum", d.n, lits=t.lits)
            scope.add(d.n, St(ty))
            for i, l in enumerate(t.lits):
                if not l.startswith("'"):
                    scope.add(l, EL(EV(ty, i)))
        elif t.k == "record":
            ty = Ty("record", d.n, fields=[(n, self.subtype(st, scope)) for n, st in t.fields])
            scope.add(d.n, St(ty))
        elif t.k == "array":
            if len(t.idx) != 1:
                raise Unsupported("multi-dimensional array")
            es = self.subtype(t.elem, scope)
            ty = Ty("array", d.n, elem=es, idx=St(INT, (INTMIN, INTMAX, True)), rng=None)
            r = t.idx[0]
            rng = None
            if r is not None:
                rng = self.rng(r, scope)
                ty.idx = St(INT, rng)
            scope.add(d.n, St(ty, rng, es))
        elif t.k == "access":
            scope.add(d.n, St(Ty("access", d.n, st=self.subtype(t.st, scope))))
        elif t.k == "filetype":
            scope.add(d.n, St(TEXT))
        elif t.k == "rangetype":
            r = self.rng(t.rng, scope)
            scope.add(d.n, St(Ty("int", d.n), r))
        else:
            raise Unsupported(f"type {d.n}")

    def resolve(self, x, scope, soft=False):
        """items a (selected) name denotes, None when it is an expression"""
        if x.k == "id":
            its = self.lookup(x.n, scope)
            if not its and not soft:
                raise Unsupported(f"unknown name {x.n} (line {x.line})")
            return its or None
        if x.k == "sel":
            b = self.resolve(x.x, scope, soft=True)
            if b and isinstance(b[0], Scope):
                s = b[0]
                if s.name == "work":
                    p = self.package("work", x.n)
                    return [p] if p is not None else None
                its = s.d.get(x.n)
                return its
        return None

    # ------------------------------------------------------------------ subtypes
    def subtype(self, n, scope):
        if n.k != "subtype":
            raise Unsupported("subtype")
        m = n.mark
        if m.k == "attr":
            if m.n == "subtype":
                v = self.ev(m.x, scope)
                return self.subtype_of(v, self.cellst(m.x, scope))
            if m.n == "element":
                st = self.cellst(m.x, scope)
                v = self.ev(m.x, scope)
                return self.elemst(v, st)
            if m.n == "base":
                return self.subtype(Nd("subtype", n.line, mark=m.x, cons=[], rng=None), scope)
            raise Unsupported("attribute as type")
        its = self.resolve(m, scope)
        if not its:
            raise Unsupported(f"unknown type {getattr(m, 'n', m)} (line {n.line})")
        st = its[0]
        if isinstance(st, SubP) or not isinstance(st, St):
            raise Unsupported(f"{m.n} is not a type (line {n.line})")
        if n.rng is not None:
            st = St(st.ty, self.rng(n.rng, scope), st.elem)
        if n.cons:
            if st.ty.kind != "array":
                raise Unsupported("constraint on " + st.ty.name)
            es = st.elem or st.ty.elem
            r = st.rng
            c = n.cons[0]
            if c[0].k != "open":
                r = self.rng(c[0], scope)
            if len(n.cons) > 1:
                es = St(es.ty, self.rng(n.cons[1][0], scope), es.elem)
            st = St(st.ty, r, es)
        return st

    def subtype_of(self, v, st):
        if isinstance(v, Vec):
            return St(v.ty, (v.left, v.right, v.to), v.ty.elem)
        if isinstance(v, Arr):
            return St(v.ty, (v.left, v.right, v.to), self.elemst(v, st))
        return st

    def elemst(self, v, st):
        """element subtype of an array value"""
        if isinstance(v, Arr):
            if v.est is not None:
                return v.est
            if v.lst:
                return self.subtype_of(v.lst[0], v.ty.elem)
        if st is not None and st.elem is not None:
            return st.elem
        return v.ty.elem

    def cellst(self, x, scope):
        if x.k == "id":
            its = self.lookup(x.n, scope)
            if its and isinstance(its[0], Cell):
                return its[0].st
        return None

    def rng(self, n, scope):
        """(left, right, to) with concrete bounds"""
        if n.k == "range":
            st = self.rangety(n, scope)
            l, r = self.cint(self.ev(n.left, scope, st)), self.cint(self.ev(n.right, scope, st))
            return (l, r, n.dir == "to")
        if n.k == "attr" and n.n in ("range", "reverse_range"):
            its = self.resolve(n.x, scope, soft=True)
            if its and isinstance(its[0], St):
                st = its[0]
                r = st.rng if st.rng is not None else (0, len(st.ty.lits) - 1, True)
            else:
                v = self.ev(n.x, scope)
                r = (v.left, v.right, v.to)
            return r if n.n == "range" else (r[1], r[0], not r[2])
        its = self.resolve(n, scope, soft=True) if n.k in ("id", "sel") else None
        if its and isinstance(its[0], St):
            st = its[0]
            if st.ty.kind in ("enum", "bool"):
                return (0, len(st.ty.lits) - 1, True)
            return st.rng
        raise Unsupported("range " + n.k)

    def rangety(self, n, scope):
        """base type of a discrete range"""
        if n.k == "range":
            mark = getattr(n, "mark", None)
            if mark is not None:
                its = self.resolve(mark, scope, soft=True)
                if its and isinstance(its[0], St):
                    return St(its[0].ty)
            if n.left.k in ("id", "sel", "chr", "attr", "call"):
                for x in (n.left, n.right):
                    try:
                        v = self.ev(x, scope)
                    except (Unsupported, VError):
                        continue
                    if isinstance(v, bool):
                        return St(BOOL)
                    if isinstance(v, EV):
                        return St(v.ty if v.ty is not None else CHAR)
                    break
            return St(INT)
        if n.k == "attr" and n.n in ("range", "reverse_range"):
            its = self.resolve(n.x, scope, soft=True)
            return St(its[0].ty) if its and isinstance(its[0], St) and its[0].ty.kind in ("enum", "bool") else St(INT)
        its = self.resolve(n, scope, soft=True) if n.k in ("id", "sel") else None
        return St(its[0].ty) if its and isinstance(its[0], St) else St(INT)

    def cint(self, x):
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, EV):
            if x.ty is None or not conc(x.v):
                raise Unsupported("enumeration range")
            return x.v
        if not isint(x):
            raise Unsupported(f"integer expected, got {type(x).__name__}")
        x = ival(x)
        return x if isinstance(x, int) else self.ctx.concretize(x)

    def default(self, st):
        ty = st.ty
        k = ty.kind
        if k == "bool":
            return False
        if k == "int":
            return st.rng[0] if st.rng else INTMIN
        if k == "real":
            return R(0)    # never read before assignment in practice; real'left otherwise
        if k == "enum":
            return EV(ty, 0)
        if k == "access":
            return NULL
        if k == "record":
            return Rec(ty, {n: self.default(s) for n, s in ty.fields})
        if k == "file":
            return self.newfile()
        if k == "array":
            if st.rng is None:
                raise VError(f"unconstrained object of type {ty}")
            l, r, to = st.rng
            n = max(0, (r - l if to else l - r) + 1)
            es = st.elem or ty.elem
            if es.ty.kind == "enum":
                return mkvec(ty, [0] * n, l, r, to)
            return Arr(ty, l, r, to, [self.default(es) for _ in range(n)], es)
        raise Unsupported(f"default of {ty}")

    # ------------------------------------------------------------------ coercion to a subtype, with the run-time checks
    def coerce(self, v, st, node=None):
        ty = st.ty
        k = ty.kind
        if isinstance(v, Deferred):
            v = self.agg(v.node, v.scope, st)
        if k == "int":
            if not isint(v):
                raise Unsupported(f"integer expected, got {type(v).__name__}")
            self.rangecheck(v, st)
            return ival(v)
        if k == "bool":
            if not isbool(v):
                raise Unsupported("boolean expected")
            return v
        if k == "enum":
            if isinstance(v, EV):
                if v.ty is None:
                    return EV(ty, litpos(ty, v.v))
                if v.ty is not ty:
                    raise Unsupported(f"{v.ty} given for {ty}")
                return v
            raise Unsupported(f"enumeration expected, got {type(v).__name__}")
        if k == "real":
            if not isinstance(v, R):
                raise Unsupported("real expected")
            return v
        if k == "array":
            v = self.coerce_arr(v, ty)
            if st.rng is not None:
                l, r, to = st.rng
                n = max(0, (r - l if to else l - r) + 1)
                if n != v.n:
                    self.error(f"bound check failure: length {v.n} where {n} is expected")
                v = v.rebound(l, r, to)
            if isinstance(v, Arr) and st.elem is not None and st.elem.rng is not None and st.elem.ty.kind in ("array", "int"):
                v = Arr(v.ty, v.left, v.right, v.to, [self.coerce(e, st.elem) for e in v.lst], st.elem)
            return v
        if k == "record":
            if isinstance(v, Rec) and v.ty is ty:
                return v
            raise Unsupported("record expected")
        if k in ("access", "file", "opaque"):
            return v
        raise Unsupported(f"coerce to {ty}")

    def coerce_arr(self, v, ty):
        if isinstance(v, (Vec, Arr)):
            if v.ty is ty:
                return v
            if isinstance(v, Vec) and v.ty is None:
                et = ty.elem.ty
                if et.kind != "enum":
                    raise Unsupported("string literal for " + ty.name)
                raws = [litpos(et, c) for c in v.lst]
                left = ty.idx.rng[0]
                return mkvec(ty, raws, left, left + v.n - 1, True)
            if isinstance(v, Vec) and v.ty.kind == "anyarr" and v.ty.elem.ty is ty.elem.ty:
                left = ty.idx.rng[0]
                return Vec(ty, left, left + v.n - 1, True, v.n, v.bv, v.lst)
            raise Unsupported(f"array type {v.ty} given for {ty}")
        raise Unsupported(f"array expected for {ty}, got {type(v).__name__}")

    def rangecheck(self, v, st):
        lo, hi = INTMIN, INTMAX
        if st.rng:
            l, r, to = st.rng
            lo, hi = (l, r) if to else (r, l)
        elif st.ty is not INT:
            return
        self.check_in(v, lo, hi, "range check failure")

    def check_in(self, v, lo, hi, msg):
        v = ival(v)
        if isinstance(v, int):
            if not lo <= v <= hi:
                self.error(f"{msg}: {v} not in {lo} to {hi}")
            return
        w = v.w() + v.e
        if -(1 << (w - 1)) >= lo and (1 << (w - 1)) - 1 <= hi:
            return
        self.require(band(v >= lo, v <= hi), msg)

    def require(self, c, msg):
        """c must hold here, else a run-time error"""
        if c is True:
            return
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c):
                return
        g = self.ctx.guards
        self.ctx.guards = g + ([bnot(c)] if not isinstance(c, bool) else [])
        try:
            if c is False or self.alive():
                self.error(msg)
        except Dead:
            if c is False:
                raise
        finally:
            self.ctx.guards = g

    def alive(self):
        """forks: do the current guards hold on this path?"""
        g = self.ctx.guards
        if not g:
            return True
        self.ctx.guards = []
        try:
            return self.ctx.decide(band(*g))
        finally:
            self.ctx.guards = g

    def error(self, msg):
        if not self.alive():
            raise Dead()
        raise VError(msg)

    # ------------------------------------------------------------------ state
    def write(self, cell, v):
        if self.journal:
            j = self.journal[-1]
            if cell not in j:
                j[cell] = cell.val
        cell.val = v

    # ------------------------------------------------------------------ expressions
    def ev(self, n, scope, st=None):
        return getattr(self, "ev_" + n.k)(n, scope, st)

    def ev_int(self, n, scope, st):
        return n.v

    def ev_real(self, n, scope, st):
        f = Fraction(float(n.v))
        return R(exf(f))

    def ev_phys(self, n, scope, st):
        return n.v

    def ev_chr(self, n, scope, st):
        if st is not None and st.ty.kind == "enum" and haslit(st.ty, ord(n.v)):
            return EV(st.ty, litpos(st.ty, ord(n.v)))
        return EV(None, ord(n.v))

    def ev_str(self, n, scope, st):
        v = Vec(None, 1, len(n.v), True, len(n.v), lst=[ord(c) for c in n.v])
        if st is not None and st.ty.kind == "array" and st.ty.elem.ty.kind == "enum":
            return self.coerce_arr(v, st.ty)
        return v

    def ev_paren(self, n, scope, st):
        return self.ev(n.x, scope, st)

    def ev_null(self, n, scope, st):
        return NULL

    def ev_agg(self, n, scope, st):
        if st is None or st.ty.kind not in ("array", "record"):
            return self.agg_untyped(n, scope)
        return self.agg(n, scope, st)

    def ev_new(self, n, scope, st):
        x = n.x
        if x.k == "qual":
            t = self.typeof(x.t, scope)
            v = self.coerce(self.ev(x.x, scope, t), t)
            return Ref(Cell("new", t, "variable", v))
        if x.k == "apply":
            t0 = self.typeof(x.x, scope)
            t = St(t0.ty, self.rng(x.args[0][1], scope), t0.elem)
        else:
            t = self.typeof(x, scope)
        return Ref(Cell("new", t, "variable", self.default(t)))

    def typeof(self, x, scope):
        if x.k == "attr":
            return self.subtype(Nd("subtype", x.line, mark=x, cons=[], rng=None), scope)
        its = self.resolve(x, scope)
        if not its or not isinstance(its[0], St):
            raise Unsupported("type name expected")
        return its[0]

    def ev_qual(self, n, scope, st):
        t = self.typeof(n.t, scope)
        v = self.ev(n.x, scope, t)
        return self.coerce(v, St(t.ty, None, None) if t.ty.kind == "array" else t)

    def ev_id(self, n, scope, st):
        its = self.lookup(n.n, scope)
        if not its:
            raise Unsupported(f"unknown name {n.n} (line {n.line})")
        return self.value_of(its, n, scope, st)

    def value_of(self, its, n, scope, st):
        it = its[0]
        if isinstance(it, Cell):
            return it.val
        if isinstance(it, St):
            raise Unsupported(f"type {n.n} used as a value (line {n.line})")
        if isinstance(it, Scope):
            raise Unsupported(f"package {n.n} used as a value")
        els = [i for i in its if isinstance(i, EL)]
        if st is not None:
            for i in els:
                if (BOOL if isinstance(i.ev, bool) else i.ev.ty) is st.ty:
                    return i.ev
        if els and isinstance(it, EL):
            return it.ev
        r = self.call_items(its, [], scope, n, st)
        return r

    def ev_sel(self, n, scope, st):
        its = self.resolve(n, scope, soft=True)
        if its:
            return self.value_of(its, n, scope, st)
        v = self.ev(n.x, scope)
        if isinstance(v, Ref):
            v = v.cell.val
        if not isinstance(v, Rec) or n.n not in v.f:
            raise Unsupported(f"selected name .{n.n} (line {n.line})")
        return v.f[n.n]

    def ev_deref(self, n, scope, st):
        v = self.ev(n.x, scope)
        if not isinstance(v, Ref):
            self.error("access to a null pointer")
        return v.cell.val

    def ev_apply(self, n, scope, st):
        x = n.x
        if x.k == "deref" or x.k == "apply" or x.k == "attr":
            return self.index(self.ev(x, scope), n, scope)
        its = self.resolve(x, scope, soft=True)
        if its is None:
            return self.index(self.ev(x, scope), n, scope)
        it = its[0]
        if isinstance(it, Cell):
            return self.index(it.val, n, scope)
        if isinstance(it, St):
            if len(n.args) != 1:
                raise Unsupported("type conversion with several arguments")
            return self.convert(self.ev(n.args[0][1], scope, it if it.ty.kind in ("enum", "array") and
                                        n.args[0][1].k in ("agg", "str", "chr") else None), it)
        if all(isinstance(i, (SubP, BI)) for i in its if not isinstance(i, EL)):
            return self.call_items(its, n.args, scope, n, st)
        raise Unsupported(f"call of {x.n}")

    def index(self, v, n, scope):
        if isinstance(v, Ref):
            v = v.cell.val
        if len(n.args) != 1:
            raise Unsupported("multi-dimensional index")
        a = n.args[0][1]
        if self.is_range(a, scope):
            return self.slice(v, self.rng(a, scope))
        i = self.ev(a, scope)
        return self.element(v, i)

    def is_range(self, a, scope):
        if a.k == "range":
            return True
        if a.k == "attr" and a.n in ("range", "reverse_range"):
            return True
        if a.k in ("id", "sel"):
            its = self.resolve(a, scope, soft=True)
            return bool(its) and isinstance(its[0], St)
        return False

    def pos(self, v, i):
        """position from the left of index i (concrete), with the bound check"""
        p = i - v.left if v.to else v.left - i
        if not 0 <= p < v.n:
            self.error(f"bound check failure: index {i}")
        return p

    def element(self, v, i):
        if isinstance(i, EV):
            i = self.cint(i)
        i = ival(i)
        if isinstance(i, Ex):
            lo, hi = (v.left, v.left + v.n - 1) if v.to else (v.left - v.n + 1, v.left)
            self.check_in(i, lo, hi, "bound check failure")
            r = None
            for p, k in enumerate(v.idx()):
                e = self.elem_at(v, p)
                try:
                    r = e if r is None else vite(i == k, e, r)
                except MergeFail:
                    return self.elem_at(v, self.pos(v, self.ctx.concretize(i)))
            return r
        return self.elem_at(v, self.pos(v, i))

    def elem_at(self, v, p):
        if isinstance(v, Vec):
            if v.ty is None:
                return EV(None, v.lst[p])
            return EV(v.ty.elem.ty, v.raw(p))
        return v.lst[p]

    def slice(self, v, r):
        l, rr, to = r
        n = max(0, (rr - l if to else l - rr) + 1)
        if n == 0:
            if isinstance(v, Vec):
                return mkvec(v.ty, [], l, rr, to)
            return Arr(v.ty, l, rr, to, [], v.est)
        if to != v.to and v.n > 0:
            if n > 1 or True:
                self.error("slice direction does not match the array")
        p = self.pos(v, l)
        self.pos(v, rr)
        if isinstance(v, Vec):
            if v.bv is not None:
                return Vec(v.ty, l, rr, to, n, bv=ext(v.bv, v.n, v.n - 1 - p, v.n - p - n))
            return mkvec(v.ty, v.lst[p:p + n], l, rr, to)
        return Arr(v.ty, l, rr, to, v.lst[p:p + n], v.est)

    def convert(self, v, st):
        """type conversion"""
        ty = st.ty
        if ty.kind == "int":
            if isinstance(v, R):
                return self.real2int(v)
            if isint(v):
                self.rangecheck(v, st)
                return v
        if ty.kind == "real":
            if isint(v):
                return R(ex(v))
            if isinstance(v, R):
                return v
        if ty.kind == "array":
            if isinstance(v, Deferred):
                v = self.agg(v.node, v.scope, St(ty))
            if isinstance(v, Vec):
                if v.ty is None or v.ty.kind == "anyarr":
                    r = self.coerce_arr(v, ty)
                elif v.ty.elem.ty is ty.elem.ty:
                    r = v.retag(ty)
                else:
                    raise Unsupported(f"conversion of {v.ty} to {ty}")
                return self.coerce(r, st) if st.rng else r
            if isinstance(v, Arr):
                return Arr(ty, v.left, v.right, v.to, v.lst, v.est)
        if ty.kind in ("enum", "bool", "record") and not isinstance(v, Deferred):
            return v
        raise Unsupported(f"conversion to {ty}")

    # aggregates
    def agg(self, n, scope, st):
        ty = st.ty
        if ty.kind == "record":
            f = {}
            p = 0
            rest = None
            for ch, x in n.items:
                if ch is None:
                    fn, fs = ty.fields[p]
                    p += 1
                    f[fn] = self.coerce(self.ev(x, scope, fs), fs)
                else:
                    for c in ch:
                        if c.k == "others":
                            rest = x
                        else:
                            fs = dict(ty.fields)[c.n]
                            f[c.n] = self.coerce(self.ev(x, scope, fs), fs)
            for fn, fs in ty.fields:
                if fn not in f:
                    if rest is None:
                        raise Unsupported("incomplete record aggregate")
                    f[fn] = self.coerce(self.ev(rest, scope, fs), fs)
            return Rec(ty, {fn: f[fn] for fn, _ in ty.fields})
        es = st.elem or ty.elem
        named = {}
        posl = []
        rest = None
        rdir = None
        for ch, x in n.items:
            if ch is None:
                v = self.ev(x, scope, es)
                posl.append(v)
            else:
                for c in ch:
                    if c.k == "others":
                        rest = x
                    elif self.is_range(c, scope):
                        l, r, to = self.rng(c, scope)
                        rdir = to
                        v = self.ev(x, scope, es)
                        for i in (range(l, r + 1) if to else range(l, r - 1, -1)):
                            named[i] = v
                        if not named and len(n.items) == 1:
                            posl = []
                            st = St(ty, (l, r, to), st.elem)
                    else:
                        named[self.cint(self.ev(c, scope))] = self.ev(x, scope, es)
        if st.rng is not None:
            l, r, to = st.rng
            m = max(0, (r - l if to else l - r) + 1)
        elif rest is not None:
            raise Unsupported("others in an unconstrained aggregate")
        elif named:
            lo, hi = min(named), max(named)
            to = True if rdir is None else rdir
            l, r = (lo, hi) if to else (hi, lo)
            m = hi - lo + 1
        else:
            m = len(posl)
            l = ty.idx.rng[0]
            to = True
            r = l + m - 1
        idx = [l + q if to else l - q for q in range(m)]
        lst = []
        restv = None
        for q, i in enumerate(idx):
            if q < len(posl):
                lst.append(posl[q])
            elif i in named:
                lst.append(named[i])
            elif rest is not None:
                if restv is None or rest.k not in ("chr", "int", "id", "str"):
                    restv = self.ev(rest, scope, es)
                lst.append(restv)
            else:
                self.error("aggregate does not cover all elements")
        if len(posl) > m or any(i not in idx for i in named):
            self.error("bound check failure: aggregate")
        lst = [self.coerce(e, es) for e in lst]
        return self.mkarr(ty, lst, l, r, to, es)

    def mkarr(self, ty, lst, l, r, to, es):
        if ty.elem.ty.kind == "enum":
            return mkvec(ty, [e.v for e in lst], l, r, to)
        return Arr(ty, l, r, to, lst, es)

    def agg_untyped(self, n, scope):
        """an aggregate without known type: a string-literal-like value when its elements are character literals"""
        if len(n.items) == 1 and n.items[0][0] is not None and self.is_range(n.items[0][0][0], scope):
            l, r, to = self.rng(n.items[0][0][0], scope)
            m = max(0, (r - l if to else l - r) + 1)
            e = self.ev(n.items[0][1], scope)
            if isinstance(e, EV):
                if e.ty is None:
                    return Vec(None, 1, m, True, m, lst=[e.v] * m)
                return mkvec(ANYARR[id(e.ty)], [e.v] * m)
        if all(ch is None for ch, _ in n.items):
            es = [self.ev(x, scope) for _, x in n.items]
            if all(isinstance(e, EV) and e.ty is not None and id(e.ty) in ANYARR for e in es):
                return mkvec(ANYARR[id(es[0].ty)], [e.v for e in es])
        return Deferred(n, scope)

    # operators
    def ev_bin(self, n, scope, st):
        op = n.op
        if op in ("and", "or", "nand", "nor"):
            a = self.ev(n.x, scope, st)
            if isbool(a):
                # short circuit
                stop = op in ("or", "nor")
                if isinstance(a, bool):
                    r = a if a == stop else self.ev(n.y, scope, st)
                else:
                    g = self.ctx.guards
                    self.ctx.guards = g + [bnot(a) if stop else a]
                    try:
                        b = self.ev(n.y, scope, st)
                    except Dead:
                        b = stop
                    finally:
                        self.ctx.guards = g
                    if not isbool(b):
                        raise Unsupported("boolean operands")
                    r = bor(a, b) if stop else band(a, b)
                return bnot(r) if op in ("nand", "nor") else r
            b = self.ev(n.y, scope, st)
            return self.operator(op, [a, b], scope, n)
        rel = op in ("=", "/=", "<", "<=", ">", ">=")
        hint = None if rel or op in ("&", "**") else st
        a = self.ev_operand(n.x, scope, hint)
        b = self.ev_operand(n.y, scope, hint)
        if rel and isinstance(a, Deferred) and not isinstance(b, Deferred):
            a = self.agg(a.node, a.scope, self.subtype_of(b, St(b.ty)) if isinstance(b, (Vec, Arr)) else St(b.ty))
        if isinstance(b, Deferred) and not isinstance(a, Deferred) and rel:
            b = self.agg(b.node, b.scope, self.subtype_of(a, St(a.ty)) if isinstance(a, (Vec, Arr)) else St(a.ty))
        return self.operator(op, [a, b], scope, n)

    def ev_operand(self, x, scope, st):
        if x.k == "agg":
            return self.agg_untyped(x, scope)
        return self.ev(x, scope, st if st is not None and x.k not in ("chr", "str") else None)

    def ev_un(self, n, scope, st):
        a = self.ev(n.x, scope, st if n.x.k not in ("chr", "str") else None)
        return self.operator(n.op, [a], scope, n)

    def operator(self, op, args, scope, n):
        # user-defined operators first
        its = [i for i in self.lookup(op, scope) if isinstance(i, SubP)]
        for sp in its:
            if len(sp.node.params) == len(args) and self.match_args(sp, [(None, a) for a in args]) is not None:
                return self.call_sub(sp, [(None, a) for a in args], scope, n)
        return self.unop(op, args[0]) if len(args) == 1 else self.binop(op, args[0], args[1])

    def ev_when(self, n, scope, st):
        c = self.ev(n.c, scope, St(BOOL))
        c = self.cond(c)
        if isinstance(c, bool):
            if c:
                return self.ev(n.x, scope, st)
            if n.y is None:
                raise Unsupported("conditional assignment without else")
            return self.ev(n.y, scope, st)
        if n.y is None:
            raise Unsupported("conditional assignment without else")
        g = self.ctx.guards
        vals = []
        for gc, x in ((c, n.x), (bnot(c), n.y)):
            self.ctx.guards = g + [gc]
            try:
                v = self.ev(x, scope, st)
                if st is not None:
                    v = self.coerce(v, st)
                vals.append(v)
            except Dead:
                vals.append(None)
            finally:
                self.ctx.guards = g
        if vals[0] is None:
            return vals[1]
        if vals[1] is None:
            return vals[0]
        try:
            return vite(c, vals[0], vals[1])
        except MergeFail:
            return vals[0] if self.ctx.decide(c) else vals[1]

    def cond(self, c):
        """condition value; a std_logic condition is converted (??)"""
        if isinstance(c, EV):
            b = bit_of(c.ty, c.v) if c.ty is not None else int(c.v == 49)
            return False if b is None and c.v != 7 else True if b is None else bit_is1(b)
        if not isbool(c):
            raise Unsupported("condition")
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
        return c

    # ------------------------------------------------------------------ attributes
    def ev_attr(self, n, scope, st):
        its = self.resolve(n.x, scope, soft=True) if n.x.k in ("id", "sel") else None
        a = n.n
        if its and isinstance(its[0], St):
            return self.type_attr(its[0], n, scope)
        if n.x.k == "attr" and n.x.n in ("element", "subtype", "base"):
            return self.type_attr(self.typeof(n.x, scope), n, scope)
        if a == "event":
            c = its[0]
            return c.ev
        if a in ("path_name", "instance_name", "simple_name"):
            return Vec(None, 1, 1, True, 1, lst=[ord("?")])
        v = self.ev(n.x, scope)
        if isinstance(v, Ref):
            v = v.cell.val
        if isinstance(v, (Vec, Arr)):
            lo, hi = (v.left, v.right) if v.to else (v.right, v.left)
            if a == "length":
                return v.n
            if a == "left":
                return v.left
            if a == "right":
                return v.right
            if a == "low":
                return lo
            if a == "high":
                return hi
            if a == "ascending":
                return v.to
        if a == "image":
            return self.image(v, None)
        raise Unsupported(f"attribute '{a} (line {n.line})")

    def type_attr(self, st, n, scope):
        a = n.n
        ty = st.ty
        if ty.kind == "array" and st.rng is not None:
            l, r, to = st.rng
            m = max(0, (r - l if to else l - r) + 1)
            t = {"length": m, "left": l, "right": r, "low": min(l, r), "high": max(l, r), "ascending": to}
            if to is False:
                t["low"], t["high"] = r, l
            else:
                t["low"], t["high"] = l, r
            if a in t:
                return t[a]
        if n.arg is None:
            if ty.kind in ("int",):
                l, r, to = st.rng or (INTMIN, INTMAX, True)
                t = {"left": l, "right": r, "low": l if to else r, "high": r if to else l}
                if a in t:
                    return t[a]
            if ty.kind == "enum" and ty.lits:
                t = {"left": 0, "low": 0, "right": len(ty.lits) - 1, "high": len(ty.lits) - 1}
                if a in t:
                    return EV(ty, t[a])
            if ty.kind == "real" and a in ("high", "low", "left", "right"):
                m = Fraction(2) ** 1024 - Fraction(2) ** 971
                return R(exf(m if a in ("high", "right") else -m))
        if n.arg is not None:
            v = self.ev(n.arg, scope, St(ty))
            if a == "image":
                return self.image(self.coerce(v, St(ty)), ty)
            if a == "value":
                return self.value(v, ty)
            if a == "pos":
                v = self.coerce(v, St(ty))
                if isint(v):
                    return v
                if isbool(v):
                    return ival(exite(v, 1, 0))
                if conc(v.v):
                    return v.v
                if islogic(ty):
                    return exu(v.v, 1) + (2 if ty is LOGIC else 0)
                return exu(v.v, 8)
            if a == "val":
                if ty.kind == "int":
                    return v
                v = ival(v)
                if ty.kind == "bool":
                    return self.cint(v) == 1
                if ty is CHAR:
                    self.check_in(v, 0, 255, "range check failure")
                    return EV(ty, v if isinstance(v, int) else v.bits(8))
                k = self.cint(v)
                if not 0 <= k < len(ty.lits):
                    self.error("'val out of range")
                return EV(ty, k)
            if a in ("succ", "pred", "leftof", "rightof"):
                d = 1 if a in ("succ", "rightof") else -1
                if isint(v):
                    return ival(ex(v) + d)
                return EV(ty, v.v + d)
        raise Unsupported(f"attribute {ty}'{a} (line {n.line})")

    # ------------------------------------------------------------------ subprogram calls
    def params(self, sp):
        if sp.psts is None:
            sp.psts = [self.subtype(p.st, sp.scope) for p in sp.node.params]
        return sp.psts

    def retst(self, sp):
        if sp.rst is None:
            sp.rst = self.subtype(sp.node.ret, sp.scope)
        return sp.rst

    def accepts(self, v, st):
        ty = st.ty
        k = ty.kind
        if isinstance(v, Deferred):
            if k == "record":
                return all(ch is not None for ch, _ in v.node.items) or len(v.node.items) == len(ty.fields)
            return k == "array"
        if isbool(v):
            return k == "bool"
        if isint(v):
            return k == "int"
        if isinstance(v, R):
            return k == "real"
        if isinstance(v, EV):
            return v.ty is ty or v.ty is None and k == "enum" and haslit(ty, v.v)
        if isinstance(v, Vec):
            if k != "array":
                return False
            if v.ty is None:
                et = ty.elem.ty
                return et.kind == "enum" and all(conc(c) and haslit(et, c) for c in v.lst)
            if v.ty.kind == "anyarr":
                return v.ty.elem.ty is ty.elem.ty
            return v.ty is ty
        if isinstance(v, (Arr, Rec)):
            return v.ty is ty
        if isinstance(v, (Ref, Null)):
            return k == "access"
        if k == "file":
            return hasattr(v, "lines")
        return False

    def match_args(self, sp, args):
        """argument index per parameter, or None"""
        ps = sp.node.params
        if len(args) > len(ps):
            return None
        try:
            sts = self.params(sp)
        except Unsupported:
            return None
        m = [None] * len(ps)
        names = {p.n: i for i, p in enumerate(ps)}
        for i, (f, v) in enumerate(args):
            if f is None:
                j = i
            else:
                if f not in names:
                    return None
                j = names[f]
            if m[j] is not None or not self.accepts(v, sts[j]):
                return None
            m[j] = i
        for j, p in enumerate(ps):
            if m[j] is None and p.dflt is None:
                return None
        return m

    def call_items(self, its, argnodes, scope, node, st=None, proc=False):
        args = []
        for f, x in argnodes:
            fn = None
            if f is not None:
                if f.k != "id":
                    raise Unsupported("formal name")
                fn = f.n
            if x.k == "agg":
                v = self.agg_untyped(x, scope)
            else:
                v = self.ev(x, scope)
            args.append((fn, v))
        nodes = [x for _, x in argnodes]
        best = None
        for it in its:
            if isinstance(it, SubP) and (it.node.kind == "procedure") == proc:
                if self.match_args(it, args) is not None:
                    if st is not None and not proc:
                        try:
                            if self.retst(it).ty is not st.ty:
                                best = best or it
                                continue
                        except Unsupported:
                            continue
                    return self.call_sub(it, args, scope, node, nodes)
        if best is not None:
            return self.call_sub(best, args, scope, node, nodes)
        for it in its:
            if isinstance(it, BI):
                r = it.fn(self, args, nodes, scope)
                if r is not NotImplemented:
                    return r
        raise Unsupported(f"no matching subprogram {its[0].name if its else '?'} (line {node.line}) for "
                          f"{[type(v).__name__ for _, v in args]}")

    def invoke(self, scope, name, args, proc=False, named=None, rst=None):
        """call from a driver: args are values; a list [value, subtype] marks an out/inout argument, whose new value is
        appended to the result list"""
        tmp = Scope(scope, "driver")
        nodes, cells = [], []
        items = [(None, a) for a in args] + [(k, a) for k, a in (named or {}).items()]
        for i, (f, a) in enumerate(items):
            n = f"%a{i}"
            if isinstance(a, list):
                v = a[0]
                st = a[1] if len(a) > 1 else St(LINE) if isinstance(v, (Ref, Null)) else St(v.ty, (v.left, v.right, v.to)) \
                    if isinstance(v, Vec) else St(INT) if isint(v) else St(v.ty)
                c = Cell(n, st, "variable", v)
                cells.append(c)
            else:
                st = St(a.ty) if isinstance(a, (EV, Vec, Arr, Rec)) else St(REAL) if isinstance(a, R) else \
                    St(BOOL) if isbool(a) else St(INT) if isint(a) else St(LINE) if isinstance(a, (Ref, Null)) else St(TEXT)
                c = Cell(n, st, "constant", a)
            tmp.d[n] = [c]
            nodes.append((None if f is None else Nd("id", 0, n=f), Nd("id", 0, n=n)))
        its = self.lookup(name, scope)
        if not its:
            raise Unsupported(f"no subprogram {name}")
        r = self.call_items(its, nodes, tmp, Nd("id", 0, n=name), rst, proc)
        return r if not cells else (r, [c.val for c in cells])

    def call_sub(self, sp, args, scope, node, nodes=None):
        m = self.match_args(sp, args)
        n = sp.body
        if n is None:
            raise Unsupported(f"subprogram {sp.name} has no body")
        self.depth += 1
        if self.depth > 200:
            raise Unsupported("recursion too deep")
        fr = Scope(sp.bscope, "frame:" + sp.name)
        outs = []
        sts = self.params(sp)
        for j, p in enumerate(sp.node.params):
            bp = n.params[j]
            if m[j] is None:
                v = self.ev(p.dflt, sp.scope, sts[j])
                v = self.coerce(v, sts[j])
                x = None
            else:
                v = args[m[j]][1]
                x = nodes[m[j]] if nodes else None
                if p.mode == "out":
                    # the formal starts with the bounds of the actual
                    if sts[j].ty.kind != "array":
                        v = self.default(sts[j])
                    else:
                        v = self.coerce(v, sts[j])
                else:
                    v = self.coerce(v, sts[j])
            if p.cls == "signal":
                its = self.resolve(x, scope)
                fr.add(bp.n, its[0])
                continue
            c = Cell(bp.n, sts[j], "variable" if p.mode in ("out", "inout") else "constant", v)
            fr.add(bp.n, c)
            if p.mode in ("out", "inout") and sts[j].ty.kind != "file":
                outs.append((c, x))
        g = self.ctx.guards
        ld, self.loopdepth = self.loopdepth, 0
        fr.d["%rets"] = rets = []
        fr.d["%fn"] = [sp.node.kind]
        last = None
        fell = False
        rst = self.retst(sp) if sp.node.kind == "function" else None
        fr.d["%rst"] = rst
        try:
            for d in n.decls:
                self.elab_decl(d, fr)
            self.exec_block(n.body, fr)
            if rst is not None:
                if not self.alive():
                    raise Dead()
                raise VError(f"function {sp.name} ends without return")
        except ReturnX as r:
            last = r.v
        except Dead:
            if not rets:
                raise
            last = rets.pop()[1]
        finally:
            self.ctx.guards = g
            self.loopdepth = ld
            self.depth -= 1
        if rst is not None:
            try:
                for c, v in reversed(rets):
                    last = vite(c, v, last)
            except MergeFail:
                # differently shaped results: decide
                for c, v in rets:
                    if self.ctx.decide(c):
                        last = v
                        break
            return last
        for c, x in outs:
            self.assign(x, scope, c.val)
        return None

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, sc):
        for s in stmts:
            self.exec(s, sc)

    def exec(self, s, sc):
        self.steps += 1
        if self.steps > 2000000:
            raise Unsupported("too many steps")
        return getattr(self, "ex_" + s.k)(s, sc)

    def ex_nop(self, s, sc):
        pass

    def ex_wait(self, s, sc):
        raise Unsupported("wait statement")

    def ex_vassign(self, s, sc):
        t = s.t
        st = self.target_st(t, sc)
        v = self.ev(s.x, sc, st)
        self.assign(t, sc, v)

    ex_sassign = ex_vassign

    def target_st(self, t, sc):
        """subtype expected by an assignment target (constraint from the current value)"""
        if t.k == "id":
            its = self.lookup(t.n, sc)
            if not its or not isinstance(its[0], Cell):
                raise Unsupported(f"assignment to {t.n}")
            c = its[0]
            v = c.val
            if isinstance(v, (Vec, Arr)):
                return self.subtype_of(v, c.st)
            return c.st
        if t.k == "sel":
            st = self.target_st(t.x, sc)
            for n, fs in st.ty.fields:
                if n == t.n:
                    v = self.ev(t, sc)
                    return self.subtype_of(v, fs) if isinstance(v, (Vec, Arr)) else fs
            raise Unsupported("record field")
        if t.k == "apply":
            base = self.ev(t.x, sc)
            if isinstance(base, Ref):
                base = base.cell.val
            a = t.args[0][1]
            if self.is_range(a, sc):
                r = self.rng(a, sc)
                return St(base.ty, r, self.elemst(base, None))
            return self.elemst(base, None)
        if t.k == "deref":
            return self.ev(t.x, sc).cell.st
        if t.k == "paren":
            return self.target_st(t.x, sc)
        return None

    def base_value(self, t, sc):
        """value that an element assignment modifies (the driver for signals)"""
        if t.k == "id":
            c = self.lookup(t.n, sc)[0]
            return c.drv.val if c.drv is not None else c.val
        if t.k == "sel":
            return self.base_value(t.x, sc).f[t.n]
        if t.k == "deref":
            v = self.ev(t.x, sc)
            if not isinstance(v, Ref):
                self.error("access to a null pointer")
            return v.cell.val
        if t.k == "apply":
            v = self.base_value(t.x, sc)
            if isinstance(v, Ref):
                v = v.cell.val
            a = t.args[0][1]
            if self.is_range(a, sc):
                return self.slice(v, self.rng(a, sc))
            return self.element(v, self.ev(a, sc))
        raise Unsupported("assignment target")

    def assign(self, t, sc, v):
        if t.k == "paren":
            return self.assign(t.x, sc, v)
        if t.k == "id":
            its = self.lookup(t.n, sc)
            c = its[0]
            if not isinstance(c, Cell) or c.cls == "constant":
                raise Unsupported(f"assignment to {t.n}")
            cur = c.val
            st = self.subtype_of(cur, c.st) if isinstance(cur, (Vec, Arr)) else c.st
            v = self.coerce(v, st)
            self.write(c.drv if c.drv is not None else c, v)
            return
        if t.k == "deref":
            r = self.ev(t.x, sc)
            if not isinstance(r, Ref):
                self.error("access to a null pointer")
            cur = r.cell.val
            self.write(r.cell, self.coerce(v, self.subtype_of(cur, r.cell.st) if isinstance(cur, (Vec, Arr)) else r.cell.st))
            return
        if t.k == "sel":
            b = self.base_value(t.x, sc)
            fs = dict(b.ty.fields)[t.n]
            cur = b.f[t.n]
            f = dict(b.f)
            f[t.n] = self.coerce(v, self.subtype_of(cur, fs) if isinstance(cur, (Vec, Arr)) else fs)
            return self.assign(t.x, sc, Rec(b.ty, f))
        if t.k == "apply":
            b = self.base_value(t.x, sc)
            if isinstance(b, Ref):
                r = b
                nv = self.replaced(b.cell.val, t.args[0][1], sc, v)
                self.write(r.cell, nv)
                return
            return self.assign(t.x, sc, self.replaced(b, t.args[0][1], sc, v))
        if t.k == "agg":
            raise Unsupported("aggregate target")
        raise Unsupported("assignment target " + t.k)

    def replaced(self, b, a, sc, v):
        """array b with the element or slice given by node a replaced by v"""
        es = self.elemst(b, None)
        if self.is_range(a, sc):
            l, r, to = self.rng(a, sc)
            n = max(0, (r - l if to else l - r) + 1)
            v = self.coerce(v, St(b.ty, (l, r, to), es))
            if n == 0:
                return b
            if to != b.to:
                self.error("slice direction does not match the array")
            p = self.pos(b, l)
            self.pos(b, r)
            if isinstance(b, Vec):
                if b.bv is not None and v.bv is not None:
                    hi = ext(b.bv, b.n, b.n - 1, b.n - p) if p else 0
                    lo = ext(b.bv, b.n, b.n - 1 - p - n, 0) if b.n - p - n else 0
                    nb = cat(cat(hi, p, v.bv, n), p + n, lo, b.n - p - n)
                    return Vec(b.ty, b.left, b.right, b.to, b.n, bv=nb)
                raws = b.raws()
                raws[p:p + n] = v.raws()
                return mkvec(b.ty, raws, b.left, b.right, b.to)
            lst = list(b.lst)
            lst[p:p + n] = v.lst
            return Arr(b.ty, b.left, b.right, b.to, lst, b.est)
        v = self.coerce(v, es)
        i = self.ev(a, sc)
        i = ival(i) if not isinstance(i, EV) else self.cint(i)
        if isinstance(i, Ex):
            lo, hi = (b.left, b.left + b.n - 1) if b.to else (b.left - b.n + 1, b.left)
            self.check_in(i, lo, hi, "bound check failure")
            items = []
            for p, k in enumerate(b.idx()):
                try:
                    items.append(vite(i == k, v, self.elem_at(b, p)))
                except MergeFail:
                    return self.replaced_at(b, self.pos(b, self.ctx.concretize(i)), v)
            return self.mkarr(b.ty, items, b.left, b.right, b.to, es)
        return self.replaced_at(b, self.pos(b, i), v)

    def replaced_at(self, b, p, v):
        if isinstance(b, Vec):
            x = bit_of(b.ty.elem.ty, v.v) if b.isb else None
            if x is not None:
                bits = list(b.bitlist())
                bits[p] = x
                return Vec(b.ty, b.left, b.right, b.to, b.n, bits=bits)
            raws = b.raws()
            raws[p] = v.v
            return mkvec(b.ty, raws, b.left, b.right, b.to)
        lst = list(b.lst)
        lst[p] = v
        return Arr(b.ty, b.left, b.right, b.to, lst, b.est)

    def ex_return(self, s, sc):
        f = sc
        while "%rets" not in f.d:
            f = f.parent
        v = None
        if s.x is not None:
            st = f.d["%rst"]
            v = self.ev(s.x, sc, st)
            v = self.coerce(v, st)
        raise ReturnX(v)

    def ex_exit(self, s, sc):
        if s.cond is None or self.ctx.decide(self.cond(self.ev(s.cond, sc, St(BOOL)))):
            raise ExitX(s.label)

    def ex_next(self, s, sc):
        if s.cond is None or self.ctx.decide(self.cond(self.ev(s.cond, sc, St(BOOL)))):
            raise NextX(s.label)

    def sevof(self, s, sc, default):
        if s.sev is None:
            return default
        v = self.ev(s.sev, sc)
        return SEV.lits[v.v]

    def text(self, msg):
        return msg.v if msg is not None and msg.k == "str" else ""

    def ex_assert(self, s, sc):
        c = self.cond(self.ev(s.c, sc, St(BOOL)))
        if c is True:
            return
        sev = self.sevof(s, sc, "error")
        if sev == "failure":
            self.require(c, "assertion failure: " + self.text(s.msg))
            return
        self.reports.append((band(self.ctx.guard(), bnot(c)), sev, self.text(s.msg)))

    def ex_report(self, s, sc):
        sev = self.sevof(s, sc, "note")
        if sev == "failure":
            self.error("report failure: " + self.text(s.msg))
        self.reports.append((self.ctx.guard(), sev, self.text(s.msg)))

    def ex_pcall(self, s, sc):
        x = s.x
        args = []
        if x.k == "apply":
            args = x.args
            x = x.x
        its = self.resolve(x, sc)
        self.call_items(its or [], args, sc, s, proc=True)

    # ---- if / case with merging
    def jumps(self, stmts, inloop=False):
        """do the statements leave an enclosing loop (exit/next), return, or contain a wait"""
        r = [False, False]
        for s in stmts:
            if s.k in ("exit", "next"):
                r[0] = True
            elif s.k == "return":
                r[1] = True
            elif s.k == "if":
                a, b = self.jumps(s.th), self.jumps(s.el)
                r = [r[0] or a[0] or b[0], r[1] or a[1] or b[1]]
            elif s.k == "case":
                for _, b in s.arms:
                    a = self.jumps(b)
                    r = [r[0] or a[0], r[1] or a[1]]
            elif s.k == "loop":
                a = self.jumps(s.body)
                r = [r[0], r[1] or a[1]]
        return r

    def ex_if(self, s, sc):
        c = self.cond(self.ev(s.c, sc, St(BOOL)))
        if isinstance(c, bool):
            return self.exec_block(s.th if c else s.el, sc)
        self.branch(c, s.th, s.el, sc, s)

    def frame(self, sc):
        f = sc
        while f is not None and "%rets" not in f.d:
            f = f.parent
        return f

    def branch(self, c, th, el, sc, s):
        self.ifcount += 1
        key = (tuple(self.ctx.trace), self.ifcount, s.line)
        ja, jb = self.jumps(th), self.jumps(el)
        fr = self.frame(sc)
        ret = ja[1] or jb[1]
        fork = ja[0] or jb[0] or ret and (self.loopdepth > 0 or fr is None or fr.d["%fn"][0] != "function") \
            or key in self.ctx.nomerge or self.ctx.failed_merges.get(s.line, 0) > 8
        if fork:
            return self.exec_block(th if self.ctx.decide(c) else el, sc)
        a = self.run_branch(c, th, sc, fr)
        b = self.run_branch(bnot(c), el, sc, fr)
        if a is None and b is None:
            raise Dead()
        if a is None or b is None:
            w, rets, r = b if a is None else a
            for cell, v in w.items():
                self.write(cell, v)
            if fr is not None:
                fr.d["%rets"].extend(rets)
                self.ctx.guards = self.ctx.guards + [bnot(x) for x, _ in rets]
            if r is not None:
                raise r
            return
        (wa, ra, xa), (wb, rb, xb) = a, b
        rets = [(band(c, x), v) for x, v in ra] + ([(c, xa.v)] if xa is not None else [])
        retb = [(band(bnot(c), x), v) for x, v in rb]
        if fr is not None:
            fr.d["%rets"].extend(rets + retb)
        if xa is not None and xb is not None:
            raise xb
        if xb is not None:
            fr.d["%rets"].append((bnot(c), xb.v))
            retb = retb + [(bnot(c), xb.v)]
        try:
            cells = {}
            if xa is None and xb is None:
                for cell in list(wa) + [x for x in wb if x not in wa]:
                    cells[cell] = vite(c, wa.get(cell, cell.val), wb.get(cell, cell.val))
            else:
                cells = wb if xa is not None else wa
        except MergeFail:
            self.ctx.nomerge.add(key)
            self.ctx.failed_merges[s.line] = self.ctx.failed_merges.get(s.line, 0) + 1
            raise Restart()
        for cell, v in cells.items():
            self.write(cell, v)
        if rets or retb:
            self.ctx.guards = self.ctx.guards + [bnot(x) for x, _ in rets + retb]

    def run_branch(self, c, stmts, sc, fr):
        """(writes, partial returns, final return) of the statements under condition c; None when unreachable"""
        g = self.ctx.guards
        self.ctx.guards = g + [c]
        j = {}
        self.journal.append(j)
        ser = Cell.serial
        rets = None
        if fr is not None:
            rets, fr.d["%rets"] = fr.d["%rets"], []
        out = None
        dead = False
        try:
            self.exec_block(stmts, sc)
        except ReturnX as r:
            out = r
        except Dead:
            dead = True
        finally:
            self.journal.pop()
            w = {cell: cell.val for cell in j if cell.ser <= ser}
            for cell, old in j.items():
                cell.val = old
            self.ctx.guards = g
            mine = []
            if fr is not None:
                mine, fr.d["%rets"] = fr.d["%rets"], rets
        if dead:
            if mine:
                last = mine.pop()
                return w, mine, ReturnX(last[1])
            return None
        return w, mine, out

    def ex_case(self, s, sc):
        v = self.ev(s.x, sc)
        if isbool(v):
            v = self.cond(v)
        # chain of conditions
        arms = []
        for ch, body in s.arms:
            c = False
            for x in ch:
                c = bor(c, self.case_match(v, x, sc))
            if not isinstance(c, bool):
                c = self.cond(c)
            if c is False:
                continue
            arms.append((c, body))
            if c is True:
                break
        if not arms or arms[-1][0] is not True:
            if not arms:
                raise Unsupported(f"case without matching choice (line {s.line})")
            arms[-1] = (True, arms[-1][1])      # choices cover the type
        self.case_chain(arms, 0, sc, s)

    def case_chain(self, arms, i, sc, s):
        c, body = arms[i]
        if c is True:
            return self.exec_block(body, sc)
        # build a nested if over the remaining arms
        rest = Nd("casearms", s.line, arms=arms, i=i + 1)
        self.branch(c, body, [rest], sc, s)

    def ex_casearms(self, s, sc):
        self.case_chain(s.arms, s.i, sc, s)

    def case_match(self, v, x, sc):
        if x.k == "others":
            return True
        if self.is_range(x, sc):
            l, r, to = self.rng(x, sc)
            lo, hi = (l, r) if to else (r, l)
            if isinstance(v, EV):
                return band(self.evpos(v) >= lo, self.evpos(v) <= hi)
            return band(ex(v) >= lo, ex(v) <= hi)
        st = St(v.ty) if isinstance(v, (EV, Vec)) and v.ty is not None else None
        return self.binop("=", v, self.ev(x, sc, st))

    def evpos(self, v):
        if conc(v.v):
            return Ex(v.v)
        return exu(v.v, 1) + (2 if v.ty is LOGIC else 0) if islogic(v.ty) else exu(v.v, 8)

    def ex_casearms_jumps(self):
        pass

    def ex_loop(self, s, sc):
        self.loopdepth += 1
        try:
            if s.var is not None:
                l, r, to = self.rng(s.rng, sc)
                st = self.rangety(s.rng, sc)
                mk = (lambda i: i) if st.ty.kind == "int" else (lambda i: bool(i)) if st.ty.kind == "bool" else (lambda i: EV(st.ty, i))
                for i in (range(l, r + 1) if to else range(l, r - 1, -1)):
                    b = Scope(sc, "loop")
                    b.d[s.var] = [Cell(s.var, st, "constant", mk(i))]
                    try:
                        self.exec_block(s.body, b)
                    except NextX as e:
                        if e.label is not None and e.label != s.label:
                            raise
                    except ExitX as e:
                        if e.label is not None and e.label != s.label:
                            raise
                        break
                return
            k = 0
            while True:
                if s.cond is not None and not self.ctx.decide(self.cond(self.ev(s.cond, sc, St(BOOL)))):
                    return
                k += 1
                if k > 4000:
                    raise Unsupported("loop does not end within 4000 iterations")
                try:
                    self.exec_block(s.body, sc)
                except NextX as e:
                    if e.label is not None and e.label != s.label:
                        raise
                except ExitX as e:
                    if e.label is not None and e.label != s.label:
                        raise
                    break
        finally:
            self.loopdepth -= 1


Nd = PA.Nd
