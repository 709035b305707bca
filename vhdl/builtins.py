"""Models of the predefined operators and of the IEEE/textio subprograms that the VHDL sources use."""
import operator
import math
import z3
from fractions import Fraction
from .sym import *
from .types import *


def nodes_of(t, limit=20):
    """number of nodes of a term (up to a limit)"""
    k, st = 0, [t]
    while st and k < limit:
        k += 1
        st.extend(st.pop().children())
    return k


class BI:
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class VFile:
    """a text file: list of lines (string values)"""

    def __init__(self, lines=None):
        self.lines = lines
        self.pos = 0
        self.name = None
        self.mode = None


def isvec(x):
    return isinstance(x, Vec)


def islv(x):
    """vector of std_logic / bit (or a literal that can become one)"""
    return isinstance(x, Vec) and x.ty is not None and islogic(x.ty.elem.ty)


def strv(s):
    return mkvec(STRING, [ord(c) for c in s])


RELINT = {"=": operator.eq, "/=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


class Builtins:
    # ------------------------------------------------------------------ scopes
    def builtin_scope(self, s):
        for t in (BOOL, INT, REAL, TIME, CHAR, BIT, SEV, FOK, FOS, BITV, STRING, INTV, BOOLV, REALV):
            s.add(t.name, St(t))
        from .interp import EL
        s.add("false", EL(False))
        s.add("true", EL(True))
        for t in (SEV, FOK, FOS):
            for i, l in enumerate(t.lits):
                s.add(l, EL(EV(t, i)))
        s.add("natural", NAT)
        s.add("positive", POS)
        s.add("delay_length", NAT)
        for n in ("to_string", "maximum", "minimum", "deallocate", "to_hstring", "to_bstring"):
            s.add(n, BI(n, getattr(Builtins, "bi_" + n)))

    def ieee_scopes(self):
        from .interp import Scope, EL
        B = Builtins

        def scope(lib, name):
            s = Scope(None, name)
            self.libs[lib].d[name] = [s]
            return s

        def fns(s, names):
            for n in names.split():
                s.add(n, BI(n, getattr(B, "bi_" + n)))
        self.libs["std"].d["standard"] = [Scope(None, "standard")]
        self.builtin_scope(self.libs["std"].d["standard"][0])
        t = scope("std", "textio")
        t.add("line", St(LINE))
        t.add("text", St(TEXT))
        t.add("side", St(SIDE))
        t.add("width", NAT)
        for i, l in enumerate(SIDE.lits):
            t.add(l, EL(EV(SIDE, i)))
        io = "read write hread hwrite bread bwrite readline writeline endfile file_open file_close swrite string_write"
        fns(t, "read write hread hwrite bread bwrite readline writeline endfile file_open file_close swrite")
        scope("std", "env")
        s = scope("ieee", "std_logic_1164")
        for n in ("std_ulogic", "std_logic", "x01", "x01z", "ux01"):
            s.add(n, St(LOGIC))
        for n in ("std_ulogic_vector", "std_logic_vector"):
            s.add(n, St(SLV))
        fns(s, "rising_edge falling_edge to_bit to_bitvector to_bit_vector to_stdlogicvector to_std_logic_vector "
               "to_stdulogicvector to_std_ulogic_vector to_slv to_bv to_stdulogic to_std_ulogic is_x to_x01 to_01 "
               "to_string to_hstring to_bstring read write hread hwrite bread bwrite")
        common = ("resize to_integer to_unsigned to_signed shift_left shift_right rotate_left rotate_right to_01 "
                  "read write hread hwrite bread bwrite to_string to_hstring to_bstring maximum minimum")
        s = scope("ieee", "numeric_std")
        s.add("unsigned", St(NSU))
        s.add("signed", St(NSS))
        s.add("u_unsigned", St(NSU))
        s.add("u_signed", St(NSS))
        fns(s, common)
        s = scope("ieee", "numeric_bit")
        s.add("unsigned", St(NBU))
        s.add("signed", St(NBS))
        fns(s, common)
        # to_unsigned / to_signed return the type of their package
        for p, u, g in (("numeric_std", NSU, NSS), ("numeric_bit", NBU, NBS)):
            d = self.libs["ieee"].d[p][0].d
            d["to_unsigned"] = [BI("to_unsigned", lambda i, a, n, sc, u=u: i.to_num(a, u))]
            d["to_signed"] = [BI("to_signed", lambda i, a, n, sc, g=g: i.to_num(a, g))]
        s = scope("ieee", "math_real")
        fns(s, "floor ceil round trunc sign realmax realmin log2 sqrt uniform")
        s = scope("ieee", "math_complex")

    # ------------------------------------------------------------------ helpers
    def vals(self, args, *kinds):
        """positional values if they have the given kinds, else None"""
        if len(args) != len(kinds) or any(f is not None for f, _ in args) and len(args) > 1 and False:
            return None
        out = []
        for (f, v), k in zip(args, kinds):
            ok = {"lv": islv, "vec": isvec, "int": isint, "real": lambda x: isinstance(x, R),
                  "ev": lambda x: isinstance(x, EV), "bool": isbool, "any": lambda x: True,
                  "line": lambda x: isinstance(x, (Ref, Null)), "file": lambda x: isinstance(x, VFile),
                  "str": lambda x: isinstance(x, Vec) and (x.ty is None or x.ty is STRING)}[k](v)
            if not ok:
                return None
            out.append(v)
        return out

    def warn(self, c, text):
        """library warning under condition c"""
        if c is False:
            return
        g = band(self.ctx.guard(), c)
        if g is not False:
            self.reports.append((g, "lib", text))

    def bits(self, v):
        """bit term of a vector without metavalues; metavalues: None"""
        if v.bv is None:
            if v.ty is None:
                if all(c in (48, 49) for c in v.lst):
                    r = 0
                    for c in v.lst:
                        r = r * 2 + c - 48
                    return r
                return None
            if v.n == 0:
                return 0
            return None
        return v.bv

    def num(self, v, like=None):
        """exact integer value of a numeric vector (None: metavalues)"""
        ty = like or v.ty
        b = self.bits(v)
        if b is None:
            return None
        return exs(b, v.n) if id(ty) in SIGNED else exu(b, v.n)

    def to_num(self, args, ty):
        a = [v for _, v in args]
        if len(a) != 2 or not isint(a[0]) or not (isint(a[1]) or islv(a[1])):
            return NotImplemented
        n = a[1].n if islv(a[1]) else self.cint(a[1])
        x = ex(a[0])
        if n < 0:
            self.error("range check failure: negative size")
        if n == 0:
            return Vec(ty, 0, 1, True, 0, bv=0)
        if id(ty) in UNSIGNED:
            self.check_in(x, 0, INTMAX, "range check failure")
            self.warn(bnot(x < (1 << n)), "vector truncated")
        else:
            self.warn(bnot(band(x >= -(1 << (n - 1)), x < (1 << (n - 1)))), "vector truncated")
        return bvec(ty, n, x.bits(n))

    # ------------------------------------------------------------------ functions
    def bi_to_unsigned(self, args, nodes, sc):
        return NotImplemented

    bi_to_signed = bi_to_unsigned

    def bi_resize(self, args, nodes, sc):
        a = [v for _, v in args]
        if len(a) != 2 or not islv(a[0]) or not isnum(a[0].ty):
            return NotImplemented
        v, n = a
        n = n.n if islv(n) else self.cint(n)
        if n < 0:
            self.error("range check failure: negative size")
        if n == 0:
            return Vec(v.ty, 0, 1, True, 0, bv=0)
        b = self.bits(v)
        sg = id(v.ty) in SIGNED
        if b is None:
            raws = v.raws()
            fill = (raws[0] if sg and raws else (2 if v.ty.elem.ty is LOGIC else 0))
            if n >= v.n:
                return mkvec(v.ty, [fill] * (n - v.n) + raws, n - 1, 0, False)
            r = raws[v.n - n:]
            if sg:
                r = [raws[0]] + raws[v.n - n + 1:]
            return mkvec(v.ty, r, n - 1, 0, False)
        if n >= v.n:
            return bvec(v.ty, n, sx(b, v.n, n) if sg else zx(b, v.n, n) if v.n else 0)
        if sg:
            return bvec(v.ty, n, cat(ext(b, v.n, v.n - 1, v.n - 1), 1, ext(b, v.n, n - 2, 0), n - 1))
        return bvec(v.ty, n, ext(b, v.n, n - 1, 0))

    def bi_to_integer(self, args, nodes, sc):
        a = self.vals(args, "lv")
        if a is None or not isnum(a[0].ty):
            return NotImplemented
        if a[0].n == 0:
            self.warn(True, "null argument")
            return 0
        x = self.num(a[0])
        if x is None:
            self.warn(True, "metavalue detected")
            return 0
        self.check_in(x, INTMIN, INTMAX, "overflow detected")
        return ival(x)

    def bi_shift_left(self, args, nodes, sc, right=False):
        a = self.vals(args, "lv", "int")
        if a is None or not isnum(a[0].ty):
            return NotImplemented
        v, k = a[0], self.cint(a[1])
        if k < 0:
            self.error("range check failure")
        sg = id(v.ty) in SIGNED
        b = self.bits(v)
        n = v.n
        if b is None:
            z = 2 if v.ty.elem.ty is LOGIC else 0
            raws = v.raws()
            if right:
                f = raws[0] if sg else z
                return mkvec(v.ty, ([f] * k + raws)[:n], n - 1, 0, False)
            return mkvec(v.ty, (raws + [z] * k)[-n:] if n else [], n - 1, 0, False)
        if n == 0:
            return v
        if right:
            if k >= n:
                r = sx(ext(b, n, n - 1, n - 1), 1, n) if sg else 0
            else:
                t = ext(b, n, n - 1, k)
                r = sx(t, n - k, n) if sg else zx(t, n - k, n)
        else:
            r = 0 if k >= n else cat(ext(b, n, n - 1 - k, 0), n - k, 0, k)
        return bvec(v.ty, n, r)

    def bi_shift_right(self, args, nodes, sc):
        return Builtins.bi_shift_left(self, args, nodes, sc, right=True)

    def bi_rotate_left(self, args, nodes, sc):
        a = self.vals(args, "lv", "int")
        if a is None or self.bits(a[0]) is None:
            return NotImplemented
        v, k = a[0], self.cint(a[1]) % max(1, a[0].n)
        if k == 0:
            return v
        n = v.n
        return bvec(v.ty, n, cat(ext(v.bv, n, n - 1 - k, 0), n - k, ext(v.bv, n, n - 1, n - k), k))

    def bi_rotate_right(self, args, nodes, sc):
        if len(args) != 2 or not islv(args[0][1]):
            return NotImplemented
        return Builtins.bi_rotate_left(self, [args[0], (None, -self.cint(args[1][1]))], nodes, sc)

    def bi_to_01(self, args, nodes, sc):
        if not args or not islv(args[0][1]):
            if args and isinstance(args[0][1], EV):
                b = bit_of(args[0][1].ty, args[0][1].v)
                return EV(LOGIC, raw_of_bit(LOGIC, 0) if b is None else args[0][1].v)
            return NotImplemented
        v = args[0][1]
        if v.bv is not None:
            return bvec(v.ty, v.n, v.bv)
        raws = [3 if r == 7 else 2 if r == 6 else r for r in v.raws()]
        if any(bit_of(v.ty.elem.ty, r) is None for r in raws):
            raws = [2] * v.n
        return mkvec(v.ty, raws, v.n - 1, 0, False)

    def bi_to_x01(self, args, nodes, sc):
        v = args[0][1]
        m = {6: 2, 7: 3, 2: 2, 3: 3}
        if islv(v):
            return mkvec(v.ty, [m.get(r, 1) if conc(r) else r for r in v.raws()], 1, v.n, True)
        if isinstance(v, EV):
            return EV(LOGIC, m.get(v.v, 1) if conc(v.v) else v.v)
        return NotImplemented

    def bi_is_x(self, args, nodes, sc):
        v = args[0][1]
        if islv(v):
            return any(conc(r) and r not in (2, 3, 6, 7) for r in v.raws()) if v.bv is None else False
        if isinstance(v, EV):
            return conc(v.v) and v.v not in (2, 3, 6, 7)
        return NotImplemented

    def _edge(self, nodes, sc, one):
        its = self.resolve(nodes[0], sc)
        c = its[0]
        if c.ev is False:
            return False
        b = bit_of(LOGIC, c.val.v)
        if b is None:
            return False
        e = bit_is1(b)
        return band(c.ev, e if one else bnot(e))

    def bi_rising_edge(self, args, nodes, sc):
        return self._edge(nodes, sc, True)

    def bi_falling_edge(self, args, nodes, sc):
        return self._edge(nodes, sc, False)

    def _tobit(self, raw, xmap=0):
        if not conc(raw):
            return raw
        return {2: 0, 3: 1, 6: 0, 7: 1}.get(raw, xmap)

    def bi_to_bit(self, args, nodes, sc):
        v = args[0][1]
        if not isinstance(v, EV):
            return NotImplemented
        return EV(BIT, self._tobit(self.coerce(v, St(LOGIC)).v))

    bi_to_bv = None

    def bi_to_bit_vector(self, args, nodes, sc):
        v = args[0][1]
        if not islv(v) or v.ty.elem.ty is not LOGIC:
            return NotImplemented
        return mkvec(BITV, [self._tobit(r) for r in v.raws()], v.n - 1, 0, False)

    bi_to_bitvector = bi_to_bv = bi_to_bit_vector

    def bi_to_std_logic_vector(self, args, nodes, sc):
        v = args[0][1]
        if len(args) == 2 and isint(v):
            r = self.to_num(args, NSU)
            return r.retag(SLV) if isvec(r) else r
        if not islv(v):
            return NotImplemented
        if v.ty.elem.ty is BIT:
            return bvec(SLV, v.n, v.bv if v.n else 0)
        return v.retag(SLV)

    bi_to_stdlogicvector = bi_to_slv = bi_to_stdulogicvector = bi_to_std_ulogic_vector = bi_to_std_logic_vector

    def bi_to_stdulogic(self, args, nodes, sc):
        v = args[0][1]
        if not isinstance(v, EV):
            return NotImplemented
        return EV(LOGIC, raw_of_bit(LOGIC, self.coerce(v, St(BIT)).v))

    bi_to_std_ulogic = bi_to_stdulogic

    def bi_maximum(self, args, nodes, sc, mx=True):
        a = [v for _, v in args]
        if len(a) == 1 and isinstance(a[0], (Vec, Arr)):
            if a[0].n == 0:
                return NotImplemented
            r = self.elem_at(a[0], 0)
            for p in range(1, a[0].n):
                e = self.elem_at(a[0], p)
                r = vite(self.binop(">" if mx else "<", e, r), e, r)
            return r
        if len(a) != 2:
            return NotImplemented
        x, y = a
        if isint(x) and isint(y):
            return ival(exite(ex(x) >= ex(y) if mx else ex(x) <= ex(y), x, y))
        if isinstance(x, R) and isinstance(y, R):
            return R(exite(x.x >= y.x if mx else x.x <= y.x, x.x, y.x))
        if islv(x) and islv(y) and isnum(x.ty):
            n = max(x.n, y.n)
            c = self.binop(">" if mx else "<", x, y)
            x = Builtins.bi_resize(self, [(None, x), (None, n)], None, None)
            y = Builtins.bi_resize(self, [(None, y), (None, n)], None, None)
            return vite(c, x, y)
        return NotImplemented

    def bi_minimum(self, args, nodes, sc):
        return Builtins.bi_maximum(self, args, nodes, sc, mx=False)

    def bi_deallocate(self, args, nodes, sc):
        a = self.vals(args, "line")
        if a is None:
            return NotImplemented
        self.assign(nodes[0], sc, NULL)

    # reals
    def _r1(self, args, f):
        a = self.vals(args, "real")
        if a is None:
            return NotImplemented
        return R(f(a[0].x))

    def bi_floor(self, args, nodes, sc):
        return Builtins._r1(self, args, lambda x: x.floor())

    def bi_ceil(self, args, nodes, sc):
        return Builtins._r1(self, args, lambda x: -((-x).floor()))

    def bi_round(self, args, nodes, sc):
        h = exf(Fraction(1, 2))
        return Builtins._r1(self, args, lambda x: exite(x >= 0, (x + h).floor(), -((h - x).floor())))

    def bi_trunc(self, args, nodes, sc):
        return Builtins._r1(self, args, lambda x: exite(x >= 0, x.floor(), -((-x).floor())))

    def bi_sign(self, args, nodes, sc):
        return Builtins._r1(self, args, lambda x: exite(x > 0, 1, exite(x < 0, -1, 0)))

    def bi_realmax(self, args, nodes, sc):
        a = self.vals(args, "real", "real")
        return NotImplemented if a is None else R(exite(a[0].x >= a[1].x, a[0].x, a[1].x))

    def bi_realmin(self, args, nodes, sc):
        a = self.vals(args, "real", "real")
        return NotImplemented if a is None else R(exite(a[0].x <= a[1].x, a[0].x, a[1].x))

    def _fl(self, args, f):
        a = self.vals(args, "real")
        if a is None:
            return NotImplemented
        if not a[0].x.conc:
            raise Unsupported("transcendental function of a symbolic real")
        return R(exf(Fraction(f(float(a[0].x.frac())))))

    def bi_log2(self, args, nodes, sc):
        return Builtins._fl(self, args, math.log2)

    def bi_sqrt(self, args, nodes, sc):
        return Builtins._fl(self, args, math.sqrt)

    def bi_uniform(self, args, nodes, sc):
        raise Unsupported("uniform")

    def real2int(self, v):
        h = exf(Fraction(1, 2))
        x = v.x
        if x.is_int() is not True:
            x = exite(x >= 0, (x + h).floor(), -((h - x).floor()))
        self.check_in(x, INTMIN, INTMAX, "real to integer conversion overflow")
        if x.conc:
            return x.v if x.e == 0 else int(x.frac())
        return x

    # ------------------------------------------------------------------ operators
    def unop(self, op, a):
        if op == "not":
            if isbool(a):
                return bnot(a)
            if isinstance(a, EV):
                return EV(a.ty, self.lnot(a.ty, a.v))
            if islv(a):
                if a.bv is not None:
                    return Vec(a.ty, 1, a.n, True, a.n, bv=self.bnotv(a.bv, a.n))
                return mkvec(a.ty, [self.lnot(a.ty.elem.ty, r) for r in a.raws()], 1, a.n, True)
        if op in ("-", "+", "abs"):
            if isint(a):
                if op == "+":
                    return a
                x = ex(a)
                r = -x if op == "-" else exite(x < 0, -x, x)
                self.check_in(r, INTMIN, INTMAX, "overflow detected")
                return ival(r)
            if isinstance(a, R):
                return a if op == "+" else R(-a.x if op == "-" else exite(a.x < 0, -a.x, a.x))
            if islv(a) and id(a.ty) in SIGNED and op != "+":
                if a.n == 0:
                    return a
                if a.bv is None:
                    self.warn(True, "metavalue detected")
                    return mkvec(a.ty, [1] * a.n, a.n - 1, 0, False)
                if op == "-":
                    return bvec(a.ty, a.n, bvneg(a.bv, a.n))
                x = exs(a.bv, a.n)
                r = -x if op == "-" else exite(x < 0, -x, x)
                return bvec(a.ty, a.n, r.bits(a.n))
        if op == "??":
            return self.cond(a)
        if op in ("and", "or", "xor", "nand", "nor", "xnor") and islv(a):
            et = a.ty.elem.ty
            base = op[1:] if op in ("nand",) else {"nor": "or", "xnor": "xor"}.get(op, op)
            one, zero = raw_of_bit(et, 1), raw_of_bit(et, 0)
            r = one if base == "and" else zero
            for x in a.raws():
                r = self.lop(base, et, r, x)
            return EV(et, self.lnot(et, r) if op in ("nand", "nor", "xnor") else r)
        raise Unsupported(f"operator {op} on {type(a).__name__}")

    def bnotv(self, b, n):
        return (b ^ mask(n)) if conc(b) else ~b

    def lnot(self, ty, r):
        if not conc(r):
            return ~r
        if ty is BIT:
            return 1 - r
        return {0: 0, 2: 3, 6: 3, 3: 2, 7: 2}.get(r, 1)

    def lop(self, op, ty, x, y):
        bx, by = bit_of(ty, x), bit_of(ty, y)
        if bx is not None and by is not None:
            if conc(bx) and conc(by):
                r = {"and": bx & by, "or": bx | by, "xor": bx ^ by}[op]
            else:
                if conc(bx):
                    bx, by = by, bx
                if conc(by):
                    if op == "and":
                        r = bx if by else 0
                    elif op == "or":
                        r = 1 if by else bx
                    else:
                        r = ~bx if by else bx
                else:
                    r = {"and": bx & by, "or": bx | by, "xor": bx ^ by}[op]
            return raw_of_bit(ty, r)
        # metavalues
        for k in (0, 1):
            b = (bx, by)[k]
            if b is not None and not conc(b):
                c = self.ctx.decide(bit_is1(b))
                if k == 0:
                    x = raw_of_bit(ty, int(c))
                else:
                    y = raw_of_bit(ty, int(c))
        m = {6: 2, 7: 3}
        x, y = m.get(x, x), m.get(y, y)
        if op == "and" and 2 in (x, y):
            return 2
        if op == "or" and 3 in (x, y):
            return 3
        if 0 in (x, y):
            return 0
        if x in (2, 3) and y in (2, 3):
            bx, by = x - 2, y - 2
            return 2 + {"and": bx & by, "or": bx | by, "xor": bx ^ by}[op]
        return 1

    def evfix(self, a, b):
        if isinstance(a, EV) and isinstance(b, EV):
            if a.ty is None and b.ty is not None:
                a = EV(b.ty, litpos(b.ty, a.v))
            elif b.ty is None and a.ty is not None:
                b = EV(a.ty, litpos(a.ty, b.v))
        return a, b

    def binop(self, op, a, b):
        if op in ("nand", "nor", "xnor"):
            return self.unop("not", self.binop({"nand": "and", "nor": "or", "xnor": "xor"}[op], a, b))
        if op == "&":
            return self.concat(a, b)
        if isinstance(a, EV) and isinstance(b, EV):
            a, b = self.evfix(a, b)
            if op in ("and", "or", "xor"):
                return EV(a.ty, self.lop(op, a.ty, a.v, b.v))
            return self.evcmp(op, a, b)
        if isbool(a) and isbool(b):
            if op == "and":
                return band(a, b)
            if op == "or":
                return bor(a, b)
            if op == "xor" or op == "/=":
                return bnot(biff(a, b))
            if op == "=":
                return biff(a, b)
        if isint(a) and isint(b):
            return self.intop(op, a, b)
        if isinstance(a, R) and (isinstance(b, R) or op == "**" and isint(b)):
            return self.realop(op, a, b)
        if isvec(a) and isvec(b):
            if op in ("and", "or", "xor"):
                return self.veclogic(op, a, b)
            return self.vecop(op, a, b)
        if islv(a) and (isint(b) or isinstance(b, EV)) or islv(b) and (isint(a) or isinstance(a, EV)):
            if op in ("and", "or", "xor"):
                v, e = (a, b) if islv(a) else (b, a)
                if isinstance(e, EV):
                    e = self.coerce(e, v.ty.elem)
                    return mkvec(v.ty, [self.lop(op, v.ty.elem.ty, r, e.v) for r in v.raws()], 1, v.n, True)
            return self.vecop(op, a, b)
        if isinstance(a, Rec) and isinstance(b, Rec) and op in ("=", "/="):
            c = True
            for k in a.f:
                c = band(c, self.binop("=", a.f[k], b.f[k]))
            return c if op == "=" else bnot(c)
        if isinstance(a, Arr) and isinstance(b, Arr) and op in ("=", "/="):
            c = a.n == b.n
            if c:
                for x, y in zip(a.lst, b.lst):
                    c = band(c, self.binop("=", x, y))
            return c if op == "=" else bnot(c)
        if op in ("=", "/=") and (isinstance(a, (Ref, Null)) and isinstance(b, (Ref, Null))):
            c = a is b or isinstance(a, Ref) and isinstance(b, Ref) and a.cell is b.cell
            return c if op == "=" else not c
        raise Unsupported(f"operator {op} on {type(a).__name__}, {type(b).__name__}")

    def evcmp(self, op, a, b):
        if a.ty is not b.ty:
            raise Unsupported("comparison of different types")
        if op in ("=", "/="):
            c = self.raweq(a.ty if a.ty is not None else CHAR, a.v, b.v)
            return c if op == "=" else bnot(c)
        x, y = self.evpos(a) if a.ty is not None else ex(a.v), self.evpos(b) if b.ty is not None else ex(b.v)
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]

    def raweq(self, ty, x, y):
        if islogic(ty):
            bx, by = bit_of(ty, x), bit_of(ty, y)
            if bx is not None and by is not None:
                return bveq(bx, by, 1)
            return x == y if conc(x) and conc(y) else False
        return bveq(x, y, 8)

    def intop(self, op, a, b):
        if type(a) is int and type(b) is int:
            if op in RELINT:
                return RELINT[op](a, b)
            if op in ("+", "-", "*"):
                r = a + b if op == "+" else a - b if op == "-" else a * b
                if INTMIN <= r <= INTMAX:
                    return r
        x, y = ex(a), ex(b)
        if op in ("=", "/=", "<", "<=", ">", ">="):
            return {"=": lambda: x == y, "/=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y,
                    ">": lambda: x > y, ">=": lambda: x >= y}[op]()
        if op in ("+", "-", "*"):
            r = x + y if op == "+" else x - y if op == "-" else x * y
        elif op in ("/", "mod", "rem"):
            d = self.cint(b)
            if d == 0:
                self.error("division by zero")
            if x.conc:
                n = int(x.frac())
                q = abs(n) // abs(d) * (1 if (n < 0) == (d < 0) else -1)
                r = ex(q if op == "/" else n - q * d if op == "rem" else n % d)
            else:
                w = max(x.w() + x.e, sbits(d)) + 1
                t, dv = x.term(0, w), z3.BitVecVal(d, w)
                if op == "/":
                    r = Ex(t / dv)
                elif op == "rem":
                    r = Ex(z3.SRem(t, dv))
                else:
                    if d > 0 and d & (d - 1) == 0:
                        r = x.mod2(d.bit_length() - 1)
                    else:
                        r = Ex(t % dv)
        elif op == "**":
            k = self.cint(b)
            if k < 0:
                self.error("negative exponent")
            r = ex(1)
            for _ in range(k):
                r = r * x
                self.check_in(r, INTMIN, INTMAX, "overflow detected")
        else:
            raise Unsupported(f"integer operator {op}")
        self.check_in(r, INTMIN, INTMAX, "overflow detected")
        return ival(r)

    def realop(self, op, a, b):
        x = a.x
        if op == "**":
            k = self.cint(b)
            if not x.conc:
                if k == 2:
                    return R(round53(x * x))
                raise Unsupported("power of a symbolic real")
            f = x.frac()
            if k >= 0:
                return R(round53(exf(f ** k)))
            if f == 0:
                self.error("division by zero")
            return self.fdiv(ex(1), exf(f ** -k))
        y = b.x
        if op in ("=", "/=", "<", "<=", ">", ">="):
            return {"=": lambda: x == y, "/=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y,
                    ">": lambda: x > y, ">=": lambda: x >= y}[op]()
        if op in ("+", "-", "*"):
            return R(round53(x + y if op == "+" else x - y if op == "-" else x * y))
        if op == "/":
            return self.fdiv(x, y)
        raise Unsupported(f"real operator {op}")

    def fdiv(self, x, y):
        if y.conc:
            f = y.frac()
            if f == 0:
                self.error("division by zero")
            n, d = abs(f).numerator, abs(f).denominator
            if n & (n - 1) == 0:
                r = x.shl(d.bit_length() - n.bit_length())
                return R(r if f > 0 else -r)
            if x.conc:
                return R(exf(Fraction(float(x.frac() / f))))      # correctly rounded quotient
        raise Unsupported("real division")

    # vectors
    def veclogic(self, op, a, b):
        if a.ty is None:
            a = self.coerce_arr(a, b.ty)
        if b.ty is None:
            b = self.coerce_arr(b, a.ty)
        if a.n != b.n:
            self.error("bound check failure: operands of different length")
        ty = a.ty if a.ty.kind != "anyarr" else b.ty
        if a.bv is not None and b.bv is not None:
            x, y = a.bv, b.bv
            if not (conc(x) and conc(y)):
                x, y = bvv(x, a.n), bvv(y, b.n)
            return Vec(ty, 1, a.n, True, a.n, bv={"and": x & y, "or": x | y, "xor": x ^ y}[op] if a.n else 0)
        return mkvec(ty, [self.lop(op, ty.elem.ty, x, y) for x, y in zip(a.raws(), b.raws())], 1, a.n, True)

    def vecop(self, op, a, b):
        """relational and arithmetic operators with at least one vector operand"""
        num = next((v.ty for v in (a, b) if isvec(v) and v.ty is not None and isnum(v.ty)), None)
        if num is None:
            if isvec(a) and isvec(b):
                return self.arrcmp(op, a, b)
            if op in ("sll", "srl", "rol", "ror") and islv(a):
                v = a.retag(NSU)
                f = {"sll": Builtins.bi_shift_left, "srl": Builtins.bi_shift_right, "rol": Builtins.bi_rotate_left,
                     "ror": Builtins.bi_rotate_right}[op]
                r = f(self, [(None, v), (None, b)], None, None)
                return r.retag(a.ty)
            raise Unsupported(f"operator {op} on {a} and {b}")
        for v in (a, b):
            if isvec(v) and v.ty is not None and v.ty.kind != "anyarr" and v.ty is not num:
                raise Unsupported(f"operator {op} on {a.ty} and {b.ty}")
        if op in ("sll", "srl", "sla", "sra", "rol", "ror"):
            f = {"sll": Builtins.bi_shift_left, "srl": Builtins.bi_shift_right, "rol": Builtins.bi_rotate_left,
                 "ror": Builtins.bi_rotate_right, "sla": Builtins.bi_shift_left, "sra": Builtins.bi_shift_right}[op]
            k = self.cint(b)
            if k < 0:
                raise Unsupported("negative shift")
            t = num
            if op == "srl":
                t = NSU if num in (NSU, NSS) else NBU
            r = f(self, [(None, a.retag(t)), (None, k)], None, None)
            return r.retag(num)
        sg = id(num) in SIGNED
        nat = [v for v in (a, b) if isint(v)]
        for v in nat:
            if not sg:
                self.check_in(v, 0, INTMAX, "range check failure")
        rel = op in ("=", "/=", "<", "<=", ">", ">=")
        null = any(isvec(v) and v.n == 0 for v in (a, b))
        if null:
            if rel:
                self.warn(True, "null argument")
                return op == "/="
            return Vec(num, 0, 1, True, 0, bv=0)
        vec = a if isvec(a) else b
        x = self.num(a, num) if isvec(a) else ex(a) if isint(a) else exu(bit_of(a.ty or LOGIC, a.v if a.ty else a.v - 46), 1)
        y = self.num(b, num) if isvec(b) else ex(b) if isint(b) else exu(bit_of(b.ty or LOGIC, b.v if b.ty else b.v - 46), 1)
        if x is None or y is None:
            self.warn(True, "metavalue detected")
            if rel:
                return op == "/="
            n = max(v.n for v in (a, b) if isvec(v))
            if op == "*":
                n = a.n + b.n if isvec(a) and isvec(b) else 2 * n
            return mkvec(num, [1] * n, n - 1, 0, False)
        if rel:
            return {"=": lambda: x == y, "/=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y,
                    ">": lambda: x > y, ">=": lambda: x >= y}[op]()
        n = max(v.n for v in (a, b) if isvec(v))
        if nat:
            # the integer is first converted to the length of the vector
            z = exs if sg else exu
            conv = lambda v: z(v.bits(n), n)
            if isint(a):
                x = conv(x)
            if isint(b):
                y = conv(y)
        if op == "+" and y.conc and y.v == 1 and isvec(a) and a.n == n:
            t = bvnot1(a.bv, n)
            if t is not None:
                return bvec(num, n, bvneg(t, n))
        if op in ("+", "-"):
            r = x + y if op == "+" else x - y
            return bvec(num, n, r.bits(n))
        if op == "*":
            m = a.n + b.n if isvec(a) and isvec(b) else 2 * n
            return bvec(num, m, (x * y).bits(m))
        if op in ("/", "mod", "rem"):
            if not (x.conc and y.conc):
                raise Unsupported("vector division")
            p, q = int(x.frac()), int(y.frac())
            if q == 0:
                self.error("division by zero")
            d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
            r = d if op == "/" else p - d * q if op == "rem" else p % q
            return bvec(num, n, r & mask(n))
        raise Unsupported(f"vector operator {op}")

    def arrcmp(self, op, a, b):
        if a.ty is None and b.ty is not None:
            a = self.coerce_arr(a, b.ty if b.ty.kind != "anyarr" else b.ty)
        elif b.ty is None and a.ty is not None:
            b = self.coerce_arr(b, a.ty)
        ty = a.ty
        et = ty.elem.ty if ty is not None else CHAR
        if op in ("=", "/="):
            if a.n != b.n:
                c = False
            elif a.bv is not None and b.bv is not None:
                c = bveq(a.bv, b.bv, a.n)
            else:
                c = True
                for x, y in zip(a.raws(), b.raws()):
                    c = band(c, self.raweq(et, x, y))
            return c if op == "=" else bnot(c)
        raise Unsupported(f"array ordering {op}")

    def concat(self, a, b):
        def side(v):
            if isinstance(v, EV):
                if v.ty is None:
                    return None, [v.v], 1
                t = ANYARR.get(id(v.ty))
                if t is None:
                    raise Unsupported("concatenation of " + v.ty.name)
                return t, [v.v], 1
            if isvec(v):
                return v.ty, v.raws() if v.bv is None else None, v.n
            raise Unsupported(f"concatenation of {type(v).__name__}")
        if isinstance(a, Arr) and isinstance(b, Arr) and a.ty is b.ty:
            l = a.ty.idx.rng[0]
            return Arr(a.ty, l, l + a.n + b.n - 1, True, a.lst + b.lst, a.est)
        if isinstance(a, Arr) and not isinstance(b, Arr) or isinstance(b, Arr):
            arr, x = (a, b) if isinstance(a, Arr) else (b, a)
            x = self.coerce(x, arr.est or arr.ty.elem)
            lst = arr.lst + [x] if arr is a else [x] + arr.lst
            l = arr.ty.idx.rng[0]
            return Arr(arr.ty, l, l + len(lst) - 1, True, lst, arr.est)
        (ta, ra, na), (tb, rb, nb) = side(a), side(b)
        real = [t for t in (ta, tb) if t is not None and t.kind != "anyarr"]
        weak = [t for t in (ta, tb) if t is not None and t.kind == "anyarr"]
        if len(real) == 2 and real[0] is not real[1]:
            raise Unsupported(f"concatenation of {ta} and {tb}")
        ty = real[0] if real else weak[0] if weak else None
        if ty is None:
            r = ra + rb
            return Vec(None, 1, len(r), True, len(r), lst=r)
        # literals take the element type
        et = ty.elem.ty

        def fix(v, t, r):
            if t is None:
                return mkvec(ty, [litpos(et, c) for c in r])
            if isinstance(v, EV):
                return mkvec(ty, [v.v])
            return v
        x, y = fix(a, ta, ra), fix(b, tb, rb)
        n = na + nb
        if na == 0 and isvec(b) and tb is not None and tb.kind != "anyarr":
            # (VHDL-93: the result of concatenating a null left operand is the right operand)
            return y.retag(ty)
        left = ty.idx.rng[0] if ty.kind != "anyarr" else 0
        if n == 0:
            return y.retag(ty) if isvec(y) else y
        if x.bv is not None and y.bv is not None:
            return Vec(ty, left, left + n - 1, True, n, bv=cat(x.bv, na, y.bv, nb))
        return mkvec(ty, x.raws() + y.raws(), left, left + n - 1, True)

    # ------------------------------------------------------------------ text
    def image(self, v, ty):
        if isint(v):
            v = ival(v)
            if isinstance(v, int):
                return strv(str(v))
            return self.intimage(v)
        if isinstance(v, EV):
            if v.ty is CHAR or v.ty is None:
                return mkvec(STRING, [39, v.v, 39])
            if not conc(v.v):
                if islogic(v.ty):
                    return mkvec(STRING, [39, 48 + z3.ZeroExt(7, v.v), 39])
                k = self.cint_enum(v)
                return strv(v.ty.lits[k])
            l = v.ty.lits[v.v]
            return strv(l + "'" if l.startswith("'") else l)
        if isbool(v):
            return strv("true") if self.ctx.decide(v) else strv("false")
        if isinstance(v, R):
            return strv("<real>")
        raise Unsupported("image")

    def cint_enum(self, v):
        for k in range(len(v.ty.lits)):
            if self.ctx.decide(self.raweq(v.ty, v.v, k)):
                return k
        raise Unsupported("enumeration value")

    def intimage(self, x):
        """decimal text of a symbolic integer: fork on sign and digit count"""
        neg = self.ctx.decide(x < 0)
        m = -x if neg else x
        k = 1
        while k < 40 and not self.ctx.decide(m < 10 ** k):
            k += 1
        w = max(m.w() + m.e, 4) + 1
        t = m.term(0, w)
        out = [45] if neg else []
        if k == 1 and not conc(t) and nodes_of(t) > 8:
            return mkvec(STRING, out + [digit(t) + 48])
        for j in range(k - 1, -1, -1):
            d = z3.URem(z3.UDiv(t, z3.BitVecVal(10 ** j, w)), z3.BitVecVal(10, w)) if 10 ** j < 1 << w else z3.BitVecVal(0, w)
            d8 = z3.Extract(7, 0, d) if w >= 8 else z3.ZeroExt(8 - w, d)
            out.append(z3.simplify(d8 + 48))
        return mkvec(STRING, [o if isinstance(o, int) else (o.as_long() if z3.is_bv_value(o) else o) for o in out])

    def bi_to_string(self, args, nodes, sc):
        if len(args) != 1:
            return NotImplemented
        v = args[0][1]
        if isint(v) or isbool(v) or isinstance(v, R):
            return self.image(v, None)
        if isinstance(v, EV):
            if v.ty is CHAR or v.ty is None:
                return mkvec(STRING, [v.v])
            i = self.image(v, None)
            return mkvec(STRING, i.lst[1:-1]) if islogic(v.ty) else i
        if islv(v):
            return mkvec(STRING, [self.lchar(v.ty.elem.ty, r) for r in v.raws()])
        if isvec(v):
            return mkvec(STRING, v.raws())
        return NotImplemented

    bi_to_bstring = bi_to_string

    def lchar(self, ty, r):
        if conc(r):
            return ord("UX01ZWLH-"[r]) if ty is LOGIC else 48 + r
        return z3.simplify(z3.ZeroExt(7, r) + 48)

    def hexchars(self, v):
        """upper-case hexadecimal digits of a vector (sign extended for signed)"""
        b = self.bits(v)
        if b is None:
            raise Unsupported("hexadecimal text of metavalues")
        n = v.n
        m = 4 * ((n + 3) // 4)
        b = sx(b, n, m) if id(v.ty) in SIGNED else zx(b, n, m) if n else 0
        out = []
        for j in range(m // 4 - 1, -1, -1):
            d = ext(b, m, 4 * j + 3, 4 * j)
            if conc(d):
                out.append(ord("0123456789ABCDEF"[d]))
            else:
                d8 = z3.ZeroExt(4, d)
                out.append(z3.If(z3.ULT(d, 10), d8 + 48, d8 + 55))
        return out

    def bi_to_hstring(self, args, nodes, sc):
        a = self.vals(args, "lv")
        if a is None:
            return NotImplemented
        return mkvec(STRING, self.hexchars(a[0]))

    def value(self, s, ty):
        if s.ty is None:
            s = self.coerce_arr(s, STRING)
        if ty.kind != "int":
            if all(conc(c) for c in s.lst):
                t = "".join(map(chr, s.lst)).strip().lower()
                if ty.kind == "bool" and t in ("true", "false"):
                    return t == "true"
                if ty.kind == "enum" and ty.lits and t in ty.lits:
                    return EV(ty, ty.lits.index(t))
                if ty.kind == "enum" and ty.lits and t[:1] == "'" and t[:2].upper() in ty.lits:
                    return EV(ty, ty.lits.index(t[:2].upper()))
                self.error("bad value text")
            raise Unsupported("'value of symbolic text")
        lst = list(s.lst)
        while lst and conc(lst[0]) and lst[0] in (32, 9, 160):
            lst.pop(0)
        while lst and conc(lst[-1]) and lst[-1] in (32, 9, 160):
            lst.pop()
        if not lst:
            self.error("bad value text: empty")
        neg = False
        if conc(lst[0]):
            if lst[0] in (43, 45):
                neg = lst[0] == 45
                lst.pop(0)
        elif len(lst) > 1 and self.ctx.decide(bveq(lst[0], 45, 8)):
            neg = True
            lst.pop(0)
        r = ex(0)
        ok = True
        for c in lst:
            if conc(c):
                if not 48 <= c <= 57:
                    if c == 95:
                        continue
                    self.error("bad value text")
                r = r * 10 + (c - 48)
            else:
                ok = band(ok, z3.And(z3.UGE(c, 48), z3.ULE(c, 57)))
                # (the digit is c - 48 whenever the text is a number)
                r = r * 10 + exu(z3.simplify(z3.Extract(3, 0, c)), 4)
        self.require(ok, "bad value text")
        if not lst:
            self.error("bad value text")
        r = -r if neg else r
        self.check_in(r, INTMIN, INTMAX, "overflow detected")
        return ival(r)

    # files and lines
    def newfile(self):
        return VFile()

    files_map = None

    def fname(self, v):
        if v.ty is None:
            v = self.coerce_arr(v, STRING)
        if not all(conc(c) for c in v.lst):
            raise Unsupported("symbolic file name")
        return "".join(map(chr, v.lst))

    def file_open(self, f, name, mode):
        if self.files_map is None:
            self.files_map = {}
        nm = self.fname(name)
        f.name, f.mode, f.pos = nm, mode, 0
        if mode == "read_mode":
            if nm not in self.files_map:
                self.error(f"cannot open file {nm}")
            f.lines = self.files_map[nm]
        elif mode == "write_mode":
            f.lines = self.files_map[nm] = []
        else:
            f.lines = self.files_map.setdefault(nm, [])

    def noguard(self, what):
        if self.ctx.guards and not self.alive():
            raise Dead()
        if self.ctx.guards:
            self.ctx.pc.extend(self.ctx.guards)

    def bi_file_open(self, args, nodes, sc):
        a = [v for _, v in args]
        i = next((k for k, v in enumerate(a) if isinstance(v, VFile)), None)
        if i is None:
            return NotImplemented
        mode = a[i + 2].ty.lits[a[i + 2].v] if len(a) > i + 2 else "read_mode"
        self.file_open(a[i], a[i + 1], mode)

    def bi_file_close(self, args, nodes, sc):
        a = self.vals(args, "file")
        if a is None:
            return NotImplemented
        a[0].lines = None

    def bi_endfile(self, args, nodes, sc):
        a = self.vals(args, "file")
        if a is None:
            return NotImplemented
        if a[0].lines is None:
            self.error("endfile on a closed file")
        return a[0].pos >= len(a[0].lines)

    def bi_readline(self, args, nodes, sc):
        a = self.vals(args, "file", "any")
        if a is None:
            return NotImplemented
        f = a[0]
        if f.lines is None or f.pos >= len(f.lines):
            self.error("readline past the end of the file")
        v = f.lines[f.pos]
        f.pos += 1
        self.assign(nodes[1], sc, Ref(Cell("line", St(STRING), "variable", v.rebound(1, v.n, True))))

    def bi_writeline(self, args, nodes, sc):
        a = self.vals(args, "file", "any")
        if a is None:
            return NotImplemented
        f = a[0]
        if f.lines is None:
            self.error("writeline to a closed file")
        v = a[1].cell.val if isinstance(a[1], Ref) else mkvec(STRING, [])
        if self.ctx.guards:
            raise Unsupported("file write under a symbolic condition")
        f.lines.append(v)
        self.assign(nodes[1], sc, Ref(Cell("line", St(STRING), "variable", mkvec(STRING, []))))

    def lineval(self, l):
        return l.cell.val if isinstance(l, Ref) else mkvec(STRING, [])

    def append(self, node, sc, l, chars):
        v = self.lineval(l)
        self.assign(node, sc, Ref(Cell("line", St(STRING), "variable", mkvec(STRING, v.raws() + chars))))

    def pad(self, chars, args):
        """justified / field arguments"""
        just, fld = 0, 0
        rest = args[2:]
        for i, (f, v) in enumerate(rest):
            if f == "justified" or f is None and i == 0:
                just = v.v
            elif f == "field" or f is None and i == 1:
                fld = self.cint(v)
            else:
                raise Unsupported("write argument")
        p = [32] * max(0, fld - len(chars))
        return p + chars if just == 0 else chars + p

    def bi_write(self, args, nodes, sc):
        if len(args) < 2 or not isinstance(args[0][1], (Ref, Null)):
            return NotImplemented
        v = args[1][1]
        if isint(v) or isbool(v):
            ch = self.image(v, None).lst
            if isbool(v):
                ch = [c for c in ch]
        elif isinstance(v, EV):
            ch = [self.lchar(v.ty, v.v)] if v.ty is not None and islogic(v.ty) else [v.v]
        elif islv(v):
            ch = [self.lchar(v.ty.elem.ty, r) for r in v.raws()]
        elif isvec(v):
            ch = v.raws()
        else:
            return NotImplemented
        self.append(nodes[0], sc, args[0][1], self.pad(list(ch), args))

    bi_bwrite = bi_swrite = bi_write

    def bi_hwrite(self, args, nodes, sc):
        if len(args) < 2 or not isinstance(args[0][1], (Ref, Null)) or not islv(args[1][1]):
            return NotImplemented
        self.append(nodes[0], sc, args[0][1], self.pad(self.hexchars(args[1][1]), args))

    def skipws(self, raws):
        i = 0
        while i < len(raws):
            c = raws[i]
            ws = c in (32, 9, 160) if conc(c) else z3.Or(c == 32, c == 9, c == 160)
            if not self.ctx.decide(ws):
                break
            i += 1
        return raws[i:]

    def setline(self, node, sc, raws):
        self.assign(node, sc, Ref(Cell("line", St(STRING), "variable", mkvec(STRING, raws))))

    def readgood(self, args, nodes, sc, ok):
        """GOOD argument, or an error"""
        if len(args) > 2:
            self.assign(nodes[2], sc, ok)
        else:
            self.require(ok, "read error")

    def bi_read(self, args, nodes, sc):
        if len(args) < 2 or not isinstance(args[0][1], (Ref, Null)):
            return NotImplemented
        v = args[1][1]
        raws = self.lineval(args[0][1]).raws()
        if islv(v) or isinstance(v, EV) and v.ty is not None and islogic(v.ty):
            n = v.n if islv(v) else 1
            et = v.ty.elem.ty if islv(v) else v.ty
            raws = self.skipws(raws)
            if n == 0:
                return None
            if len(raws) < n:
                self.readgood(args, nodes, sc, False)
                return None
            out, ok = [], True
            for c in raws[:n]:
                if conc(c):
                    if c == 95:
                        raise Unsupported("underscore in a number")
                    l = chr(c)
                    if l in "01":
                        out.append(raw_of_bit(et, c - 48))
                    elif et is LOGIC and l.upper() in "UX01ZWLH-":
                        out.append("UX01ZWLH-".index(l.upper()))
                    else:
                        ok = False
                        out.append(raw_of_bit(et, 0))
                else:
                    ok = band(ok, z3.Or(c == 48, c == 49))
                    out.append(z3.Extract(0, 0, c))
            self.readgood(args, nodes, sc, ok)
            self.setline(nodes[0], sc, raws[n:])
            if islv(v):
                self.assign(nodes[1], sc, mkvec(v.ty, out))
            else:
                self.assign(nodes[1], sc, EV(et, out[0]))
            return None
        if isint(v):
            raws = self.skipws(raws)
            k = 0
            while k < len(raws):
                c = raws[k]
                d = (48 <= c <= 57 or k == 0 and c in (45, 43)) if conc(c) else \
                    z3.Or(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), *([c == 45] if k == 0 else []))
                if not self.ctx.decide(d):
                    break
                k += 1
            if k == 0:
                self.readgood(args, nodes, sc, False)
                return None
            x = self.value(mkvec(STRING, raws[:k]), INT)
            self.setline(nodes[0], sc, raws[k:])
            self.assign(nodes[1], sc, x)
            return None
        if isinstance(v, EV) and v.ty is CHAR:
            if not raws:
                self.readgood(args, nodes, sc, False)
                return None
            self.setline(nodes[0], sc, raws[1:])
            self.assign(nodes[1], sc, EV(CHAR, raws[0]))
            return None
        if isvec(v) and v.ty is STRING:
            if len(raws) < v.n:
                self.readgood(args, nodes, sc, False)
                return None
            self.setline(nodes[0], sc, raws[v.n:])
            self.assign(nodes[1], sc, mkvec(STRING, raws[:v.n]))
            return None
        return NotImplemented

    bi_bread = bi_read

    def bi_hread(self, args, nodes, sc):
        if len(args) < 2 or not isinstance(args[0][1], (Ref, Null)) or not islv(args[1][1]):
            return NotImplemented
        v = args[1][1]
        raws = self.skipws(self.lineval(args[0][1]).raws())
        n = v.n
        nd = (n + 3) // 4
        if n == 0:
            return None
        if len(raws) < nd:
            self.readgood(args, nodes, sc, False)
            return None
        b, ok = 0, True
        for j, c in enumerate(raws[:nd]):
            if conc(c):
                if chr(c) not in "0123456789abcdefABCDEF":
                    ok = False
                    d = 0
                else:
                    d = int(chr(c), 16)
            else:
                dig = z3.And(z3.UGE(c, 48), z3.ULE(c, 57))
                up = z3.And(z3.UGE(c, 65), z3.ULE(c, 70))
                lo = z3.And(z3.UGE(c, 97), z3.ULE(c, 102))
                ok = band(ok, z3.Or(dig, up, lo))
                q = z3.Extract(3, 0, c)
                d = z3.If(dig, q, q + 9)
            b = cat(b, 4 * j, d, 4)
        m = 4 * nd
        if m > n:
            top = ext(b, m, m - 1, n)
            if id(v.ty) in SIGNED:
                s = ext(b, m, n - 1, n - 1)
                ok = band(ok, bveq(top, sx(s, 1, m - n), m - n))
            else:
                ok = band(ok, bveq(top, 0, m - n))
        self.readgood(args, nodes, sc, ok)
        self.setline(nodes[0], sc, raws[nd:])
        self.assign(nodes[1], sc, bvec(v.ty, n, ext(b, m, n - 1, 0)))
