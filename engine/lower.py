"""Lowering of Num/Bool to z3 bit-vectors.  Every signed bit-vector carries concrete bounds
[lo,hi]; operations choose widths from those bounds so that no operation can overflow."""
import z3
from fractions import Fraction
from . import num as N
from .num import Lin, Unsupported
from .ctx import CW

MAXW = 1600


def width(lo, hi):
    """bits of a signed vector holding lo..hi"""
    w = 1
    if hi > 0:
        w = max(w, hi.bit_length() + 1)
    if lo < 0:
        w = max(w, (-lo - 1).bit_length() + 1)
    return w


class V:
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi


def cst(v):
    return V(z3.BitVecVal(v, width(v, v)), v, v)


def ext(e, w):
    s = e.size()
    if s == w:
        return e
    if s < w:
        return z3.SignExt(w - s, e)
    return z3.Extract(w - 1, 0, e)


class Lowering:
    def __init__(self, ctx, realmul=False):
        self.ctx = ctx
        self.realmul = realmul
        self.numc = {}
        self.atomc = {}
        self.boolc = {}
        self.side = []           # side conditions (ranges of abstracted products)
        self.shifts = {}         # Lin -> [count, mn, mx]
        self.vars = {}
        self.bvars = {}
        self.abstracted = False

    # ------------------------------------------------------------ control
    def cv(self, n):
        return z3.BitVec("c_" + n, CW)

    def lin(self, l):
        l = self.ctx.reduce(l)
        e = z3.BitVecVal(l.c, CW)
        for n, v in l.t:
            e = e + self.cv(n) if v == 1 else (e - self.cv(n) if v == -1 else e + self.cv(n) * z3.BitVecVal(v, CW))
        return e

    def amount(self, l, w):
        e = self.lin(l)
        if w == CW:
            return e
        return z3.SignExt(w - CW, e) if w > CW else z3.Extract(w - 1, 0, e)

    def use_shift(self, l, mn, mx, weight=10):
        if mx > mn:
            s = self.shifts.setdefault(l, [0, mn, mx])
            s[0] += weight

    # ------------------------------------------------------------ bases
    def minbase(self, lins):
        return self.ctx.minbase(lins, fork=False)

    # ------------------------------------------------------------ arithmetic on V
    def add(self, x, y):
        lo, hi = x.lo + y.lo, x.hi + y.hi
        w = width(lo, hi)
        if w > MAXW:
            raise Unsupported("bit-vector too wide")
        return V(ext(x.e, w) + ext(y.e, w), lo, hi)

    def mulc(self, x, n):
        if n == 1:
            return x
        lo, hi = sorted((x.lo * n, x.hi * n))
        w = width(lo, hi)
        if n == -1:
            return V(-ext(x.e, w), lo, hi)
        return V(ext(x.e, w) * z3.BitVecVal(n, w), lo, hi)

    def shl(self, x, l):
        """x << l, l >= 0 on this path"""
        l = self.ctx.reduce(l)
        if not l.t:
            if l.c == 0:
                return x
            lo, hi = x.lo << l.c, x.hi << l.c
            w = width(lo, hi)
            if w > MAXW:
                raise Unsupported("bit-vector too wide")
            return V(ext(x.e, w) << z3.BitVecVal(l.c, w), lo, hi)
        mx = self.ctx.maxlin(l)
        mn = max(0, self.ctx.minlin(l))
        self.use_shift(l, mn, mx, 1 if x.lo == x.hi else 10)
        lo = min(x.lo << mx, x.lo << mn)
        hi = max(x.hi << mx, x.hi << mn)
        w = max(width(lo, hi), mx.bit_length() + 1)
        if w > MAXW:
            raise Unsupported("bit-vector too wide")
        return V(ext(x.e, w) << self.amount(l, w), lo, hi)

    def ashr(self, x, l):
        l = self.ctx.reduce(l)
        if not l.t:
            if l.c == 0:
                return x
            lo, hi = x.lo >> l.c, x.hi >> l.c
            w = x.e.size()
            c = min(l.c, w - 1)
            e = x.e >> z3.BitVecVal(c, w) if w > 1 else x.e
            return V(ext(e, width(lo, hi)), lo, hi)
        mx = self.ctx.maxlin(l)
        mn = max(0, self.ctx.minlin(l))
        self.use_shift(l, mn, mx)
        w = max(x.e.size(), mx.bit_length() + 1)
        e = ext(x.e, w) >> self.amount(l, w)
        lo = min(x.lo >> mn, x.lo >> mx)
        hi = max(x.hi >> mn, x.hi >> mx)
        return V(ext(e, width(lo, hi)), lo, hi)

    def ite(self, c, x, y):
        lo, hi = min(x.lo, y.lo), max(x.hi, y.hi)
        w = width(lo, hi)
        return V(z3.If(c, ext(x.e, w), ext(y.e, w)), lo, hi)

    # ------------------------------------------------------------ Num
    def num(self, x):
        """-> (V, base Lin):  x = V * 2**base"""
        r = self.numc.get(x)
        if r is not None:
            return r
        if not x.t:
            r = (cst(0), N.L0)
            self.numc[x] = r
            return r
        lins = N.term_lins(x)
        base = self.minbase(lins)
        acc = None
        for ((a, l), c), tl in zip(x.t.items(), lins):
            odd = c / (Fraction(2) ** N.dy_min_exp(c))
            v = cst(1) if a is None else self.atom(a)
            v = self.shl(v, tl.sub(base))
            v = self.mulc(v, int(odd))
            acc = v if acc is None else self.add(acc, v)
        r = (acc, base)
        self.numc[x] = r
        return r

    def int(self, x):
        """integer-valued Num -> V"""
        v, b = self.num(x)
        b = self.ctx.reduce(b)
        if not b.t and b.c == 0:
            return v
        if self.ctx.lin_ge0(b):
            return self.shl(v, b)
        # integer valued although the base is fractional: exact right shift
        return self.floor_of(v, b)

    def floor_of(self, v, b):
        c = self.ctx
        b = c.reduce(b)
        if c.lin_ge0(b):
            return self.shl(v, b)
        if c.lin_ge0(b.neg()):
            return self.ashr(v, b.neg())
        # sign of b unknown: shift left by b-mn, then right by -mn
        mn = c.minlin(b)
        return self.ashr(self.shl(v, b.addc(-mn)), Lin((), -mn))

    # ------------------------------------------------------------ atoms
    def atom(self, a):
        r = self.atomc.get(a)
        if r is None:
            r = self._atom(a)
            self.atomc[a] = r
        return r

    def _atom(self, a):
        k, g = a.kind, a.args
        c = self.ctx
        if k == "cvar":
            l = c.reduce(Lin.var(g[0]))
            lo, hi = c.minlin(l), c.maxlin(l)
            return V(ext(self.lin(l), width(lo, hi)), lo, hi)
        if k == "var":
            d = c.vars[g[0]]
            w = min(c.maxlin(l) for l in d["wl"])
            w = max(w, 0)
            lo, hi = -(1 << w), (1 << w)
            if N.is_const(d["lo"]):
                lo = max(lo, int(N.const_val(d["lo"])))
            if N.is_const(d["hi"]):
                hi = min(hi, int(N.const_val(d["hi"])))
            W = width(lo, hi)
            e = z3.BitVec(f"v_{g[0]}_{W}", W)
            self.vars[g[0]] = e
            self.side.append(z3.And(e >= z3.BitVecVal(lo, W), e <= z3.BitVecVal(hi, W)))
            return V(e, lo, hi)
        if k == "floor":
            v, b = self.num(g[0])
            return self.floor_of(v, b)
        if k == "mod":
            return self.mod(self.int(g[0]), g[1])
        if k == "ite":
            b = self.bool(g[0])
            if z3.is_true(b):
                return self.int(g[1])
            if z3.is_false(b):
                return self.int(g[2])
            return self.ite(b, self.int(g[1]), self.int(g[2]))
        if k == "mul":
            return self.mulatoms(g)
        if k == "rne":
            return self.rne(self.int(g[0]))
        if k == "divc":
            return self.divc(self.int(g[0]), g[1])
        if k == "bitop":
            x, y = self.int(g[1]), self.int(g[2])
            w = max(x.e.size(), y.e.size())
            xe, ye = ext(x.e, w), ext(y.e, w)
            e = {"and": xe & ye, "or": xe | ye, "xor": xe ^ ye}[g[0]]
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if x.lo >= 0 and y.lo >= 0:
                lo = 0
            if g[0] == "and" and x.lo >= 0:
                lo, hi = 0, min(hi, x.hi)
            if g[0] == "and" and y.lo >= 0:
                lo, hi = 0, min(hi, y.hi)
            return V(ext(e, width(lo, hi)), lo, hi)
        raise Unsupported("atom " + k)

    def mod(self, x, l):
        c = self.ctx
        l = c.reduce(l)
        mx = c.maxlin(l)
        if not l.t:
            m = 1 << l.c
            if x.lo >= 0 and x.hi < m:
                return x
            w = max(x.e.size(), l.c + 1)
            if l.c == 0:
                return cst(0)
            e = z3.Extract(l.c - 1, 0, ext(x.e, w))
            return V(z3.Concat(z3.BitVecVal(0, 1), e), 0, m - 1)
        mn = max(0, c.minlin(l))
        self.use_shift(l, mn, mx)
        hi = (1 << mx) - 1
        if x.lo >= 0:
            hi = min(hi, x.hi)
        w = max(x.e.size(), mx + 2)
        mask = (z3.BitVecVal(1, w) << self.amount(l, w)) - z3.BitVecVal(1, w)
        e = ext(x.e, w) & mask
        return V(ext(e, width(0, hi)), 0, hi)

    def divc(self, x, n):
        lo, hi = x.lo // n, x.hi // n
        w = max(x.e.size(), n.bit_length() + 1) + 1
        xe = ext(x.e, w)
        nn = z3.BitVecVal(n, w)
        q = xe / nn                      # truncated signed division
        if x.lo < 0:
            r = z3.SRem(xe, nn)
            q = z3.If(r < 0, q - 1, q)
        return V(ext(q, width(lo, hi)), lo, hi)

    def rne(self, x):
        m = max(abs(x.lo), abs(x.hi))
        if m <= 1 << 53:
            return x
        self.ctx.stats.rne += 1
        W = x.e.size() + 2
        xe = ext(x.e, W)
        neg = xe < 0
        a = z3.If(neg, -xe, xe)
        top = m.bit_length()
        res = a
        for bl in range(54, top + 1):          # bit length of a is bl: drop bl-53 bits
            s = bl - 53
            q = z3.LShR(a, z3.BitVecVal(s, W))
            rem = z3.Extract(s - 1, 0, a)
            half = z3.BitVecVal(1 << (s - 1), s)
            up = z3.Or(z3.UGT(rem, half), z3.And(rem == half, z3.Extract(0, 0, q) == 1))
            v = z3.If(up, q + 1, q) << z3.BitVecVal(s, W)
            res = z3.If(z3.UGE(a, z3.BitVecVal(1 << (bl - 1), W)), v, res)
        e = z3.If(neg, -res, res)
        hi = 1 << top
        lo, hi = (-hi if x.lo < 0 else 0), (hi if x.hi > 0 else 0)
        return V(ext(e, width(lo, hi)), lo, hi)

    def mulatoms(self, g):
        vs = [self.atom(q) for q in g]
        small = sum(1 for v in vs if v.e.size() > 9)
        if self.realmul or small <= 1 or len(g) > 2:
            acc = vs[0]
            for v in vs[1:]:
                c = [acc.lo * v.lo, acc.lo * v.hi, acc.hi * v.lo, acc.hi * v.hi]
                lo, hi = min(c), max(c)
                w = width(lo, hi)
                acc = V(ext(acc.e, w) * ext(v.e, w), lo, hi)
            return acc
        # product of two wide data values: a fresh integer with the McCormick envelope of the
        # operands' (symbolic) bounds.  Over-approximation: unsat verdicts stay sound.
        a, b = g
        x, y = vs
        c = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]
        lo, hi = min(c), max(c)
        W = width(lo, hi)
        e = z3.BitVec(f"p_{a.id}_{b.id}_{W}", W)
        self.abstracted = True
        r = V(e, lo, hi)
        self.atomc[N.mkmul(a, b)] = r
        self.side.append(z3.And(e >= z3.BitVecVal(lo, W), e <= z3.BitVecVal(hi, W)))
        pa, pb = N.from_atom(a), N.from_atom(b)
        p = N.from_atom(N.mkmul(a, b))
        ba, bb = self.bounds(a), self.bounds(b)
        if ba and bb:
            (al, ah), (bl, bh) = ba, bb
            M = N.mul
            lem = [
                N.le(N.sub(N.add(M(al, pb), M(bl, pa)), M(al, bl)), p),
                N.le(N.sub(N.add(M(ah, pb), M(bh, pa)), M(ah, bh)), p),
                N.le(p, N.sub(N.add(M(ah, pb), M(bl, pa)), M(ah, bl))),
                N.le(p, N.sub(N.add(M(al, pb), M(bh, pa)), M(al, bh))),
            ]
            for q in lem:
                self.side.append(self.bool(q))
            # a square is non-negative, parity etc. are not tracked
        return r

    def bounds(self, a):
        if a.kind == "var":
            d = self.ctx.vars[a.args[0]]
            return d["lo"], d["hi"]
        return None

    # ------------------------------------------------------------ Bool
    def bool(self, b):
        r = self.boolc.get(b)
        if r is None:
            r = self._bool(b)
            self.boolc[b] = r
        return r

    def _bool(self, b):
        k = b.kind
        if k == "const":
            return z3.BoolVal(b.args[0])
        if k in ("<", "<=", "=="):
            v, _ = self.num(b.args[0])
            if k == "<":
                if v.hi < 0:
                    return z3.BoolVal(True)
                if v.lo >= 0:
                    return z3.BoolVal(False)
                return v.e < 0
            if k == "<=":
                if v.hi <= 0:
                    return z3.BoolVal(True)
                if v.lo > 0:
                    return z3.BoolVal(False)
                return v.e <= 0
            if v.lo > 0 or v.hi < 0:
                return z3.BoolVal(False)
            return v.e == 0
        if k == "not":
            return z3.Not(self.bool(b.args[0]))
        if k == "and":
            return z3.And(*[self.bool(q) for q in b.args])
        if k == "bvar":
            e = z3.Bool("b_" + b.args[0])
            self.bvars[b.args[0]] = e
            return e
        raise Unsupported("bool " + k)

    # control facts are asserted verbatim: folding them with intervals that were derived from
    # the very same facts would silently drop them
    def rawlin(self, l):
        e = z3.BitVecVal(l.c, CW)
        for n, v in l.t:
            e = e + self.cv(n) * z3.BitVecVal(v, CW)
        if sum(abs(v) * max(abs(q) for q in self.ctx.box[n]) for n, v in l.t) + abs(l.c) >= 1 << (CW - 1):
            raise Unsupported("control expression too large")
        return e

    def ctl(self, b):
        k = b.kind
        if k == "const":
            return z3.BoolVal(b.args[0])
        if k == "<=":
            return self.rawlin(N.as_lin(b.args[0])) <= 0
        if k == "<":
            return self.rawlin(N.as_lin(b.args[0])) < 0
        if k == "==":
            return self.rawlin(N.as_lin(b.args[0])) == 0
        if k == "not":
            return z3.Not(self.ctl(b.args[0]))
        if k == "and":
            return z3.And(*[self.ctl(q) for q in b.args])
        raise Unsupported(k)

    def formula(self, bs):
        out = [self.ctl(b) if N.is_control(b) else self.bool(b) for b in bs]
        for n, (lo, hi) in self.ctx.box.items():
            out.append(self.cv(n) >= lo)
            out.append(self.cv(n) <= hi)
        for n, sol in self.ctx.eqs:
            out.append(self.cv(n) == self.lin(sol))
        return out + self.side

    def model(self, m):
        from .ctx import Model
        ctl = {}
        for n in self.ctx.box:
            ctl[n] = m.eval(self.cv(n), model_completion=True).as_signed_long()
        data = {}
        for n, e in self.vars.items():
            data[n] = m.eval(e, model_completion=True).as_signed_long()
        for n, e in self.bvars.items():
            data[n] = z3.is_true(m.eval(e, model_completion=True))
        return Model(ctl, data)
