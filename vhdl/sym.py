"""Bit-vector terms of known width (Python ints when concrete), exact dyadic numbers, and path exploration."""
import random
import time
from fractions import Fraction
import z3

Z = z3


class Unsupported(Exception):
    """construct outside the encoded subset; the case is undecided"""


class Inconclusive(Exception):
    pass


class PathAbort(BaseException):
    pass


class Infeasible(PathAbort):
    pass


class Restart(PathAbort):
    pass


class Stop(PathAbort):
    pass


# ------------------------------------------------------------------ fixed-width terms
def conc(x):
    return isinstance(x, int)


def bvv(x, n):
    """as a z3 term of width n"""
    return Z.BitVecVal(x, n) if isinstance(x, int) else x


def mask(n):
    return (1 << n) - 1


def _fold(t):
    return t.as_long() if Z.is_bv_value(t) else t


def cat(a, na, b, nb):
    """a is the more significant part"""
    if na == 0:
        return b
    if nb == 0:
        return a
    if conc(a) and conc(b):
        return (a << nb) | b
    # re-join adjacent extracts of the same term
    if not conc(a) and not conc(b) and Z.is_app_of(a, Z.Z3_OP_EXTRACT) and Z.is_app_of(b, Z.Z3_OP_EXTRACT) \
            and a.arg(0).eq(b.arg(0)) and a.params()[1] == b.params()[0] + 1:
        return ext(a.arg(0), a.arg(0).size(), a.params()[0], b.params()[1])
    return Z.Concat(bvv(a, na), bvv(b, nb))


def ext(a, n, hi, lo):
    if hi < lo:
        return 0
    assert 0 <= lo and hi < n, (n, hi, lo)
    if conc(a):
        return (a >> lo) & mask(hi - lo + 1)
    if lo == 0 and hi == n - 1:
        return a
    k = a.decl().kind()
    if k == Z.Z3_OP_UNINTERPRETED:
        return Z.Extract(hi, lo, a)
    if k == Z.Z3_OP_EXTRACT:
        h, l = a.params()
        return ext(a.arg(0), a.arg(0).size(), l + hi, l + lo)
    if k == Z.Z3_OP_CONCAT:
        # pick the parts
        pos = n
        parts = []
        for c in a.children():
            s = c.size()
            pos -= s
            h, l = min(hi, pos + s - 1), max(lo, pos)
            if h >= l:
                parts.append((_fold(c), s, h - pos, l - pos))
        r, rn = 0, 0
        for c, s, h, l in parts:
            p = ext(c, s, h, l)
            r = cat(r, rn, p, h - l + 1)
            rn += h - l + 1
        return r
    if k in (Z.Z3_OP_ZERO_EXT, Z.Z3_OP_SIGN_EXT):
        c = a.arg(0)
        s = c.size()
        if hi < s:
            return ext(c, s, hi, lo)
        if k == Z.Z3_OP_ZERO_EXT and lo >= s:
            return 0
        if k == Z.Z3_OP_ZERO_EXT:
            return cat(0, hi - s + 1, ext(c, s, s - 1, lo), s - lo)
        if lo < s:
            return sx(ext(c, s, s - 1, lo), s - lo, hi - lo + 1)
    return Z.Extract(hi, lo, a)


def joinbits(bits):
    """the term with these one-bit terms (leftmost first); runs of bits of one term are taken together"""
    r, n = 0, 0
    i, k = 0, len(bits)
    while i < k:
        b = bits[i]
        j = i + 1
        if isinstance(b, int):
            while j < k and isinstance(bits[j], int):
                b = (b << 1) | bits[j]
                j += 1
        elif Z.is_app_of(b, Z.Z3_OP_EXTRACT):
            t = b.arg(0)
            hi = lo = b.params()[0]
            while j < k and lo > 0 and not isinstance(bits[j], int) and Z.is_app_of(bits[j], Z.Z3_OP_EXTRACT) \
                    and bits[j].params() == [lo - 1, lo - 1] and bits[j].arg(0).eq(t):
                lo -= 1
                j += 1
            if b.params()[0] == b.params()[1]:
                b = ext(t, t.size(), hi, lo)
            else:
                j = i + 1
        r = cat(r, n, b, j - i)
        n += j - i
        i = j
    return r


def tz(t, n):
    """number of low bits of the n-bit term t that are the constant 0"""
    if conc(t):
        return n if t == 0 else (t & -t).bit_length() - 1
    k = t.decl().kind()
    if k == Z.Z3_OP_CONCAT:
        r = 0
        for c in reversed(t.children()):
            if not Z.is_bv_value(c):
                return r + tz(c, c.size())
            v = c.as_long()
            if v:
                return r + (v & -v).bit_length() - 1
            r += c.size()
        return r
    if k in (Z.Z3_OP_ZERO_EXT, Z.Z3_OP_SIGN_EXT):
        return min(tz(t.arg(0), t.arg(0).size()), t.arg(0).size() - 1)
    return 0


def bvneg(t, n):
    """-t; trailing zeros and double negations stay visible"""
    if conc(t):
        return -t & mask(n)
    k = tz(t, n)
    if k:
        return cat(bvneg(ext(t, n, n - 1, k), n - k), n - k, 0, k)
    if Z.is_app_of(t, Z.Z3_OP_BNEG):
        return t.arg(0)
    return -t


def bvnot1(t, n):
    """x if t is the complement of x"""
    if not conc(t):
        if Z.is_app_of(t, Z.Z3_OP_BNOT):
            return t.arg(0)
        if Z.is_app_of(t, Z.Z3_OP_CONCAT):
            pos, r, rn = n, 0, 0
            for c in t.children():
                s = c.size()
                x = (c.as_long() ^ mask(s)) if Z.is_bv_value(c) else c.arg(0) if Z.is_app_of(c, Z.Z3_OP_BNOT) else None
                if x is None:
                    return None
                r, rn = cat(r, rn, x, s), rn + s
            return r
    return None


def base_of(t):
    """(term, hi, lo): t as a slice of a term"""
    if Z.is_app_of(t, Z.Z3_OP_EXTRACT):
        h, l = t.params()
        return t.arg(0), h, l
    return t, t.size() - 1, 0


def zx(a, n, m):
    if m == n or conc(a):
        return a
    return Z.ZeroExt(m - n, a)


def sx(a, n, m):
    if m == n:
        return a
    if n == 0:
        return 0
    if conc(a):
        return (a | (mask(m) ^ mask(n))) if a >> (n - 1) & 1 else a
    if Z.is_app_of(a, Z.Z3_OP_SIGN_EXT):
        return Z.SignExt(m - a.arg(0).size(), a.arg(0))
    if Z.is_app_of(a, Z.Z3_OP_ZERO_EXT):
        return Z.ZeroExt(m - a.arg(0).size(), a.arg(0))
    return Z.SignExt(m - n, a)


def same(a, b):
    if conc(a) or conc(b):
        return conc(a) and conc(b) and a == b
    return a.eq(b)


# ------------------------------------------------------------------ booleans
def band(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        out.append(c)
    return True if not out else out[0] if len(out) == 1 else Z.And(*out)


def bor(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        out.append(c)
    return False if not out else out[0] if len(out) == 1 else Z.Or(*out)


def bnot(c):
    if isinstance(c, bool):
        return not c
    return c.arg(0) if Z.is_not(c) else Z.Not(c)


def biff(a, b):
    if isinstance(a, bool):
        return b if a else bnot(b)
    if isinstance(b, bool):
        return a if b else bnot(a)
    return a == b


def bite(c, a, b):
    """boolean if-then-else"""
    if isinstance(c, bool):
        return a if c else b
    return bor(band(c, a), band(bnot(c), b))


def bvite(c, a, b, n):
    if not isinstance(c, bool) and n > 1 and not (conc(a) and conc(b)) and not same(a, b):
        k = min(tz(a, n), tz(b, n), n - 1)
        if k:
            return cat(bvite(c, ext(a, n, n - 1, k), ext(b, n, n - 1, k), n - k), n - k, 0, k)
    if isinstance(c, bool):
        return a if c else b
    if same(a, b):
        return a
    return Z.If(c, bvv(a, n), bvv(b, n))


def bveq(a, b, n):
    if n == 0:
        return True
    if conc(a) and conc(b):
        return a == b
    if same(a, b):
        return True
    return bvv(a, n) == bvv(b, n)


def bit_is1(b):
    """1-bit term as a condition"""
    if conc(b):
        return bool(b)
    if Z.is_app_of(b, Z.Z3_OP_ITE) and Z.is_bv_value(b.arg(1)) and Z.is_bv_value(b.arg(2)):
        t, e = b.arg(1).as_long(), b.arg(2).as_long()
        if t == e:
            return bool(t)
        return b.arg(0) if t else bnot(b.arg(0))
    return b == Z.BitVecVal(1, 1)


def bool2bit(c):
    if isinstance(c, bool):
        return int(c)
    if Z.is_eq(c) and Z.is_bv_value(c.arg(1)) and c.arg(1).size() == 1 and c.arg(1).as_long() == 1:
        return c.arg(0)
    return Z.If(c, Z.BitVecVal(1, 1), Z.BitVecVal(0, 1))


# ------------------------------------------------------------------ exact dyadic numbers  v * 2**e
class Ex:
    """v: Python int (any size) or a z3 bit-vector read as two's complement; nothing ever overflows"""
    __slots__ = ("v", "e")

    def __init__(self, v, e=0):
        if not isinstance(v, int) and Z.is_bv_value(v):
            v = v.as_signed_long()
        elif not isinstance(v, int) and v.decl().kind() in (Z.Z3_OP_CONCAT, Z.Z3_OP_ZERO_EXT, Z.Z3_OP_SIGN_EXT):
            k = tz(v, v.size())
            if k:
                v, e = ext(v, v.size(), v.size() - 1, k), e + k
        if isinstance(v, int) and e > 0:
            v, e = v << e, 0
        while isinstance(v, int) and e < 0 and v & 1 == 0 and v:
            v, e = v >> 1, e + 1
        if isinstance(v, int) and v == 0:
            e = 0
        self.v = v
        self.e = e

    @property
    def conc(self):
        return isinstance(self.v, int)

    def frac(self):
        return Fraction(self.v) * (Fraction(2) ** self.e)

    def w(self):
        return sbits(self.v) if self.conc else self.v.size()

    def msb(self):
        """|value| <= 2**msb"""
        return self.w() - 1 + self.e

    def at(self, e):
        """term with exponent e <= self.e"""
        if self.e == e:
            return self.v
        assert e < self.e
        if self.conc:
            return self.v << (self.e - e)
        return Z.Concat(self.v, Z.BitVecVal(0, self.e - e))

    def term(self, e, w):
        v = self.at(e)
        if isinstance(v, int):
            return Z.BitVecVal(v, w)
        return sx(v, v.size(), w)

    def bits(self, n):
        """the low n bits (integer values only), as a fixed-width term"""
        assert self.e >= 0
        v = self.at(0)
        if isinstance(v, int):
            return v & mask(n)
        if n <= v.size():
            return ext(v, v.size(), n - 1, 0) if n else 0
        return sx(v, v.size(), n)

    def __repr__(self):
        return f"Ex({self.v}*2^{self.e})"

    def __bool__(self):
        raise TypeError("Ex used as a condition")

    # arithmetic
    def __neg__(self):
        if self.conc:
            return Ex(-self.v, self.e)
        return Ex(-sx(self.v, self.v.size(), self.v.size() + 1), self.e)

    def _pair(self, o, extra):
        o = ex(o)
        e = min(self.e, o.e)
        w = max(self.w() + self.e - e, o.w() + o.e - e) + extra
        return self.term(e, w), o.term(e, w), e, o

    def __add__(self, o):
        o = ex(o)
        if self.conc and o.conc:
            return exf(self.frac() + o.frac())
        if o.conc and o.v == 0:
            return self
        if self.conc and self.v == 0:
            return o
        # no common bits: a nonnegative number below the last bit of the other
        for p, q in ((self, o), (o, self)):
            if not p.conc and not q.conc and q.e < p.e:
                u, n = unsigned_part(q.v)
                if u is not None and n + q.e <= p.e:
                    g = p.e - q.e - n
                    t = cat(cat(p.v, p.v.size(), 0, g), p.v.size() + g, u, n)
                    return Ex(t, q.e)
        a, b, e, o = self._pair(o, 1)
        return Ex(a + b, e)

    __radd__ = __add__

    def __sub__(self, o):
        o = ex(o)
        if self.conc and o.conc:
            return exf(self.frac() - o.frac())
        if o.conc and o.v == 0:
            return self
        if not self.conc and not o.conc:
            # x - floor(x): the low bits
            if self.e == o.e and self.v.eq(o.v):
                return Ex(0)
            (t, h, l), (t2, h2, l2) = base_of(self.v), base_of(o.v)
            if t.eq(t2) and h == h2 and self.e - l == o.e - l2 and l2 > l:
                k = l2 - l
                return Ex(zx(ext(t, t.size(), l2 - 1, l), k, k + 1), self.e)
        a, b, e, o = self._pair(o, 1)
        return Ex(a - b, e)

    def __rsub__(self, o):
        return ex(o) - self

    def __mul__(self, o):
        return exmul(self, ex(o))

    __rmul__ = __mul__

    def _cmp(self, o, f, g):
        o = ex(o)
        if self.conc and o.conc:
            return f(self.frac(), o.frac())
        a, b, e, o = self._pair(o, 0)
        return g(a, b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, lambda a, b: True if a.eq(b) else a == b)

    def __ne__(self, o):
        return bnot(self == o)

    __hash__ = None

    def floor(self):
        if self.conc:
            f = self.frac()
            return Ex(f.numerator // f.denominator)
        if self.e >= 0:
            return self
        w = self.v.size()
        k = min(-self.e, w - 1)
        return Ex(ext(self.v, w, w - 1, k))

    def is_int(self):
        if self.conc:
            return self.e >= 0
        if self.e >= 0:
            return True
        w = self.v.size()
        k = min(-self.e, w)
        lo = bveq(ext(self.v, w, k - 1, 0), 0, k)
        return lo if -self.e <= w else bveq(self.v, 0, w)

    def mod2(self, k):
        """mod 2**k"""
        if self.conc:
            return exf(self.frac() % (Fraction(2) ** k))
        n = k - self.e
        if n <= 0:
            return Ex(0)
        w = self.v.size()
        t = ext(self.v, w, n - 1, 0) if n <= w else sx(self.v, w, n)
        return Ex(zx(t, n, n + 1) if not conc(t) else t, self.e)

    def shl(self, k):
        return exf(self.frac() * Fraction(2) ** k) if self.conc else Ex(self.v, self.e + k)


def unsigned_part(t):
    """(bits, n) if the signed term t is visibly nonnegative"""
    k = t.decl().kind()
    if k == Z.Z3_OP_ZERO_EXT:
        return t.arg(0), t.arg(0).size()
    if k == Z.Z3_OP_CONCAT and Z.is_bv_value(t.arg(0)):
        c = t.arg(0)
        if c.as_long() == 0:
            n = t.size() - c.size()
            return ext(t, t.size(), n - 1, 0), n
    return None, 0


def sbits(v):
    return (v.bit_length() if v >= 0 else (~v).bit_length()) + 1


def exf(f):
    f = Fraction(f)
    d = f.denominator.bit_length() - 1
    assert f.denominator == 1 << d, f
    return Ex(f.numerator, -d)


def ex(x):
    if isinstance(x, Ex):
        return x
    if isinstance(x, bool):
        raise TypeError("bool")
    if isinstance(x, int):
        return Ex(x)
    if isinstance(x, Fraction):
        return exf(x)
    raise TypeError(type(x))


def exu(t, n):
    """unsigned value of an n-bit term"""
    if conc(t):
        return Ex(t)
    return Ex(zx(t, n, n + 1))


def exs(t, n):
    """two's complement value of an n-bit term"""
    if n == 0:
        return Ex(0)
    if conc(t):
        return Ex(t - (1 << n) if t >> (n - 1) & 1 else t)
    return Ex(t)


def exite(c, a, b):
    if isinstance(c, bool):
        return ex(a) if c else ex(b)
    a, b = ex(a), ex(b)
    if a.conc and b.conc and a.frac() == b.frac():
        return a
    x, y, e, _ = a._pair(b, 0)
    if x.eq(y):
        return a
    return Ex(Z.If(c, x, y), e)


# linear normal form modulo 2^n: proves equalities between sums that are associated, widened or sign extended differently
class Lin:
    LIMIT = 4000

    def __init__(self):
        self.memo = {}
        self.keep = {}
        self.steps = 0

    def add(self, a, b, k=1):
        for t, c in b.items():
            c = a.get(t, 0) + k * c
            if c:
                a[t] = c
            else:
                a.pop(t, None)
        return a

    def leaf(self, t):
        while Z.is_app_of(t, Z.Z3_OP_CONCAT) and Z.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0:
            r = t.children()[1:]
            t = r[0] if len(r) == 1 else Z.Concat(*r)
        return t

    def low(self, t, n):
        """form of the unsigned value of the low n bits, modulo 2^n"""
        if conc(t):
            return {None: t & mask(n)} if t & mask(n) else {}
        self.steps += 1
        if self.steps > self.LIMIT:
            raise OverflowError
        w = t.size()
        if w < n:
            return self.norm(self.exact(t)[0], n)
        key = (t.get_id(), n)
        if key in self.memo:
            return self.memo[key]
        k = t.decl().kind()
        if k == Z.Z3_OP_BNUM:
            r = {None: t.as_long() & mask(n)} if t.as_long() & mask(n) else {}
        elif k in (Z.Z3_OP_BADD, Z.Z3_OP_BSUB):
            r = {}
            for i, a in enumerate(t.children()):
                self.add(r, self.low(a, n), -1 if i and k == Z.Z3_OP_BSUB else 1)
        elif k == Z.Z3_OP_BNEG:
            r = self.add({}, self.low(t.arg(0), n), -1)
        elif k == Z.Z3_OP_BMUL and all(Z.is_bv_value(a) for a in t.children()[:-1]):
            c = 1
            for a in t.children()[:-1]:
                c *= a.as_long()
            r = self.add({}, self.low(t.children()[-1], n), c)
        elif k == Z.Z3_OP_BNOT:
            r = self.add({None: -1}, self.low(t.arg(0), n), -1)
        elif k == Z.Z3_OP_EXTRACT and t.params()[1] == 0:
            r = self.low(t.arg(0), n)
        elif k in (Z.Z3_OP_SIGN_EXT, Z.Z3_OP_ZERO_EXT) and t.arg(0).size() >= n:
            r = self.low(t.arg(0), n)
        elif k == Z.Z3_OP_SIGN_EXT:
            r = self.signed(t.arg(0))[0]
        elif k in (Z.Z3_OP_CONCAT, Z.Z3_OP_ZERO_EXT):
            r, sh = {}, 0
            ch = t.children()[::-1]
            for a in ch:
                if sh >= n:
                    break
                m = min(a.size(), n - sh)
                self.add(r, self.low(a, m) if sh + m >= n else self.exact(a)[0], 1 << sh)
                sh += a.size()
        else:
            if n < w:
                t = Z.simplify(Z.Extract(n - 1, 0, t))
            r = {self.key(t): 1}
        r = self.memo[key] = self.norm(r, n)
        return r

    def key(self, t):
        k = (t.size(), t.get_id())
        self.keep[k] = t
        return k

    def norm(self, r, n):
        """only the bits of a leaf that matter modulo 2^n"""
        out = {}
        for x, c in r.items():
            c %= 1 << n
            if not c:
                continue
            m = n - ((c & -c).bit_length() - 1)
            if x is not None and m < x[0]:
                x = self.key(Z.simplify(Z.Extract(m - 1, 0, self.keep[x])))
            out[x] = (out.get(x, 0) + c) % (1 << n)
        return {x: c for x, c in out.items() if c}

    def opaque(self, t):
        t = self.leaf(t)
        return {self.key(t): 1}, 0, mask(t.size())

    def exact(self, t):
        """(form, low, high) of the unsigned value"""
        w = t.size()
        k = t.decl().kind()
        if k == Z.Z3_OP_BNUM:
            return ({None: t.as_long()} if t.as_long() else {}), t.as_long(), t.as_long()
        self.steps += 1
        if self.steps > self.LIMIT:
            raise OverflowError
        key = (t.get_id(), "u")
        if key in self.memo:
            return self.memo[key]
        r = None
        if k in (Z.Z3_OP_CONCAT, Z.Z3_OP_ZERO_EXT):
            f, sh, hi = {}, 0, 0
            ch = t.children()
            top = ch[0]
            for a in ch[::-1]:
                g, l, h = self.exact(a)
                self.add(f, g, 1 << sh)
                hi += h << sh
                sh += a.size()
            r = f, 0, hi
        elif k in (Z.Z3_OP_BADD, Z.Z3_OP_BMUL):
            r = self.arith(t, self.exact)
            if r is not None and (r[1] < 0 or r[2] > mask(w)):
                r = None
        elif k == Z.Z3_OP_EXTRACT and t.params()[1] == 0:
            f, l, h = self.exact(t.arg(0))
            if h <= mask(w):
                r = f, l, h
        if r is None:
            r = self.opaque(t)
        self.memo[key] = r
        return r

    def arith(self, t, f):
        k = t.decl().kind()
        if k == Z.Z3_OP_BMUL:
            c = 1
            for a in t.children()[:-1]:
                if not Z.is_bv_value(a):
                    return None
                c *= a.as_signed_long() if f == self.signed else a.as_long()
            g, l, h = f(t.children()[-1])
            l, h = min(c * l, c * h), max(c * l, c * h)
            return self.add({}, g, c), l, h
        if k == Z.Z3_OP_BNEG:
            g, l, h = f(t.arg(0))
            return self.add({}, g, -1), -h, -l
        r, lo, hi = {}, 0, 0
        for i, a in enumerate(t.children()):
            g, l, h = f(a)
            s = -1 if i and k == Z.Z3_OP_BSUB else 1
            self.add(r, g, s)
            lo, hi = (lo + l, hi + h) if s == 1 else (lo - h, hi - l)
        return r, lo, hi

    def signed(self, t):
        w = t.size()
        k = t.decl().kind()
        half = 1 << (w - 1)
        if k == Z.Z3_OP_BNUM:
            v = t.as_signed_long()
            return ({None: v} if v else {}), v, v
        self.steps += 1
        if self.steps > self.LIMIT:
            raise OverflowError
        r = None
        if k == Z.Z3_OP_SIGN_EXT:
            return self.signed(t.arg(0))
        if k in (Z.Z3_OP_BADD, Z.Z3_OP_BSUB, Z.Z3_OP_BNEG, Z.Z3_OP_BMUL):
            r = self.arith(t, self.signed)
        else:
            f, l, h = self.exact(t)
            if h < half:
                r = f, l, h
        if r is not None and -half <= r[1] and r[2] < half:
            return r
        f, l, h = self.opaque(t)
        b = Z.simplify(Z.Extract(w - 1, w - 1, t))
        g, _, _ = self.exact(b)
        return self.add(dict(f), g, -(1 << w)), -half, half - 1


def lineq(a, b, n):
    """the low n bits are equal by linear arithmetic (False: not known)"""
    try:
        x = Lin()
        return x.low(a, n) == x.low(b, n)
    except (OverflowError, RecursionError):
        return False


# products of two symbolic numbers become shared variables whose definition is added only when needed
class Prods:
    tab = {}
    defs = {}
    reach = {}          # term id -> (term, ids of the shared variables in it)
    hard = set()        # products

    @staticmethod
    def reset():
        Prods.reach.clear()
        Prods.hard.clear()
        Prods.tab.clear()
        Prods.defs.clear()


def strip(t):
    """(base term, signed?)"""
    while True:
        k = t.decl().kind()
        if k == Z.Z3_OP_SIGN_EXT:
            t = t.arg(0)
            continue
        if k == Z.Z3_OP_ZERO_EXT:
            b, s = strip(t.arg(0)) if False else (t.arg(0), False)
            return b, False
        if k == Z.Z3_OP_CONCAT and Z.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0:
            r = t.children()[1:]
            b = r[0] if len(r) == 1 else Z.Concat(*r)
            return b, False
        return t, True


def exmul(x, y):
    if x.conc and y.conc:
        return exf(x.frac() * y.frac())
    if y.conc:
        x, y = y, x
    if x.conc:
        if x.v == 0:
            return Ex(0)
        v = x.v
        if v == 1:
            return Ex(y.v, y.e + x.e)
        if v > 0 and v & (v - 1) == 0:
            return Ex(y.v, y.e + x.e + v.bit_length() - 1)
        if v == -1:
            return -y
        w = sbits(v) + y.w()
        return Ex(Z.BitVecVal(v, w) * y.term(y.e, w), x.e + y.e)
    for p, q in ((x, y), (y, x)):
        if Z.is_app_of(p.v, Z.Z3_OP_ITE) and Z.is_bv_value(p.v.arg(1)) and Z.is_bv_value(p.v.arg(2)):
            c, u, v = p.v.children()
            return exite(c, exmul(Ex(u.as_signed_long(), p.e), q), exmul(Ex(v.as_signed_long(), p.e), q))
    (a, sa), (b, sb) = strip(x.v), strip(y.v)
    ka, kb = (a.get_id(), sa), (b.get_id(), sb)
    if ka > kb:
        a, sa, b, sb, ka, kb = b, sb, a, sa, kb, ka
    r = Prods.tab.get((ka, kb))
    if r is None:
        wa, wb = a.size() + (not sa), b.size() + (not sb)
        w = wa + wb
        p = Z.BitVec(f"prod!{len(Prods.tab)}", w)
        A = sx(a, a.size(), w) if sa else zx(a, a.size(), w)
        B = sx(b, b.size(), w) if sb else zx(b, b.size(), w)
        # cheap facts: the corners of the box
        la, ha = (-(1 << (a.size() - 1)), (1 << (a.size() - 1)) - 1) if sa else (0, mask(a.size()))
        lb, hb = (-(1 << (b.size() - 1)), (1 << (b.size() - 1)) - 1) if sb else (0, mask(b.size()))
        cs = [u * v for u in (la, ha) for v in (lb, hb)]
        facts = [p >= Z.BitVecVal(min(cs), w), p <= Z.BitVecVal(max(cs), w)]
        r = Prods.tab[(ka, kb)] = (p, a, b)
        Prods.reach.pop(p.get_id(), None)
        Prods.defs[p.get_id()] = (p, facts, p == A * B)
        Prods.hard.add(p.get_id())
    return Ex(r[0], x.e + y.e)


def digit(t):
    """a term whose value is known to be 0..9, as a shared 8-bit variable"""
    k = ("digit", t.get_id())
    r = Prods.tab.get(k)
    if r is None:
        w = t.size()
        g = Z.BitVec(f"digit!{len(Prods.tab)}", 8)
        r = Prods.tab[k] = (g, t)
        if w > 8:
            t = Z.Extract(7, 0, t)
        Prods.reach.pop(g.get_id(), None)
        Prods.defs[g.get_id()] = (g, [Z.ULE(g, 9)], g == (t if w >= 8 else Z.ZeroExt(8 - w, t)))
    return r[0]


def reach(t):
    """ids of the shared variables in a term"""
    memo = Prods.reach
    st = [t]
    while st:
        u = st[-1]
        i = u.get_id()
        if i in memo:
            st.pop()
            continue
        ch = u.children()
        todo = [c for c in ch if c.get_id() not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        s = frozenset([i]) if i in Prods.defs else NOIDS
        for c in ch:
            q = memo[c.get_id()][1]
            if q and not q <= s:
                s = s | q
        memo[i] = (u, s)
    return memo[t.get_id()][1]


NOIDS = frozenset()


def def_ids(terms):
    out, st = set(), [i for t in terms for i in reach(t)]
    while st:
        i = st.pop()
        if i not in out:
            out.add(i)
            st.extend(reach(Prods.defs[i][2]))
    return sorted(out)


def prod_defs(terms):
    """definitions of the products that occur in the terms"""
    if not Prods.defs:
        return [], []
    ids = def_ids(terms)
    return [f for i in ids for f in Prods.defs[i][1]], [Prods.defs[i][2] for i in ids]


def round53(x):
    """nearest double (ties to even), ignoring exponent limits"""
    if x.conc:
        f = x.frac()
        if f == 0:
            return x
        n = abs(f)
        d = n.denominator.bit_length() - 1
        b = n.numerator.bit_length()
        if b <= 53:
            return x
        q = Fraction(2) ** (b - d - 53)
        k = n / q
        r = round(k)     # ties to even
        return exf((r if f > 0 else -r) * q)
    w = x.v.size()
    if w <= 54:
        return x
    # magnitude, then round at the position given by its bit length
    neg = x < 0
    m = exite(neg, -x, x)
    mv = m.v
    mw = mv.size()
    res = m
    for k in range(1, mw - 53):          # drop k bits when bit length is 53+k
        top = 53 + k - 1
        if top >= mw:
            break
        has = bveq(ext(mv, mw, mw - 1, top), 1, mw - top)
        q = ext(mv, mw, top, k)
        half = bit_is1(ext(mv, mw, k - 1, k - 1))
        rest = bnot(bveq(ext(mv, mw, k - 2, 0), 0, k - 1)) if k > 1 else False
        up = band(half, bor(rest, bit_is1(ext(mv, mw, k, k))))
        r = Ex(zx(q, 53, 54), x.e + k) + exite(up, exf(Fraction(2) ** (x.e + k)), 0)
        res = exite(has, r, res)
    return exite(neg, -res, res)


# ------------------------------------------------------------------ path exploration
class Stats:
    def __init__(self):
        for k in ("paths", "queries", "sat", "unsat", "unknown", "ctl_queries", "obligations", "discharged", "cubes"):
            setattr(self, k, 0)
        self.solver_s = 0.0

    def as_dict(self):
        return dict(self.__dict__)


class Ctx:
    def __init__(self, max_paths=4000, deadline=None, log=None, timeout=60):
        self.stats = Stats()
        self.max_paths = max_paths
        self.deadline = deadline
        self.log = log
        self.timeout = timeout
        self.nomerge = set()
        self.failed_merges = {}
        self.newpath([])

    def newpath(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.guards = []
        self.vars = {}
        self.solver = None
        self.dcache = {}

    def explore(self, f):
        work = [[]]
        while work:
            prefix = work.pop()
            self.newpath(prefix)
            self.pending = []
            try:
                f()
                self.stats.paths += 1
            except Restart:
                work.append(prefix)
                continue
            except Stop:
                self.stats.paths += 1
            except Infeasible:
                pass
            work.extend(self.pending)
            if self.stats.paths > self.max_paths:
                raise Inconclusive("more than %d paths" % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise Inconclusive("time budget")

    def _check(self, terms, timeout, about=()):
        """sat?/model of terms and the path condition (decision queries)"""
        if self.deadline:
            timeout = max(1.0, min(timeout, self.deadline - time.time()))
        t0 = time.time()
        base = self.pc + self.guards + terms
        fs, ds = prod_defs(base + list(about))
        self.stats.queries += 1
        r = None
        for extra in ([fs, fs + ds] if ds else [[]]):
            s = Z.SolverFor("QF_BV")
            s.set("timeout", int(timeout * 1000))
            s.add(*base, *extra)
            r = s.check()
            if r == Z.unsat:
                break
        self.stats.solver_s += time.time() - t0
        if r == Z.unknown:
            self.stats.unknown += 1
            return None
        if r == Z.sat:
            self.stats.sat += 1
            return s.model()
        self.stats.unsat += 1
        return False

    def feasible(self, c):
        """may c hold on this path (incremental solver for branch decisions)"""
        ids = ()
        if Prods.defs:
            ids = def_ids(self.pc + self.guards + [c])
            if Prods.hard.intersection(ids):
                m = self._check([c], 20)
                return m is not False
        t0 = time.time()
        if self.solver is None:
            self.solver = Z.Solver()
            self.solver.set("timeout", 20000)
            self.spos = 0
            self.sdefs = set()
        for i in ids:
            if i not in self.sdefs:
                self.sdefs.add(i)
                self.solver.add(Prods.defs[i][2])
        for p in self.pc[self.spos:]:
            self.solver.add(p)
        self.spos = len(self.pc)
        self.stats.queries += 1
        r = self.solver.check(*self.guards, c)
        self.stats.solver_s += time.time() - t0
        if r == Z.sat:
            self.stats.sat += 1
        elif r == Z.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r != Z.unsat

    def quick(self, c):
        """truth of c on this path when it follows from the cheap facts about products and digits"""
        fs, ds = prod_defs([c])
        if not fs:
            return None
        for v, q in ((True, bnot(c)), (False, c)):
            s = Z.SolverFor("QF_BV")
            s.set("timeout", 2000)
            s.add(q, *fs)
            self.stats.queries += 1
            if s.check() == Z.unsat:
                self.stats.unsat += 1
                return v
        return None

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.pc.append(c)

    def guard(self):
        return band(*self.guards)

    def decide(self, c):
        """truth of c on this path; forks when both are possible.  Under guards only the guarded part forks."""
        if isinstance(c, bool):
            return c
        c = Z.simplify(c)
        if Z.is_true(c):
            return True
        if Z.is_false(c):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            q = self.quick(c) if Prods.defs else None
            t = q if q is not None else self.feasible(c)
            f = not q if q is not None else self.feasible(bnot(c)) if t else True
            if t and f:
                self.pending.append(self.trace + [False])
                v = True
            elif t:
                v = "t"
            elif f:
                v = "f"
        self.trace.append(v)
        if v == "t":
            return True
        if v == "f":
            return False
        g = self.guard()
        if g is True:
            self.pc.append(c if v else bnot(c))
        elif v:
            self.pc.append(bor(bnot(g), c))
        else:
            self.pc.append(band(g, bnot(c)))
        return v

    def choose(self, n):
        """fork over n alternatives"""
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            for j in range(1, n):
                self.pending.append(self.trace + [j])
        self.trace.append(v)
        return v

    def concretize(self, x):
        """a concrete value of the integer Ex x (forks)"""
        if isinstance(x, int):
            return x
        if x.conc:
            return x.v
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                v, tk = self.prefix[i]
                self.trace.append((v, tk))
            else:
                m = self._check([], 20)
                if m is None:
                    raise Inconclusive("concretize")
                if m is False:
                    raise Infeasible()
                v = m.eval(x.at(0), model_completion=True).as_signed_long()
                if self.feasible(x != v):
                    self.pending.append(self.trace + [(v, False)])
                tk = True
                self.trace.append((v, tk))
            g = self.guard()
            c = x == v
            if tk:
                self.pc.append(c if g is True else bor(bnot(g), c))
                return v
            self.pc.append(bnot(c) if g is True else band(g, bnot(c)))

    def bv(self, name, n):
        if n == 0:
            return 0
        v = Z.BitVec(name, n)
        self.vars[name] = v
        return v

    def probe(self, terms, rng=None, tries=10):
        """a model when the full query is too hard: the inputs are confined to small random cubes"""
        rng = rng or random.Random(7)
        for i in range(tries):
            hints = []
            for n, v in self.vars.items():
                w = v.size()
                free = min(w, rng.choice((1, 3, 8)))
                lo = rng.choice((0, w - free, rng.randrange(0, w - free + 1)))
                pat = rng.choice((0, mask(w), 1 << (w - 1), mask(w - 1), rng.getrandbits(w), (1 << rng.randrange(w)) - 1))
                if lo:
                    hints.append(Z.Extract(lo - 1, 0, v) == (pat & mask(lo)))
                if lo + free < w:
                    hints.append(Z.Extract(w - 1, lo + free, v) == (pat >> (lo + free)))
            m = self._check(terms + hints, 3)
            if m not in (None, False):
                return m
            if self.deadline and time.time() > self.deadline:
                return None
        return None

    def valid(self, c):
        """(True, None) / (False, model) / (None, None)"""
        if c is True:
            return True, None
        q = [] if c is False else [bnot(c)]
        m = self._check(q, self.timeout)
        if m is None:
            m = self.probe(q)
        if m is None:
            return None, None
        if m is False:
            return True, None
        return False, m

    def modelvals(self, m):
        return {n: m.eval(v, model_completion=True).as_long() for n, v in self.vars.items()}
