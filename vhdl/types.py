"""VHDL types and values."""
from .sym import *


class Ty:
    def __init__(self, kind, name, **k):
        self.kind = kind
        self.name = name
        self.__dict__.update(k)

    def __repr__(self):
        return self.name


class St:
    """subtype: base type plus constraint"""
    __slots__ = ("ty", "rng", "elem", "fields")

    def __init__(self, ty, rng=None, elem=None):
        self.ty = ty
        self.rng = rng        # scalars: (left, right, to); arrays: (left, right, to) or None
        self.elem = elem      # arrays: element subtype

    def __repr__(self):
        return f"{self.ty}{self.rng or ''}"


INTMIN, INTMAX = -2**31, 2**31 - 1
BOOL = Ty("bool", "boolean", lits=["false", "true"])
INT = Ty("int", "integer")
REAL = Ty("real", "real")
TIME = Ty("int", "time")
CHAR = Ty("enum", "character", lits=None)
LOGIC = Ty("enum", "std_ulogic", lits=["'" + c for c in "UX01ZWLH-"])
BIT = Ty("enum", "bit", lits=["'0", "'1"])
SEV = Ty("enum", "severity_level", lits=["note", "warning", "error", "failure"])
FOK = Ty("enum", "file_open_kind", lits=["read_mode", "write_mode", "append_mode"])
FOS = Ty("enum", "file_open_status", lits=["open_ok", "status_error", "name_error", "mode_error"])
SIDE = Ty("enum", "side", lits=["right", "left"])
NAT = St(INT, (0, INTMAX, True))
POS = St(INT, (1, INTMAX, True))


def arrty(name, elem, idx=NAT):
    return Ty("array", name, elem=elem if isinstance(elem, St) else St(elem), idx=idx, rng=None)


SLV = arrty("std_ulogic_vector", LOGIC)
NSU = arrty("numeric_std.unsigned", LOGIC)
NSS = arrty("numeric_std.signed", LOGIC)
NBU = arrty("numeric_bit.unsigned", BIT)
NBS = arrty("numeric_bit.signed", BIT)
BITV = arrty("bit_vector", BIT)
STRING = arrty("string", CHAR, POS)
INTV = arrty("integer_vector", INT)
BOOLV = arrty("boolean_vector", BOOL)
REALV = arrty("real_vector", REAL)
LINE = Ty("access", "line", st=St(STRING))
TEXT = Ty("file", "text")
ANYARR = {id(LOGIC): Ty("anyarr", "any(std_logic)", elem=St(LOGIC)), id(BIT): Ty("anyarr", "any(bit)", elem=St(BIT)),
          id(CHAR): STRING}
SIGNED = {id(NSS), id(NBS)}
UNSIGNED = {id(NSU), id(NBU)}


def isnum(ty):
    return id(ty) in SIGNED or id(ty) in UNSIGNED


def islogic(ty):
    return ty is LOGIC or ty is BIT


def evw(ty):
    return 1 if islogic(ty) else 8


class EV:
    """enumeration value; v: position (int) or a term (1 bit for std_logic/bit holding '0'/'1', else 8 bits); ty None: a
    character literal whose type is still open (v: character code)"""
    __slots__ = ("ty", "v")

    def __init__(self, ty, v):
        self.ty = ty
        self.v = v

    def __repr__(self):
        return f"EV({self.ty},{self.v})"


def raw_of_bit(ty, b):
    """raw enumeration value of a bit term"""
    if conc(b):
        return b + 2 if ty is LOGIC else b
    return b


def bit_of(ty, raw):
    """bit term of a raw value, None for a metavalue"""
    if not conc(raw):
        return raw
    if ty is LOGIC:
        return raw - 2 if raw in (2, 3) else None
    return raw


class Vec:
    """one-dimensional array of an enumeration type.  bv: all bits known to be 0/1, as an n-bit term, leftmost = MSB;
    otherwise lst: raw elements from the left.  ty None: string literal (lst = character codes)"""
    __slots__ = ("ty", "left", "right", "to", "n", "_bv", "lst", "bits")

    def __init__(self, ty, left, right, to, n, bv=None, lst=None, bits=None):
        self.ty, self.left, self.right, self.to, self.n, self._bv, self.lst, self.bits = ty, left, right, to, n, bv, lst, bits

    @property
    def isb(self):
        return self._bv is not None or self.bits is not None

    @property
    def bv(self):
        if self._bv is None and self.bits is not None:
            self._bv = joinbits(self.bits)
        return self._bv

    def bitlist(self):
        """one-bit terms from the left (do not modify)"""
        if self.bits is None:
            b, n = self._bv, self.n
            self.bits = [ext(b, n, n - 1 - p, n - 1 - p) for p in range(n)]
        return self.bits

    def raw(self, p):
        """raw element at position p from the left"""
        if self.bits is not None:
            return raw_of_bit(self.ty.elem.ty, self.bits[p])
        if self._bv is not None:
            return raw_of_bit(self.ty.elem.ty, ext(self._bv, self.n, self.n - 1 - p, self.n - 1 - p))
        return self.lst[p]

    def raws(self):
        return [self.raw(p) for p in range(self.n)]

    def retag(self, ty):
        return Vec(ty, self.left, self.right, self.to, self.n, self._bv, self.lst, self.bits)

    def rebound(self, left, right, to):
        return Vec(self.ty, left, right, to, self.n, self._bv, self.lst, self.bits)

    def idx(self):
        """indices from left to right"""
        return range(self.left, self.left + self.n) if self.to else range(self.left, self.left - self.n, -1)

    def __repr__(self):
        return f"Vec({self.ty},{self.left}{'to' if self.to else 'downto'}{self.right},{self.bv if self.bv is not None else self.lst})"


def mkvec(ty, raws, left=None, right=None, to=None):
    """array value from raw elements; chooses the bit-vector form when possible"""
    n = len(raws)
    if left is None:
        left, right, to = 0, n - 1, True
        if ty is not None and ty.kind != "anyarr" and ty.idx is not None and ty.idx.rng:
            left = ty.idx.rng[0]
            right = left + n - 1
    et = ty.elem.ty if ty is not None else None
    if et is not None and islogic(et):
        if et is LOGIC and any(isinstance(r, int) and r not in (2, 3) for r in raws):
            return Vec(ty, left, right, to, n, lst=list(raws))
        bits = []
        for r in raws:
            x = bit_of(et, r)
            if x is None:
                return Vec(ty, left, right, to, n, lst=list(raws))
            bits.append(x)
        return Vec(ty, left, right, to, n, bits=bits)
    return Vec(ty, left, right, to, n, lst=list(raws))


def bvec(ty, n, bv):
    """(n-1 downto 0) vector"""
    return Vec(ty, n - 1, 0, False, n, bv=bv)


class Arr:
    """array of other elements (lst from the left)"""
    __slots__ = ("ty", "left", "right", "to", "lst", "est")

    def __init__(self, ty, left, right, to, lst, est=None):
        self.ty, self.left, self.right, self.to, self.lst, self.est = ty, left, right, to, lst, est

    @property
    def n(self):
        return len(self.lst)

    def rebound(self, left, right, to):
        return Arr(self.ty, left, right, to, self.lst, self.est)

    def idx(self):
        return range(self.left, self.left + self.n) if self.to else range(self.left, self.left - self.n, -1)


class Rec:
    __slots__ = ("ty", "f")

    def __init__(self, ty, f):
        self.ty = ty
        self.f = f

    def __repr__(self):
        return f"Rec{self.f}"


class R:
    """real"""
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = ex(x)

    def __repr__(self):
        return f"R({self.x})"


class Ref:
    """access value (designated object = a cell)"""
    __slots__ = ("cell",)

    def __init__(self, cell):
        self.cell = cell


class Null:
    pass


NULL = Null()


class Cell:
    __slots__ = ("val", "st", "cls", "ser", "name", "drv", "ev")
    serial = 0

    def __init__(self, name, st, cls, val):
        Cell.serial += 1
        self.ser = Cell.serial
        self.name, self.st, self.cls, self.val = name, st, cls, val
        self.drv = None
        self.ev = False


class VError(Exception):
    """the VHDL program fails at run time (bound check, range check, assertion failure, ...)"""


class MergeFail(Exception):
    pass


class Dead(Exception):
    """the guarded code is unreachable on this path"""


def isint(x):
    return isinstance(x, Ex) or (isinstance(x, int) and not isinstance(x, bool))


def isbool(x):
    return isinstance(x, (bool, z3.BoolRef))


def ival(x):
    """concrete int of an integer value if it is concrete"""
    if isinstance(x, Ex) and x.conc:
        return x.v if x.e == 0 else x.v << x.e
    return x


def vite(c, a, b):
    """merge of two values under condition c"""
    if a is b:
        return a
    if isbool(a) and isbool(b):
        return bite(c, a, b)
    if isint(a) and isint(b):
        return ival(exite(c, a, b))
    if isinstance(a, R) and isinstance(b, R):
        return R(exite(c, a.x, b.x))
    if isinstance(a, EV) and isinstance(b, EV):
        if a.ty is None and b.ty is not None:
            a = EV(b.ty, litpos(b.ty, a.v))
        if b.ty is None and a.ty is not None:
            b = EV(a.ty, litpos(a.ty, b.v))
        if a.ty is b.ty:
            return EV(a.ty, rawite(a.ty, c, a.v, b.v))
    if isinstance(a, Vec) and isinstance(b, Vec) and a.n == b.n and a.ty is b.ty and (a.left, a.to) == (b.left, b.to):
        if a.bv is not None and b.bv is not None:
            return Vec(a.ty, a.left, a.right, a.to, a.n, bv=bvite(c, a.bv, b.bv, a.n) if a.n else 0)
        et = a.ty.elem.ty if a.ty is not None else CHAR
        return mkvec(a.ty, [rawite(et, c, x, y) for x, y in zip(a.raws(), b.raws())], a.left, a.right, a.to)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.n == b.n and a.ty is b.ty and (a.left, a.to) == (b.left, b.to):
        return Arr(a.ty, a.left, a.right, a.to, [vite(c, x, y) for x, y in zip(a.lst, b.lst)], a.est)
    if isinstance(a, Rec) and isinstance(b, Rec) and a.ty is b.ty:
        return Rec(a.ty, {k: vite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Ref) and isinstance(b, Ref) and a.cell is b.cell:
        return a
    raise MergeFail()


def rawite(ty, c, x, y):
    if same(x, y):
        return x
    if islogic(ty):
        bx, by = bit_of(ty, x), bit_of(ty, y)
        if bx is None or by is None:
            raise MergeFail()
        return raw_of_bit(ty, bvite(c, bx, by, 1))
    return bvite(c, x, y, 8)


def litpos(ty, code):
    """position of the character literal with this code in the enumeration type"""
    if ty is CHAR:
        return code
    l = "'" + chr(code)
    if ty.kind == "enum" and l in ty.lits:
        return ty.lits.index(l)
    raise Unsupported(f"character literal {l} in type {ty}")


def haslit(ty, code):
    return ty is CHAR or ty.kind == "enum" and ("'" + chr(code)) in ty.lits
