"""Symbolic values: machine integers are exact bit-vectors, pointers are
(object, offset) pairs, floating-point numbers are mathematical reals."""
from fractions import Fraction
import z3
from ir import IRError

CTX = z3.main_ctx()


class Undef:
    __slots__ = ()

    def __repr__(s):
        return 'UNDEF'

    def __deepcopy__(s, m):
        return s


UNDEF = Undef()


class Ptr:
    """obj: object id (int), ('fn', name) or None (integer address)"""
    __slots__ = ('obj', 'off')

    def __init__(s, obj, off):
        s.obj = obj
        s.off = off

    def __repr__(s):
        return 'Ptr(%s,%s)' % (s.obj, s.off)


NULL = Ptr(None, 0)


class Part:
    """byte k of a non-integer value of n bytes"""
    __slots__ = ('v', 'k', 'n')

    def __init__(s, v, k, n):
        s.v = v
        s.k = k
        s.n = n


class Pieces:
    """an integer register holding the bytes of several memory cells:
    list of (nbytes, value) from low to high address"""
    __slots__ = ('ps',)

    def __init__(s, ps):
        s.ps = ps

    def __repr__(s):
        return 'Pieces(%r)' % (s.ps,)


def is_int(v):
    return type(v) is int


def mask(w):
    return (1 << w) - 1


def to_bv(v, w):
    if type(v) is int:
        return z3.BitVecVal(v, w)
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def to_bool(v):
    """i1 value -> python bool or z3 Bool"""
    if type(v) is int:
        return bool(v)
    if isinstance(v, bool):
        return v
    if z3.is_bool(v):
        return v
    if z3.is_bv(v):
        return v == 1
    raise IRError('not a boolean %r' % (v,))


def simp(e):
    if type(e) in (int, bool):
        return e
    e = z3.simplify(e)
    return unwrap(e)


def unwrap(e):
    """z3 literal -> python value"""
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return e


def to_real(v):
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if type(v) is int:
        return z3.RealVal(v)
    return v


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def b_and(*xs):
    r = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def b_or(*xs):
    r = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def b_not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def ite(c, a, b, w):
    """integers of width w (0: booleans)"""
    if c is True:
        return a
    if c is False:
        return b
    if type(a) is int and type(b) is int and a == b:
        return a
    if w == 1:
        return z3.If(c, tob(a), tob(b))
    return z3.If(c, to_bv(a, w), to_bv(b, w))


def tob(v):
    v = to_bool(v)
    return z3.BoolVal(v) if isinstance(v, bool) else v


# 64-bit offset arithmetic
def oadd(a, b):
    if type(a) is int and type(b) is int:
        return (a + b) & mask(64)
    if type(a) is int and a == 0:
        return b
    if type(b) is int and b == 0:
        return a
    return simp(to_bv(a, 64) + to_bv(b, 64))


def osub(a, b):
    if type(a) is int and type(b) is int:
        return (a - b) & mask(64)
    if type(b) is int and b == 0:
        return a
    return simp(to_bv(a, 64) - to_bv(b, 64))


def omul(a, k):
    if type(a) is int:
        return (a * k) & mask(64)
    return simp(to_bv(a, 64) * z3.BitVecVal(k, 64))


def oeq(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    return simp(to_bv(a, 64) == to_bv(b, 64))


def ole(a, b):
    """unsigned a <= b"""
    if type(a) is int and type(b) is int:
        return a <= b
    return simp(z3.ULE(to_bv(a, 64), to_bv(b, 64)))


def olt(a, b):
    if type(a) is int and type(b) is int:
        return a < b
    return simp(z3.ULT(to_bv(a, 64), to_bv(b, 64)))


def int_eq(a, b, w):
    if type(a) is int and type(b) is int:
        return a == b
    if w == 1:
        return simp(tob(a) == tob(b))
    return simp(to_bv(a, w) == to_bv(b, w))


def extract_byte(v, k, w):
    """byte k (little endian) of integer value v of width w"""
    if type(v) is int:
        return (v >> (8 * k)) & 255
    if w == 1 or z3.is_bool(v):
        v = to_bv(v, 8)
        w = 8
    if w == 8:
        return v
    hi = min(8 * k + 7, w - 1)
    r = z3.Extract(hi, 8 * k, v)
    if hi - 8 * k + 1 < 8:
        r = z3.ZeroExt(8 - (hi - 8 * k + 1), r)
    return simp(r)


def concat_bytes(bs):
    """low..high byte values (ints or BV8) -> int value of 8*len"""
    if all(type(b) is int for b in bs):
        r = 0
        for i, b in enumerate(bs):
            r |= b << (8 * i)
        return r
    if len(bs) == 1:
        return bs[0]
    return simp(z3.Concat(*[to_bv(b, 8) for b in reversed(bs)]))
