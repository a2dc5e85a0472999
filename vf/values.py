"""Extended-real symbolic scalars.

An element of a symbolic array is one of
  * bool dtype : python ``bool`` or ``z3.BoolRef``
  * int dtype  : python ``int`` or integer ``z3.ArithRef``
  * float dtype: ``Fraction`` (finite constant), real ``z3.ArithRef`` (finite
    symbolic value) or :class:`Ext` (a value that may be NaN or +-infinity).

Arithmetic is *exact real* arithmetic extended with the IEEE rules for NaN and
infinities.  Rounding, overflow, underflow and the sign of zero are not
modelled (a division by zero yields an infinity of arbitrary sign).
"""

from __future__ import annotations

import math
from fractions import Fraction

import numpy as np
import z3

F0 = Fraction(0)
F1 = Fraction(1)


# ------------------------------------------------------------------ booleans
def is_bool(a):
    return isinstance(a, (bool, np.bool_)) or isinstance(a, z3.BoolRef)


def b_not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_eq(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else b_not(b)
    if isinstance(b, bool):
        return a if b else b_not(a)
    return a == b


def b_xor(a, b):
    return b_not(b_eq(a, b))


def b_implies(a, b):
    return b_or(b_not(a), b)


def zb(b):
    """To a z3 BoolRef."""
    return z3.BoolVal(b) if isinstance(b, (bool,)) else b


def b_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else b_not(c)
    return z3.If(c, zb(a), zb(b))


# ---------------------------------------------------------------- float elems
class Ext:
    """A float which may be special. Flags are mutually exclusive."""

    __slots__ = ("nan", "ninf", "pinf", "v")

    def __init__(self, v, nan=False, pinf=False, ninf=False):
        self.v, self.nan, self.pinf, self.ninf = v, nan, pinf, ninf

    def __repr__(self):
        return f"Ext({self.v}, nan={self.nan}, +inf={self.pinf}, -inf={self.ninf})"


NAN = Ext(F0, True, False, False)
PINF = Ext(F0, False, True, False)
NINF = Ext(F0, False, False, True)


def zr(x):
    """Finite float element -> z3 real."""
    if isinstance(x, (Fraction, int)):
        return z3.RealVal(Fraction(x))
    return x


def mk(v, nan=False, pinf=False, ninf=False):
    if nan is False and pinf is False and ninf is False:
        return v
    if nan is True:
        return NAN
    if pinf is True:
        return PINF
    if ninf is True:
        return NINF
    return Ext(v, nan, pinf, ninf)


def is_const(x):
    return isinstance(x, (bool, int, Fraction)) or (
        isinstance(x, Ext) and (x is NAN or x is PINF or x is NINF)
    )


def parts(x):
    if isinstance(x, Ext):
        return x.v, x.nan, x.pinf, x.ninf
    return x, False, False, False


def special(x):
    if isinstance(x, Ext):
        return b_or(x.nan, x.pinf, x.ninf)
    return False


def finite(x):
    return b_not(special(x))


def isnan(x):
    return x.nan if isinstance(x, Ext) else False


def from_float(f):
    f = float(f)
    if math.isnan(f):
        return NAN
    if math.isinf(f):
        return PINF if f > 0 else NINF
    return Fraction(f)


# comparisons of finite reals -> bool element
def r_cmp(op, a, b):
    if isinstance(a, (Fraction, int)) and isinstance(b, (Fraction, int)):
        return {
            "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b,
            "eq": a == b, "ne": a != b,
        }[op]
    if (not isinstance(a, (Fraction, int)) and not isinstance(b, (Fraction, int))
            and a.eq(b)):
        return op in ("le", "ge", "eq")
    a, b = zr(a), zr(b)
    if op == "lt":
        return a < b
    if op == "le":
        return a <= b
    if op == "gt":
        return a > b
    if op == "ge":
        return a >= b
    if op == "eq":
        return a == b
    return a != b


def cmp(op, a, b):
    if not isinstance(a, Ext) and not isinstance(b, Ext):
        return r_cmp(op, a, b)
    if op == "ne":
        return b_not(cmp("eq", a, b))
    if op == "gt":
        return cmp("lt", b, a)
    if op == "ge":
        return cmp("le", b, a)
    av, an, ap, am = parts(a)
    bv, bn, bp, bm = parts(b)
    ok = b_and(b_not(an), b_not(bn))
    fin = b_and(b_not(ap), b_not(am), b_not(bp), b_not(bm))
    if op == "lt":
        r = b_or(
            b_and(am, b_not(bm)),
            b_and(bp, b_not(ap)),
            b_and(fin, r_cmp("lt", av, bv)),
        )
    elif op == "le":
        r = b_or(am, bp, b_and(fin, r_cmp("le", av, bv)))
    elif op == "eq":
        r = b_or(b_and(ap, bp), b_and(am, bm), b_and(fin, r_cmp("eq", av, bv)))
    else:
        raise ValueError(op)
    return b_and(ok, r)


def r_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (Fraction, int)) and isinstance(b, (Fraction, int)):
        if a == b:
            return a
    elif not isinstance(a, (Fraction, int)) and not isinstance(b, (Fraction, int)):
        if a.eq(b):
            return a
    return z3.If(c, zr(a), zr(b))


def f_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if not isinstance(a, Ext) and not isinstance(b, Ext):
        return r_ite(c, a, b)
    av, an, ap, am = parts(a)
    bv, bn, bp, bm = parts(b)
    # a fully special constant has an irrelevant payload
    if a is NAN or a is PINF or a is NINF:
        v = bv
    elif b is NAN or b is PINF or b is NINF:
        v = av
    else:
        v = r_ite(c, av, bv)
    return mk(v, b_ite(c, an, bn), b_ite(c, ap, bp), b_ite(c, am, bm))


def neg(a):
    if isinstance(a, Ext):
        return mk(neg(a.v), a.nan, a.ninf, a.pinf)
    return -a


def r_add(a, b):
    if isinstance(a, (Fraction, int)) and a == 0:
        return b
    if isinstance(b, (Fraction, int)) and b == 0:
        return a
    if isinstance(a, (Fraction, int)) and isinstance(b, (Fraction, int)):
        return a + b
    return zr(a) + zr(b)


def add(a, b):
    if not isinstance(a, Ext) and not isinstance(b, Ext):
        return r_add(a, b)
    av, an, ap, am = parts(a)
    bv, bn, bp, bm = parts(b)
    nan = b_or(an, bn, b_and(ap, bm), b_and(am, bp))
    ok = b_not(nan)
    return mk(r_add(av, bv), nan, b_and(ok, b_or(ap, bp)), b_and(ok, b_or(am, bm)))


def sub(a, b):
    if (not isinstance(a, Ext) and not isinstance(b, Ext)):
        if isinstance(a, (Fraction, int)) and isinstance(b, (Fraction, int)):
            return a - b
        if isinstance(b, (Fraction, int)) and b == 0:
            return a
        if isinstance(a, (Fraction, int)) and a == 0:
            return -b
        if not isinstance(a, (Fraction, int)) and not isinstance(b, (Fraction, int)) and a.eq(b):
            return F0
        return zr(a) - zr(b)
    return add(a, neg(b))


def r_mul(a, b):
    ca, cb = isinstance(a, (Fraction, int)), isinstance(b, (Fraction, int))
    if ca and cb:
        return a * b
    if ca:
        if a == 0:
            return F0
        if a == 1:
            return b
        if a == -1:
            return -b
        return zr(a) * b
    if cb:
        return r_mul(b, a)
    return a * b


def r_is0(a):
    return r_cmp("eq", a, F0)


def mul(a, b):
    if not isinstance(a, Ext) and not isinstance(b, Ext):
        return r_mul(a, b)
    av, an, ap, am = parts(a)
    bv, bn, bp, bm = parts(b)
    ai, bi = b_or(ap, am), b_or(bp, bm)
    azero = b_and(b_not(ai), b_not(an), r_is0(av))
    bzero = b_and(b_not(bi), b_not(bn), r_is0(bv))
    nan = b_or(an, bn, b_and(ai, bzero), b_and(bi, azero))
    inf = b_and(b_not(nan), b_or(ai, bi))
    apos = b_or(ap, b_and(b_not(ai), r_cmp("gt", av, F0)))
    bpos = b_or(bp, b_and(b_not(bi), r_cmp("gt", bv, F0)))
    same = b_eq(apos, bpos)
    return mk(r_mul(av, bv), nan, b_and(inf, same), b_and(inf, b_not(same)))


def maximum(a, b):
    if not isinstance(a, Ext) and not isinstance(b, Ext):
        if isinstance(a, (Fraction, int)) and isinstance(b, (Fraction, int)):
            return max(a, b)
        return r_ite(r_cmp("ge", a, b), a, b)
    nan = b_or(isnan(a), isnan(b))
    r = f_ite(cmp("ge", a, b), a, b)
    return f_ite(nan, NAN, r)


def minimum(a, b):
    if not isinstance(a, Ext) and not isinstance(b, Ext):
        if isinstance(a, (Fraction, int)) and isinstance(b, (Fraction, int)):
            return min(a, b)
        return r_ite(r_cmp("le", a, b), a, b)
    nan = b_or(isnan(a), isnan(b))
    r = f_ite(cmp("le", a, b), a, b)
    return f_ite(nan, NAN, r)


def absv(a):
    if isinstance(a, Ext):
        return mk(absv(a.v), a.nan, b_or(a.pinf, a.ninf), False)
    if isinstance(a, (Fraction, int)):
        return abs(a)
    return z3.If(a >= 0, a, -a)


def sign(a):
    r = f_ite(cmp("gt", a, F0), F1, f_ite(cmp("lt", a, F0), -F1, F0))
    if isinstance(a, Ext):
        return f_ite(a.nan, NAN, r)
    return r


def feq_strict(a, b):
    """Same float value, NaN equal to NaN (for specifications)."""
    if not isinstance(a, Ext) and not isinstance(b, Ext):
        return r_cmp("eq", a, b)
    return b_or(b_and(isnan(a), isnan(b)), cmp("eq", a, b))
