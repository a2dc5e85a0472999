"""Derivatives and values of the encoder's own terms.

The derivative is taken symbolically, term by term, independently of JAX's
automatic differentiation: it is the oracle for reported gradients.
"""

from __future__ import annotations

import math
from fractions import Fraction

import z3

from . import ctx as C
from . import values as V
from .ctx import Unsupported, ctx

CMP = (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ)


def const(e):
    return isinstance(e, (int, Fraction)) or z3.is_rational_value(e)


class Diff:
    """d/dx of finite elements. `kinks` collects the differences a - b of the
    comparisons a <= b deciding between branches that depend on x."""

    def __init__(self, x, kinks=None):
        self.x = x
        self.memo = {}
        self.kinks = kinks
        self.keep = []

    def __call__(self, e):
        if isinstance(e, V.Ext):
            raise Unsupported("derivative of a possibly special value")
        if const(e):
            return V.F0
        i = e.get_id()
        if i not in self.memo:
            self.keep.append(e)
            self.memo[i] = self.of(e)
        return self.memo[i]

    def of(self, e):
        k = e.decl().kind()
        ch = e.children()
        if e.eq(self.x):
            return V.F1
        if not ch:
            o = ctx().origin.get(e.decl().name())
            if o is None:
                return V.F0
            return self.origin(e, o)
        if k == z3.Z3_OP_ADD:
            r = V.F0
            for c in ch:
                r = V.add(r, self(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self(ch[0])
            for c in ch[1:]:
                r = V.sub(r, self(c))
            return r
        if k == z3.Z3_OP_UMINUS:
            return V.neg(self(ch[0]))
        if k == z3.Z3_OP_MUL:
            r = V.F0
            for n, c in enumerate(ch):
                t = self(c)
                if isinstance(t, Fraction) and t == 0:
                    continue
                for m, c2 in enumerate(ch):
                    if m != n:
                        t = V.mul(t, frac(c2))
                r = V.add(r, t)
            return r
        if k == z3.Z3_OP_ITE:
            a, b = self(ch[1]), self(ch[2])
            if self.kinks is not None and not (const(a) and const(b) and a == b):
                self.conditions(ch[0])
            return V.f_ite(ch[0], a, b)
        if k == z3.Z3_OP_DIV and const(ch[1]):
            return V.mul(self(ch[0]), 1 / frac(ch[1]))
        raise Unsupported(f"derivative of {e.decl()}")

    def conditions(self, c):
        k = c.decl().kind()
        if k in CMP and z3.is_arith(c.arg(0)):
            self.kinks.append(V.sub(frac(c.arg(0)), frac(c.arg(1))))
        elif not c.children() and c.decl().name() in ctx().origin:
            self.conditions(ctx().origin[c.decl().name()][1])
        else:
            for x in c.children():
                self.conditions(x)

    def origin(self, e, o):
        if o[0] == "let":
            return self(o[1])
        if o[0] == "sqrt":
            d = self(o[1])
            return C.div(d, V.mul(Fraction(2), e)) if not zero(d) else V.F0
        if o[0] == "quot":
            da, db = self(frac(o[1])), self(frac(o[2]))
            n = V.sub(da, V.mul(e, db))
            return C.div(n, frac(o[2])) if not zero(n) else V.F0
        d = self(o[1])
        if zero(d) or o[0] in ("floor", "rint"):
            return V.F0
        if o[0] == "exp":
            return V.mul(e, d)
        if o[0] == "logistic":
            return V.mul(V.mul(e, V.sub(V.F1, e)), d)
        if o[0] == "sin":
            return V.mul(C.unary_fn("cos", o[1]), d)
        if o[0] == "cos":
            return V.neg(V.mul(C.unary_fn("sin", o[1]), d))
        if o[0] == "tanh":
            return V.mul(V.sub(V.F1, V.mul(e, e)), d)
        raise Unsupported(f"derivative of {o[0]}")


def zero(e):
    return isinstance(e, Fraction) and e == 0


def frac(e):
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return e


class Value:
    """Value of a term under an assignment of the inputs (by name)."""

    def __init__(self, c, env):
        self.c, self.env = c, env
        self.memo = {}
        self.keep = []

    def __call__(self, e):
        if isinstance(e, (bool, int, Fraction)):
            return e
        if isinstance(e, V.Ext):
            if self(e.nan):
                return V.NAN
            if self(e.pinf):
                return V.PINF
            if self(e.ninf):
                return V.NINF
            return self(e.v)
        i = e.get_id()
        if i not in self.memo:
            self.keep.append(e)
            self.memo[i] = self.of(e)
        return self.memo[i]

    def of(self, e):
        if z3.is_rational_value(e):
            return frac(e)
        if z3.is_true(e) or z3.is_false(e):
            return z3.is_true(e)
        if z3.is_int_value(e):
            return e.as_long()
        k, ch = e.decl().kind(), e.children()
        if not ch:
            n = e.decl().name()
            if n in self.c.origin:
                return self.origin(self.c.origin[n])
            v = self.env.get(n, False if z3.is_bool(e) else 0)
            return bool(v) if z3.is_bool(e) else Fraction(v)
        if k == z3.Z3_OP_ITE:
            return self(ch[1]) if self(ch[0]) else self(ch[2])
        if k == z3.Z3_OP_AND:
            return all(self(c) for c in ch)
        if k == z3.Z3_OP_OR:
            return any(self(c) for c in ch)
        a = [self(c) for c in ch]
        if k == z3.Z3_OP_NOT:
            return not a[0]
        if k == z3.Z3_OP_IMPLIES:
            return not a[0] or a[1]
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_SUB:
            return a[0] - sum(a[1:])
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_MUL:
            return math.prod(a)
        if k == z3.Z3_OP_EQ or k == z3.Z3_OP_IFF:
            return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT:
            return a[0] != a[1]
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1]
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1]
        if k == z3.Z3_OP_LT:
            return a[0] < a[1]
        if k == z3.Z3_OP_GT:
            return a[0] > a[1]
        if k == z3.Z3_OP_TO_REAL:
            return Fraction(a[0])
        if k == z3.Z3_OP_DIV:
            return a[0] / a[1] if a[1] != 0 else Fraction(0)
        raise Unsupported(f"value of {e.decl()}")

    def origin(self, o):
        a = [self(frac(x)) for x in o[1:]]
        if o[0] == "let":
            return a[0]
        if o[0] == "sqrt":
            return Fraction(math.isqrt(int(a[0] * 2 ** 120)), 2 ** 60) if a[0] >= 0 else Fraction(0)
        if o[0] == "quot":
            return a[0] / a[1] if a[1] != 0 else Fraction(0)
        if o[0] in ("floor", "rint"):
            return Fraction(math.floor(a[0]) if o[0] == "floor" else round(a[0]))
        x = float(a[0])
        if o[0] == "logistic":
            return Fraction(1 / (1 + math.exp(-x)) if x > -700 else 0.0)
        if o[0] == "exp":
            return Fraction(math.exp(min(x, 700)))
        return Fraction(getattr(math, o[0])(x))


class ValueCtx(C.Ctx):
    """A context in which every fork is decided by given input values."""

    def __init__(self, env):
        super().__init__(500)
        self.env = env

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        return Value(self, self.env)(cond)


def oracle(h, build):
    """build(handle) -> [(list of terms, differences that must not vanish)];
    gives [(list of values, away from the kinks?)]. In a concrete run the
    terms are built anew and evaluated at the inputs."""
    from .h import H
    if h.sym:
        return [(t, V.b_and(*[V.r_cmp("ne", x, V.F0) for x in nz])) for t, nz in build(h)]
    prev = C.ctx()
    c = ValueCtx(h.vals)
    C.set_ctx(c)
    try:
        v = Value(c, h.vals)
        return [([v(x) for x in t], all(abs(v(x)) >= Fraction(1, 500) for x in nz)) for t, nz in build(H("sym", h.tier))]
    finally:
        C.set_ctx(prev)
