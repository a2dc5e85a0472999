"""Harness layer: one description, run symbolically and concretely."""

from __future__ import annotations

import fnmatch
import itertools
import json
import math
import os
import random
import struct
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import ctx as C
from . import solve
from . import split
from . import symjax as S
from . import values as V
from .poly import TooBig
from .poly import _add as padd
from .ctx import STATS, Inconclusive, PathAbort, Unsupported

REPO = os.environ.get("VF_REPO", "/repo")
OUT = os.environ.get("VF_OUT", "/verif")
PKG = os.path.join(REPO, "differt2d")


F_TOL = Fraction(1, 500)


class AssumeFailed(Exception):
    pass


class Broken(Exception):
    """The code under test returned something of the wrong form."""


def code_fault(e):
    """Did the exception come out of the code under test?"""
    if isinstance(e, Broken):
        return True
    if type(e).__name__ == "TypeCheckError" and "return value" in str(e):
        return True
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PKG):
            return True
        tb = tb.tb_next
    c = e.__cause__ or (e.__context__ if not e.__suppress_context__ else None)
    return code_fault(c) if c is not None and c is not e else False


def f32(x):
    """Nearest float32 as a Fraction."""
    try:
        return Fraction(float(np.float32(float(x))))
    except (OverflowError, ValueError):
        return Fraction(0)


# --------------------------------------------------------- executed functions
ENCODED = {}
SYMONLY = {"named function value", "named validity"}  # obligations without a concrete counterpart of that name


def start_monitor():
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "vf")
    except ValueError:
        return

    def on_start(code, off):
        if code.co_filename.startswith(PKG):
            ENCODED[(os.path.relpath(code.co_filename, REPO), code.co_qualname)] = code.co_firstlineno
        return mon.DISABLE

    mon.register_callback(3, mon.events.PY_START, on_start)
    mon.set_events(3, mon.events.PY_START)


class Obl:
    __slots__ = ("exact", "loose", "name", "nlem", "pre", "prefer", "raw", "by", "goal", "lem")

    def __init__(self, name, exact, loose, pre, prefer, nlem=0):
        self.name, self.exact, self.loose, self.pre, self.prefer, self.nlem = name, exact, loose, pre, prefer, nlem
        self.raw = False
        self.by = ()
        self.lem = None
        self.goal = exact


class H:
    """Handle given to harness functions."""

    def __init__(self, mode, tier="quick", vals=None, box=4):
        self.mode = mode
        self.sym = mode == "sym"
        self.tier = tier
        self.thorough = tier == "thorough"
        self.vals = vals or {}
        self.box = {}
        self.defbox = box
        self.obls = []
        self.failures = []
        self.checked = 0
        self.obs = []
        self.prefers = []
        self.narrows = []
        self.notes = []
        self.used = {}
        self.named = {}

    # ------------------------------------------------------------- inputs
    @property
    def ctx(self):
        return C.ctx()

    def real(self, name, lo=None, hi=None, box=None):
        if not self.sym:
            v = Fraction(self.vals.get(name, 0))
            self.used[name] = v
            if lo is not None and v < lo or hi is not None and v > hi:
                raise AssumeFailed(name)
            return v
        if name in self.ctx.inputs:
            return self.ctx.inputs[name]
        v = self.ctx.real(name)
        if lo is not None:
            self.ctx.assume(v >= lo)
        if hi is not None:
            self.ctx.assume(v <= hi)
        b = box if box is not None else self.defbox
        bl = -b if not isinstance(b, tuple) else b[0]
        bh = b if not isinstance(b, tuple) else b[1]
        if lo is not None:
            bl = max(bl, lo) if bh >= lo else lo
        if hi is not None:
            bh = min(bh, hi) if bl <= hi else hi
        self.box[name] = (Fraction(bl), Fraction(bh))
        return v

    def reals(self, name, *shape, **kw):
        """Nested object ndarray of reals."""
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = self.real(name + "_" + "_".join(map(str, i)), **kw)
        return a

    def bool(self, name):
        if not self.sym:
            v = bool(self.vals.get(name, False))
            self.used[name] = v
            return v
        return self.ctx.bool(name)

    def int(self, name, lo, hi):
        """A symbolic integer, concretised by path forking."""
        if not self.sym:
            v = int(self.vals.get(name, lo))
            self.used[name] = v
            return v
        v = self.ctx.int(name)
        self.ctx.assume(v >= lo, v <= hi)
        return self.ctx.choose_int(v, lo, hi)

    def pick(self, name, options):
        """Symbolic choice among concrete options (forks)."""
        return options[self.int(name, 0, len(options) - 1)]

    def fork(self, cond):
        return self.ctx.branch(cond) if self.sym else bool(cond)

    def zero(self, x, tol=F_TOL):
        """Fork on x == 0. The concrete run rejects inputs which are within
        rounding of the fork (the real code may take either side)."""
        if self.sym:
            r = self.fork(V.r_cmp("eq", x, V.F0))
            if not r:
                self.prefer(V.b_or(V.r_cmp("ge", x, Fraction(1, 8)), V.r_cmp("le", x, -Fraction(1, 8))))
            return r
        if x == 0:
            return True
        if abs(x) < tol:
            raise AssumeFailed("too close to a degenerate case")
        return False

    def arr(self, x, dtype=np.float32):
        """Elements (nested) -> array for the code under test."""
        if isinstance(x, np.ndarray) and x.dtype == object:
            a = x
        else:
            a = np.empty(np.shape(x), dtype=object)
            xs = x

            def get(xs, idx):
                for i in idx:
                    xs = xs[i]
                return xs
            for idx in np.ndindex(*a.shape):
                a[idx] = get(xs, idx)
        if self.sym:
            return S.symbolic(a, dtype)
        import jax.numpy as jnp
        out = np.empty(a.shape, dtype=dtype)
        for i in np.ndindex(*a.shape):
            e = a[i]
            if isinstance(e, V.Ext):
                e = float("nan") if e is V.NAN else float("inf") if e is V.PINF else float("-inf")
            out[i] = e if dtype != np.float32 else float(e)
        return jnp.asarray(out)

    def run(self, f, *a, **k):
        if self.sym:
            return S.run(f, *a, **k)
        return f(*a, **k)

    def out(self, x):
        if self.sym:
            return S.getarr(x)
        return S.to_obj(np.asarray(x))

    def elem(self, x):
        a = self.out(x)
        if a.size != 1:
            raise Broken(f"expected a scalar, got shape {a.shape}")
        return S.flatten(a)[0]

    # ----------------------------------------------------- logical helpers
    def assume(self, *conds):
        for c in conds:
            if self.sym:
                if c is False:
                    raise PathAbort
                self.ctx.assume(c)
            elif not c:
                raise AssumeFailed(str(c))

    def prefer(self, *conds):
        """Soft constraints, used only to pick readable counterexamples."""
        if self.sym:
            self.prefers.extend(V.zb(c) for c in conds if c is not True and c is not False)

    def observe(self, name, x):
        self.obs.append((name, self.out(x)))

    # ---------------------------------------------------------- obligations
    def _add(self, name, exact, loose=None, pre=True):
        self.checked += 1
        if self.sym:
            self.obls.append(Obl(name, exact, loose, pre, list(self.prefers), len(self.ctx.lemmas)))

    def check(self, name, cond, loose=None, pre=True):
        """cond must hold (given pre). `loose`: weaker cond that must hold when
        only the exact one is violated (tolerance)."""
        if self.sym:
            self._add(name, V.b_and(pre, V.b_not(cond)),
                      None if loose is None else V.b_and(pre, V.b_not(loose)), pre)
            self.obls[-1].goal = V.b_not(cond)
        else:
            self.checked += 1
            ok = loose if loose is not None else cond
            if pre and not ok:
                self.failures.append(name)

    def lemma(self, name, cond, use=None, by=()):
        """A fact proved once (as its own obligation) and then available to
        every later obligation of this path. `use`: the same fact in terms of
        names introduced with let()."""
        if self.sym and cond is not True:
            self._add(name, V.b_not(cond))
            self.obls[-1].by = [self.named[n] for n in by]
            u = V.zb(cond if use is None else use)
            self.named[name] = u
            self.obls[-1].lem = len(self.ctx.lemmas)
            self.ctx.lemmas.append(u)
        elif self.sym:
            # holds by construction; still usable under the short names
            self.named[name] = u = z3.BoolVal(True) if use is None else V.zb(use)
            if use is not None:
                self.ctx.lemmas.append(u)

    def let(self, x, name="let"):
        """A name for a term (opaque to the term normaliser)."""
        if not self.sym or not isinstance(x, z3.ExprRef):
            return x
        v = (z3.Bool if z3.is_bool(x) else z3.Real)(self.ctx.fresh_name(name))
        self.ctx.origin[v.decl().name()] = ("let", x)
        self.ctx.define(v, v == x)
        return v

    def implies(self, name, p, q, loose=None):
        self.check(name, q, loose, pre=p)

    def eq(self, name, a, b, tol=1e-3, pre=True):
        """Floating point equality of two elements (NaN matches NaN)."""
        cond = V.feq_strict(a, b)
        t = Fraction(tol) if self.sym else Fraction(tol) / 2
        loose = self.close(a, b, t)
        self.check(name, cond, loose, pre)

    def close(self, a, b, t):
        t = Fraction(t)
        av, an, ap, am = V.parts(a)
        bv, bn, bp, bm = V.parts(b)
        same = V.b_and(V.b_eq(an, bn), V.b_eq(ap, bp), V.b_eq(am, bm))
        d = V.absv(V.sub(av, bv))
        lim = V.mul(t, V.add(V.F1, V.absv(bv)))
        fin = V.b_not(V.b_or(an, ap, am))
        return V.b_and(same, V.b_or(V.b_not(fin), V.r_cmp("le", d, lim)))

    def eqs(self, name, a, b, tol=1e-3, pre=True):
        """Element-wise equality of two arrays / nested lists."""
        if isinstance(a, (list, tuple)):
            a = np.array(a, dtype=object)
        a = a if isinstance(a, np.ndarray) and a.dtype == object else self.out(a)
        b = b if isinstance(b, np.ndarray) and b.dtype == object else np.array(b, dtype=object)
        if a.shape != b.shape:
            self.check(f"{name}:shape {a.shape} vs {b.shape}", False, pre=pre)
            return
        if a.size == 0:
            return
        conds, loose = [], []
        t = Fraction(tol) if self.sym else Fraction(tol) / 2
        for x, y in zip(S.flatten(a), S.flatten(b)):
            if isinstance(x, bool) or isinstance(y, bool) or (
                    isinstance(x, z3.ExprRef) and z3.is_bool(x)):
                e = V.b_eq(x, y)
                conds.append(e)
                loose.append(e)
            elif isinstance(x, int) and isinstance(y, int) and not isinstance(x, Fraction):
                conds.append(x == y)
                loose.append(x == y)
            else:
                conds.append(V.feq_strict(x, y))
                loose.append(self.close(x, y, t))
        self.check(name, V.b_and(*conds), V.b_and(*loose), pre)

    def finite(self, name, x, pre=True):
        a = x if isinstance(x, np.ndarray) and x.dtype == object else self.out(x)
        self.check(name, V.b_and(*[V.finite(e) for e in S.flatten(a)]), pre=pre)

    def notnan(self, name, x, pre=True):
        a = x if isinstance(x, np.ndarray) and x.dtype == object else self.out(x)
        self.check(name, V.b_and(*[V.b_not(V.isnan(e)) for e in S.flatten(a)]), pre=pre)

    def sqrt(self, x):
        if self.sym:
            return C.sqrt(x)
        import math
        if isinstance(x, V.Ext):
            return x
        if x < 0:
            return V.NAN
        n = math.isqrt(int(x * 2 ** 120))
        return Fraction(n, 2 ** 60)

    def unit(self, v, name=None):
        """Unit vector along a non-zero vector (+ the lemma that it is one)."""
        n = self.sqrt(v[0] * v[0] + v[1] * v[1])
        u = [self.div(v[0], n), self.div(v[1], n)]
        if name:
            self.lemma(f"unit vector: {name}", u[0] * u[0] + u[1] * u[1] == 1)
            if self.sym:
                self.obls[-1].raw = True
                self.circle(u[0], u[1])
        return u

    def circle(self, a, b):
        """Let the term normaliser use b^2 == 1 - a^2 (a lemma)."""
        P = self.ctx.polys
        pa, pb = P.of(V.zr(a)), P.of(V.zr(b))
        one = [p for p in (pa, pb) if len(p) == 1 and len(next(iter(p))) == 1]
        if len(one) == 2 and all(abs(next(iter(p.values()))) == 1 for p in one):
            (ma,), (mb,) = pa, pb
            if ma != mb and ma[0] not in P.squares and mb[0] not in P.squares:
                P.square(P.atoms[mb[0]], {(): Fraction(1), (ma[0], ma[0]): Fraction(-1)})

    def trig(self, x):
        """(sin x, cos x)."""
        if self.sym:
            return C.unary_fn("sin", x), C.unary_fn("cos", x)
        import math
        return Fraction(math.sin(float(x))), Fraction(math.cos(float(x)))

    def div(self, a, b):
        """Exact quotient for specifications (b must be non-zero there)."""
        if self.sym:
            return C.div(a, b)
        return Fraction(a) / Fraction(b) if b != 0 else Fraction(0)

    def fin(self, name, x, pre=True):
        """Assert finiteness; return plain finite elements."""
        a = x if isinstance(x, np.ndarray) and x.dtype == object else self.out(x)
        self.finite(name, a, pre)
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            e = a[i]
            r[i] = e.v if isinstance(e, V.Ext) else e
        return r

    def Or(self, *a):
        return V.b_or(*a)

    def And(self, *a):
        return V.b_and(*a)

    def Not(self, a):
        return V.b_not(a)

    def Iff(self, a, b):
        return V.b_eq(a, b)

    def ite(self, c, a, b):
        return V.f_ite(c, a, b)

    def abs(self, a):
        return V.absv(a)

    def lt(self, a, b):
        return V.cmp("lt", a, b)

    def le(self, a, b):
        return V.cmp("le", a, b)

    def gt(self, a, b):
        return V.cmp("gt", a, b)

    def ge(self, a, b):
        return V.cmp("ge", a, b)

    def same(self, a, b):
        return V.feq_strict(a, b)

    def between(self, lo, x, hi):
        return V.b_and(V.cmp("le", lo, x), V.cmp("le", x, hi))

    def narrow(self, *cons):
        self.narrows.append([V.zb(c) for c in cons])


def rewrite(P, e, memo=None):
    """Put the polynomial (in)equations of a formula in normal form modulo the
    known square identities (sqrt definitions, unit vector lemmas)."""
    memo = {} if memo is None else memo
    r = memo.get(e.get_id())
    if r is None:
        r = rewrite0(P, e, memo)
        P.keep.extend((e, r))
        memo[e.get_id()] = r
    return r


def rewrite0(P, e, memo):
    if z3.is_app(e) and z3.is_bool(e) and e.num_args():
        if e.num_args() == 2 and z3.is_arith(e.arg(0)) and z3.is_real(e.arg(0)):
            k = e.decl().kind()
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
                try:
                    p = padd(P.of(e.arg(0)), P.of(e.arg(1)), -1)
                except TooBig:
                    return e
                if p and k == z3.Z3_OP_EQ:
                    try:
                        if not P.clear(p):
                            p = {}
                    except TooBig:
                        pass
                if not p:
                    return z3.BoolVal(k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE))
                if len(p) > 60:
                    return e
                t = P.term(p)
                return {z3.Z3_OP_EQ: t == 0, z3.Z3_OP_LE: t <= 0, z3.Z3_OP_GE: t >= 0,
                        z3.Z3_OP_LT: t < 0, z3.Z3_OP_GT: t > 0}[k]
            return e
        if z3.is_and(e):
            return z3.And(*[rewrite(P, x, memo) for x in e.children()])
        if z3.is_or(e):
            return z3.Or(*[rewrite(P, x, memo) for x in e.children()])
        if z3.is_not(e):
            return z3.Not(rewrite(P, e.arg(0), memo))
    return e


def linearize(P, e, memo, free):
    """Replace the non-linear monomials of a formula by fresh unknowns."""
    i = e.get_id()
    if i in memo:
        return memo[i][1]
    k = e.children()
    if not k:
        r = e
    elif z3.is_app_of(e, z3.Z3_OP_ITE) or not z3.is_arith(e) or z3.is_app_of(e, z3.Z3_OP_ADD) or z3.is_app_of(e, z3.Z3_OP_SUB) or z3.is_app_of(e, z3.Z3_OP_UMINUS):
        r = e.decl()(*[linearize(P, x, memo, free) for x in k])
    elif z3.is_real(e):
        r = z3.RealVal(0)
        for m, q in P.of(e).items():
            if len(m) == 0:
                t = z3.RealVal(1)
            elif len(m) == 1:
                t = P.atoms[m[0]]
                t = t if t.get_id() == i else linearize(P, t, memo, free)
            else:
                t = free.setdefault(m, z3.FreshReal("m"))
            r = r + z3.RealVal(q) * t
    else:
        r = e
    memo[i] = (e, r)
    return r


def guards(cons, limit=200):
    """Comparisons that the conditions of if-then-else terms are made of."""
    out, seen = {}, set()
    todo = [(x, False) for x in cons]
    while todo and len(out) < limit:
        x, cond = todo.pop()
        if (x.get_id(), cond) in seen:
            continue
        seen.add((x.get_id(), cond))
        k = x.children()
        if cond and (z3.is_lt(x) or z3.is_le(x) or z3.is_gt(x) or z3.is_ge(x)
                     or (z3.is_eq(x) and not z3.is_bool(k[0]))):
            out[x.get_id()] = x
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            todo += [(k[0], True), (k[1], cond), (k[2], cond)]
        else:
            todo += [(y, cond) for y in k]
    return list(out.values())


# --------------------------------------------------------------------- runner
class Violation(Exception):
    pass


class Runner:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.harness = {}
        self.violations = []
        self.known_hits = []
        self.undecided = []
        self.errors = []
        self.soft = []
        self.deferred = []
        self.discharged = {"exact": 0, "boxed": 0, "tolerance": 0, "narrowed": 0, "trivial": 0}
        self.obligations = 0
        self.obl_names = set()
        self.validated = 0
        self.validation_mismatch = []
        self.blind = set()
        self.samples = []
        self.bounds = []
        self.assumptions = []
        self.reach = {}
        self.rng = random.Random(self.seed)
        self.quick_s = 1.5
        self.split_s = 5 if self.tier == "quick" else 20
        self.hard_s = 20 if self.tier == "quick" else 120
        self.budget_s = 420 if self.tier == "quick" else 3000
        self.known = load_known(pid)

    # ------------------------------------------------------------ solving
    def decide(self, o, c, h, fast=False):
        """-> ('ok'|'viol'|'undecided', info)"""
        exact = o.exact
        if exact is False:
            self.discharged["trivial"] += 1
            return "ok", None
        sx = z3.simplify(exact) if not isinstance(exact, bool) else z3.BoolVal(exact)
        if z3.is_false(sx):
            self.discharged["trivial"] += 1
            return "ok", None
        if not o.raw and (c.polys.squares or c.polys.quots):
            exact = rewrite(c.polys, sx)
            if z3.is_false(z3.simplify(exact)):
                self.discharged["exact"] += 1
                STATS.queries += 1
                STATS.unsat += 1
                return "ok", None
        if o.by:
            # the named lemmas only
            if solve.check([V.zb(exact), *o.by], self.quick_s, None, kind="side")[0] == "unsat":
                self.discharged["exact"] += 1
                STATS.queries += 1
                STATS.unsat += 1
                return "ok", None
        if o.raw:
            # definitions only
            if solve.check([V.zb(exact)] + c.relevant([V.zb(exact)]), self.quick_s, None, kind="side")[0] == "unsat":
                self.discharged["exact"] += 1
                STATS.queries += 1
                STATS.unsat += 1
                return "ok", None
        base = [V.zb(exact)] + c.path + c.assumptions + c.lemmas[:o.nlem]
        if o.nlem:
            # abstraction: lemmas only, intermediate unknowns left free
            for b in (base, base + self.boxcons(c, h)):
                if solve.check(b, self.quick_s, None, kind="side")[0] == "unsat":
                    if b is not base:
                        hit = self.outside(o, c, h, base + c.relevant(base))
                        if hit is not None:
                            return hit
                    self.discharged["exact" if b is base else "boxed"] += 1
                    STATS.queries += 1
                    STATS.unsat += 1
                    return "ok", None
        cons = base + c.relevant(base)
        r, vals = solve.check(cons, self.quick_s, c.inputs)
        if r == "unsat":
            self.discharged["exact"] += 1
            return "ok", None
        if r == "unknown" and self.linear(c, cons):
            self.discharged["exact"] += 1
            return "ok", None
        if r == "unknown" and split.refute(c, o.goal, o.pre, self.split_s if fast else 4 * self.split_s):
            self.discharged["exact"] += 1
            return "ok", None
        if r == "unknown" and not h.box and not fast:
            r, vals = solve.portfolio(cons, self.hard_s, c.inputs)
            if r == "unsat":
                self.discharged["exact"] += 1
                return "ok", None
        boxc = self.boxcons(c, h)
        if r == "unknown":
            hit = self.hunt(o, c, h, cons)
            if hit is not None:
                return hit
        if boxc:
            r, vals = solve.check(cons + boxc, self.quick_s, c.inputs)
            if r == "unknown" and not fast:
                r, vals = solve.portfolio(cons + boxc, self.hard_s, c.inputs)
            if r == "unsat":
                hit = self.outside(o, c, h, cons)
                if hit is not None:
                    return hit
                self.discharged["boxed"] += 1
                return "ok", None
        if fast and r == "unknown":
            return "defer", None
        if o.loose is not None and r in ("sat", "unknown"):
            base = [V.zb(o.loose)] + c.path + c.assumptions + c.lemmas[:o.nlem]
            consl = base + c.relevant(base) + boxc
            r, vals = solve.check(consl, self.quick_s, c.inputs)
            if r == "unknown" and fast:
                return "defer", None
            if r == "unknown":
                r, vals = solve.portfolio(consl, self.hard_s, c.inputs)
            if r == "unsat":
                self.discharged["tolerance"] += 1
                return "ok", None
            target = consl
        else:
            target = cons + boxc
        if r == "sat":
            return self.replay(o, c, h, target, vals)
        # unknown: narrowed instances
        return self.narrowed(o, c, h, target)

    def boxcons(self, c, h, scale=1):
        out = []
        for n, (lo, hi) in h.box.items():
            v = c.inputs[n]
            out += [v >= z3.RealVal(lo), v <= z3.RealVal(hi)]
        return out

    def hunt(self, o, c, h, cons, n=6):
        """Look for a counterexample at a few points before the heavy solvers."""
        names = [n for n in c.inputs if z3.is_real(c.inputs[n]) and n in h.box]
        if not names:
            return None
        if o.loose is not None:
            base = [V.zb(o.loose)] + c.path + c.assumptions
            cons = base + c.relevant(base)
        s = z3.Solver()
        s.set("timeout", 400)
        s.add(*cons)
        for k in range(n):
            s.push()
            fixed = {}
            for nm in names:
                lo, hi = h.box[nm]
                den = 2 if k % 2 else 1
                v = Fraction(self.rng.randint(int(lo * den), int(hi * den)), den)
                s.add(c.inputs[nm] == z3.RealVal(v))
                fixed[nm] = v
            t = time.time()
            r = str(s.check())
            STATS.solver_s += time.time() - t
            STATS.side_queries += 1
            if r == "sat":
                nv = solve.model_values(s.model(), c.inputs)
                ok, info = self.concrete(nv, None if o.lem is not None else o.name)
                C.set_ctx(c)
                if ok:
                    return "viol", dict(name=o.name, values=nv, info=info)
            elif r == "unknown" and len(fixed) == len(c.inputs):
                # the solver cannot even evaluate this point: ask the real code
                ok, info = self.concrete(fixed, None if o.lem is not None else o.name)
                C.set_ctx(c)
                if ok:
                    return "viol", dict(name=o.name, values=fixed, info=info)
            s.pop()
        return None

    def linear(self, c, cons):
        """Unsatisfiable already with every non-linear monomial left free?"""
        try:
            memo, free = {}, {}
            lin = [linearize(c.polys, x, memo, free) for x in cons]
        except TooBig:
            return False
        return solve.check(lin, self.quick_s, None, kind="side")[0] == "unsat"

    def at(self, o, c, s, fixed):
        """Is the obligation violated at this point?"""
        s.push()
        for nm, v in fixed.items():
            s.add(c.inputs[nm] == (z3.RealVal(v) if isinstance(v, Fraction) else v))
        t = time.time()
        r = str(s.check())
        STATS.solver_s += time.time() - t
        STATS.side_queries += 1
        nv = solve.model_values(s.model(), c.inputs) if r == "sat" else fixed
        s.pop()
        if r == "sat" or (r == "unknown" and len(fixed) == len(c.inputs)):
            ok, info = self.concrete(nv, None if o.lem is not None else o.name)
            C.set_ctx(c)
            if ok:
                return "viol", dict(name=o.name, values=nv, info=info)
        return None

    def outside(self, o, c, h, cons, seconds=15):
        """The obligation holds in the box and is undecided outside: look there
        for a counterexample, steering the solver by every branch condition of
        the encoded code that has only one outcome within the box."""
        names = [n for n in c.inputs if z3.is_real(c.inputs[n]) and n in h.box]
        end = time.time() + seconds
        pre = c.path + c.assumptions
        pre = pre + c.relevant(pre)
        boxc = self.boxcons(c, h)
        s = z3.Solver()
        s.set("timeout", 400)
        s.add(*cons)
        atoms = guards(cons)
        flips = c.__dict__.setdefault("flips", {})
        for a in atoms:
            if time.time() > end:
                break
            if a.get_id() not in flips:
                rel = pre + c.relevant([a])
                st = [solve.check(rel + [x] + boxc, .3, None, kind="side")[0] for x in (a, z3.Not(a))]
                found = (a, [])
                if "unsat" in st:
                    p = [a, z3.Not(a)][st.index("unsat")]
                    r, vals = solve.check(rel + [p], 1, c.inputs, kind="side")
                    if r == "sat":
                        found = (a, [p, self.nice(rel + [p], vals, c, h)])
                flips[a.get_id()] = found
            if flips[a.get_id()][1]:
                p, vals = flips[a.get_id()][1]
                r, got = solve.check(cons + [p], 1, c.inputs, kind="side")
                hit = None
                if r == "sat":
                    st, hit = self.replay(o, c, h, cons + [p], got)
                    if st == "viol":
                        return st, hit
                hit = self.at(o, c, s, vals)
                if hit is not None:
                    return hit
        for k in range(4):
            scale = (8, 1000)[k % 2]
            fixed = {}
            for nm in names:
                lo, hi = h.box[nm]
                fixed[nm] = Fraction(self.rng.randint(int(lo * scale), int(hi * scale)))
            hit = self.at(o, c, s, fixed)
            if hit is not None:
                return hit
        return None

    def narrowed(self, o, c, h, target):
        """Last resort: restrict part of the inputs to single values."""
        names = [n for n in c.inputs if z3.is_real(c.inputs[n]) and n in h.box]
        base = c.path + c.assumptions
        pre = base + c.relevant(base) + self.boxcons(c, h)
        limit = min(self.budget_s, time.time() - self.t0 + 60)
        ok = total = 0
        for inst in h.narrows + [None] * 8:
            if time.time() - self.t0 > limit:
                break
            if inst is None:
                frac = 0.5 if total < 4 else 0.8
                inst = []
                r, vals = solve.check(pre, 2, c.inputs, kind="side")
                if r != "sat":
                    break
                for n in self.rng.sample(names, min(len(names), max(1, round(frac * len(names))))):
                    lo, hi = h.box[n]
                    cand = Fraction(self.rng.randint(int(lo * 8), int(hi * 8)), 8)
                    e = c.inputs[n] == z3.RealVal(cand)
                    if solve.check(pre + inst + [e], 1, None, kind="side")[0] == "sat":
                        inst.append(e)
            total += 1
            r, vals = solve.check(target + inst, 2, c.inputs)
            if r == "unknown":
                r, vals = solve.portfolio(target + inst, 6, c.inputs)
            if r == "unsat":
                ok += 1
            elif r == "sat":
                return self.replay(o, c, h, target + inst, vals)
        if ok:
            self.discharged["narrowed"] += 1
            self.undecided.append(f"{o.name}: general query undecided; {ok}/{total} narrowed instances discharged")
            return "ok", None
        return "undecided", f"{o.name}: solver unknown ({ok}/{total} narrowed)"

    # ------------------------------------------------------ counterexamples
    def spread(self, cons, c, h):
        """A model at generic (non-degenerate) input values, if one is found."""
        names = [n for n in c.inputs if n in h.box]
        s = z3.Solver()
        s.set("timeout", 800)
        s.add(*cons)
        end = time.time() + 3
        for k in range(6):
            if not names or time.time() > end:
                return None
            s.push()
            for nm in self.rng.sample(names, max(1, len(names) * (6 - k) // 6)):
                lo, hi = h.box[nm]
                v = Fraction(self.rng.randint(int(lo * 4), int(hi * 4)), 4)
                s.add(c.inputs[nm] == z3.RealVal(v))
            if s.check() == z3.sat:
                return solve.model_values(s.model(), c.inputs)
            s.pop()
        return None

    def aligned(self, cons, c, h):
        """Equations between random pairs of inputs, compatible with the
        constraints (points on common horizontals and verticals are exact in
        floating point)."""
        names = [n for n in c.inputs if z3.is_real(c.inputs[n]) and n in h.box]
        if len(names) < 2:
            return []
        s = z3.Solver()
        s.set("timeout", 500)
        s.add(*cons)
        out, end = [], time.time() + 3
        for _ in range(len(names)):
            a, b = self.rng.sample(names, 2)
            if a[-1] != b[-1]:
                continue
            e = c.inputs[a] == c.inputs[b]
            s.push()
            s.add(e)
            if time.time() < end and s.check() == z3.sat:
                out.append(e)
            else:
                s.pop()
            if len(out) >= max(1, len(names) // 3):
                break
        return out

    def angles(self, cons, c):
        """Inputs used as angles: pin their sine and cosine to a rational point
        of the unit circle compatible with the constraints, so that the angle
        itself can be computed for the concrete run."""
        pins, fix = [], {}
        by = {}
        for nm, o in c.origin.items():
            if o[0] in ("sin", "cos") and isinstance(o[1], z3.ExprRef):
                by.setdefault(o[1].get_id(), {"x": o[1]})[o[0]] = z3.Real(nm)
        for n, v in c.inputs.items():
            d = next((d for d in by.values() if d["x"].eq(v)), None)
            if d is None or "sin" not in d or "cos" not in d:
                continue
            pts = [(Fraction(a, 5), Fraction(b, 5)) for a, b in
                   ((0, 5), (5, 0), (0, -5), (-5, 0), (3, 4), (-3, 4), (3, -4), (-3, -4), (4, 3), (-4, 3), (4, -3), (-4, -3))]
            self.rng.shuffle(pts)
            for a, b in pts[:6]:
                e = [d["sin"] == z3.RealVal(a), d["cos"] == z3.RealVal(b)]
                r, _ = solve.check(cons + pins + e, 2, None, kind="side")
                if r == "sat":
                    pins += e
                    fix[n] = f32(Fraction(math.atan2(a, b)))
                    break
        return pins, fix

    def nice(self, cons, vals, c, h, prefer=()):
        """Greedy rounding of a model to short dyadic values."""
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*cons)
        end = time.time() + 10
        for p in prefer:
            if time.time() > end:
                break
            s.push()
            s.add(p)
            if s.check() == z3.sat:
                vals = solve.model_values(s.model(), c.inputs)
            else:
                s.pop()
        vals = dict(vals)
        for n, v in c.inputs.items():
            if z3.is_bool(v):
                s.add(v == vals[n])
                continue
            if z3.is_int(v):
                s.add(v == vals[n])
                continue
            x = vals[n]
            if time.time() > end:
                continue
            done = False
            for den in (1, 2, 4, 16, 256, 65536):
                for cand in {Fraction(round(x * den), den)}:
                    if f32(cand) != cand:
                        continue
                    s.push()
                    s.add(v == z3.RealVal(cand))
                    if s.check() == z3.sat:
                        vals = solve.model_values(s.model(), c.inputs)
                        done = True
                        break
                    s.pop()
                if done:
                    break
            if not done:
                cand = f32(x)
                s.push()
                s.add(v == z3.RealVal(cand))
                if s.check() == z3.sat:
                    vals = solve.model_values(s.model(), c.inputs)
                else:
                    s.pop()
        return {n: (f32(x) if isinstance(x, Fraction) else x) for n, x in vals.items()}

    def replay(self, o, c, h, target, vals):
        tried = []
        extra = []
        for attempt in range(5):
            if vals is None:
                r, vals = solve.check(target + extra, 3, c.inputs, kind="side")
                if r == "unknown":
                    r, vals = solve.portfolio(target + extra, self.hard_s, c.inputs, kind="side")
                if r != "sat":
                    break
            align = self.aligned(target + extra, c, h) if attempt in (1, 2, 4) else []
            if align:
                r, v2 = solve.check(target + extra + align, 3, c.inputs, kind="side")
                vals = v2 if r == "sat" else vals
                align = align if r == "sat" else []
            pins, fix = self.angles(target + extra + align, c)
            if pins:
                r, v2 = solve.check(target + extra + align + pins, 3, c.inputs, kind="side")
                vals = v2 if r == "sat" else vals
                pins = pins if r == "sat" else []
            nv = self.nice(target + extra + align + pins, vals, c, h, o.prefer)
            if pins:
                nv.update(fix)
            ok, info = self.concrete(nv, None if o.lem is not None else o.name)
            tried.append({k: str(x) for k, x in nv.items()})
            if ok:
                return "viol", dict(name=o.name, values=nv, info=info)
            # diversify: exclude the neighbourhood of this point
            reals = [n for n in c.inputs if n in h.box]
            if not reals:
                break
            g = self.rng.sample(reals, min(len(reals), 3))
            extra = [z3.Or(*[z3.Or(c.inputs[n] > z3.RealVal(nv[n] + Fraction(1, 2)),
                                   c.inputs[n] < z3.RealVal(nv[n] - Fraction(1, 2))) for n in g])]
            vals = None
        return "undecided", f"{o.name}: counterexample not reproduced on the real code {tried[:1]}"

    def concrete(self, vals, name=None):
        """Run the harness on the real code with concrete values."""
        hc = H("conc", self.tier, vals)
        C.set_ctx(None)
        try:
            self.cur(hc)
        except AssumeFailed as e:
            return False, f"assumption {e}"
        except (Inconclusive, PathAbort) as e:
            self.blind.add(f"concrete run: {str(e)[:200]!r}")
            return False, repr(e)
        except Exception as e:  # noqa: BLE001
            if not code_fault(e):
                self.blind.add(f"concrete run: {str(e)[:200]!r}")
                return False, "harness: " + repr(e)[:300]
            if name is None or name.startswith("exception"):
                return True, f"{type(e).__name__}: {str(e)[:300]}"
            return False, repr(e)[:300]
        finally:
            pass
        self.last_conc = hc
        if name is None:
            return bool(hc.failures), hc.failures
        if name in SYMONLY:
            return bool(hc.failures), hc.failures
        return name in hc.failures, hc.failures

    # ------------------------------------------------------------- harness
    def run(self, hname, fn, /, box=4, max_paths=4000, side_ms=3000, validate=2, **params):
        if getattr(self, "only", None) and self.only not in hname:
            return
        if time.time() - self.t0 > self.budget_s:
            self.soft.append(f"{hname}: time budget exhausted before start")
            return
        if self.violations:
            return
        t0 = time.time()
        info = dict(paths=0, obligations=0, witness=0, prims0=STATS.prims)
        self.cur = (lambda hc: fn(hc, **params))
        nval = self.nspread = 0
        pending = [[]]
        try:
            while pending:
                dec = pending.pop()
                c = C.Ctx(side_ms)
                c.decisions = list(dec)
                C.set_ctx(c)
                h = H("sym", self.tier, box=box)
                exc = None
                try:
                    fn(h, **params)
                except PathAbort:
                    pending.extend(c.pending)
                    continue
                except Inconclusive as e:
                    self.soft.append(f"{hname}: {type(e).__name__}: {e}")
                    pending.extend(c.pending)
                    if os.environ.get("VF_DEBUG"):
                        traceback.print_exc()
                    continue
                except Exception as e:  # noqa: BLE001
                    exc = e
                    if os.environ.get("VF_DEBUG"):
                        traceback.print_exc()
                pending.extend(c.pending)
                info["paths"] += 1
                STATS.paths += 1
                if info["paths"] > max_paths:
                    self.soft.append(f"{hname}: more than {max_paths} paths")
                    break
                if exc is not None and not code_fault(exc):
                    self.errors.append(f"{hname}: harness error {type(exc).__name__}: {str(exc)[:300]}")
                    continue
                if exc is not None:
                    nm = f"exception:{type(exc).__name__}"
                    h.obls = [Obl(nm, True, None, True, list(h.prefers))]
                    h.exc = exc
                # vacuity + validation witness
                if nval < validate or exc is not None:
                    nval += 1
                    self.witness(hname, c, h, exc)
                    C.set_ctx(c)
                for o in h.obls:
                    if time.time() - self.t0 > self.budget_s:
                        self.soft.append(f"{hname}: time budget exhausted")
                        return
                    self.obligations += 1
                    info["obligations"] += 1
                    self.obl_names.add(f"{hname}/{o.name}")
                    key = f"{hname}/{o.name}"
                    if o.pre is not True and not self.reach.get(key):
                        self.reach[key] = self.reachable(o, c, h)
                    elif o.pre is True:
                        self.reach[key] = True
                    if not self.settle(hname, self.cur, c, h, o, exc, True):
                        return
        finally:
            C.set_ctx(None)
            info["seconds"] = round(time.time() - t0, 2)
            info["primitives"] = STATS.prims - info.pop("prims0")
            self.harness[hname] = info
            if os.environ.get("VF_VERBOSE"):
                print("  ", hname, info, flush=True)

    def settle(self, hname, cur, c, h, o, exc, fast):
        """Decide one obligation; False once a violation is reported."""
        td = time.time()
        self.cur = cur
        C.set_ctx(c)
        st, inf = self.decide(o, c, h, fast)
        if os.environ.get("VF_VERBOSE") and time.time() - td > 1:
            print(f"      {hname}/{o.name}: {st} {time.time() - td:.1f}s", flush=True)
        C.set_ctx(c)
        if st == "defer":
            self.deferred.append((hname, cur, c, h, o, exc))
        elif st == "undecided" and self.match_known(hname, o.name):
            pass
        elif st == "undecided":
            if o.lem is not None:
                # not a fact: what follows is decided without it
                c.lemmas[o.lem] = z3.BoolVal(True)
                for x in h.obls:
                    if x.nlem > o.lem:
                        x.by = ()
                        if not fast:
                            self.deferred.append((hname, cur, c, h, x, exc))
            msg = f"{hname}: {inf}"
            if exc is not None:
                msg += f" [{type(exc).__name__}: {str(exc)[:200]}]"
            self.soft.append(msg)
        elif st == "viol":
            if o.lem is not None and isinstance(inf["info"], (list, tuple)) and inf["info"]:
                inf = dict(inf, name=inf["info"][0])
            kf = self.match_known(hname, inf["name"])
            if kf:
                self.known_hits.append((kf, hname, o.name, inf))
            else:
                self.violation(hname, inf, exc, {})
                return False
        return True

    def hard(self):
        """Second pass: the obligations the quick solvers left open."""
        for k, (hname, cur, c, h, o, exc) in enumerate(self.deferred):
            if self.violations:
                return
            if time.time() - self.t0 > self.budget_s:
                self.soft += [f"{d[0]}: {d[4].name}: time budget exhausted" for d in self.deferred[k:]]
                return
            self.settle(hname, cur, c, h, o, exc, False)
        C.set_ctx(None)

    def reachable(self, o, c, h):
        base = [V.zb(o.pre)] + c.path + c.assumptions
        cons = base + c.relevant(base)
        r, _ = solve.check(cons + self.boxcons(c, h), 2, None, kind="side")
        return r != "unsat"

    def match_known(self, hname, oname):
        for k in self.known:
            if fnmatch.fnmatchcase(hname, k["harness"]) and k["obligation"] == oname:
                return k
        return None

    def witness(self, hname, c, h, exc):
        base = c.path + c.assumptions
        allobs = []
        for n, a in h.obs:
            for e in S.flatten(a):
                for p in V.parts(e):
                    if isinstance(p, z3.ExprRef):
                        allobs.append(p)
        rel = c.relevant(base + allobs)
        cons = base + rel + self.boxcons(c, h)
        r, vals = solve.check(cons, 5, c.inputs, kind="side")
        if r == "unknown":
            r, vals = solve.portfolio(cons, self.hard_s, c.inputs, kind="side")
        if r == "unsat":
            self.errors.append(f"{hname}: vacuous harness (assumptions unsatisfiable)")
            return
        if r != "sat":
            self.undecided.append(f"{hname}: no witness found")
            return
        self.harness.setdefault(hname, {})
        g = self.spread(cons, c, h) if self.nspread % 2 == 0 else None
        self.nspread += 1
        if g is not None and all(isinstance(x, bool | int) or f32(x) == x for x in g.values()):
            nv = g
        else:
            nv = self.nice(cons, vals, c, h, h.prefers)
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*cons)
        for n, v in c.inputs.items():
            x = nv[n]
            s.add(v == (z3.RealVal(x) if isinstance(x, Fraction) else x))
        if s.check() != z3.sat:
            return
        m = s.model()
        if exc is not None:
            return
        ok, fails = self.concrete(nv)
        hc = getattr(self, "last_conc", None)
        if hc is None or isinstance(fails, str):
            if ok:
                self.violation(hname, dict(name="exception", values=nv, info=fails), None, {})
            return
        if hc.failures:
            unk = [f for f in hc.failures if not self.match_known(hname, f)]
            for f in hc.failures:
                if f not in unk:
                    self.known_hits.append((self.match_known(hname, f), hname, f, dict(values=nv)))
            if unk:
                self.violation(hname, dict(name=unk[0], values=nv, info="witness of the harness assumptions fails on the real code"), None, {})
                return
        mism = []
        n = 0
        for (nm, a), (nm2, b) in zip(h.obs, hc.obs):
            if a.shape != b.shape:
                mism.append(f"{nm}: shape")
                continue
            for x, y in zip(S.flatten(a), S.flatten(b)):
                n += 1
                if not self.agree(m, x, y, c, nv):
                    mism.append(f"{nm}: encoding {self.ev(m, x)} real {y if not isinstance(y, Fraction) else float(y)}")
        if n or hc.checked:
            self.validated += 1
        if len(self.samples) < 6:
            self.samples.append(dict(harness=hname, inputs={k: show(v) for k, v in nv.items()},
                                     observed={nm: [show(x) for x in S.flatten(b)][:8] for nm, b in hc.obs}))
        if mism:
            self.validation_mismatch.append(f"{hname}: {mism[:3]} at { {k: show(v) for k, v in nv.items()} }")

    def ev(self, m, x):
        if isinstance(x, V.Ext):
            for f, nme in ((x.nan, "nan"), (x.pinf, "inf"), (x.ninf, "-inf")):
                if f is True or (f is not False and z3.is_true(m.eval(f, model_completion=True))):
                    return nme
            x = x.v
        if isinstance(x, (bool, int, Fraction)):
            return x
        v = m.eval(x, model_completion=True)
        if z3.is_bool(v):
            return z3.is_true(v)
        try:
            return solve.to_fraction(v)
        except ValueError:
            return None

    def evaluate(self, m, x, c, values):
        """Value of an encoded result at the given inputs: the solver's, except
        where it depends on functions that are only bounded by axioms."""
        todo = [p for p in V.parts(x) if isinstance(p, z3.ExprRef)]
        kinds, seen, known = set(), set(), True
        while todo:
            for n in C.free_vars(todo.pop()):
                if n in seen:
                    continue
                seen.add(n)
                if n in c.origin:
                    kinds.add(c.origin[n][0])
                    todo.extend(t for t in c.origin[n][1:] if isinstance(t, z3.ExprRef))
                elif n not in c.inputs:
                    known = False
        if not kinds & {"exp", "logistic", "tanh", "sin", "cos"}:
            return self.ev(m, x)
        if not known:
            return None
        from .diff import Value
        v = Value(c, values)(x)
        return "nan" if v is V.NAN else "inf" if v is V.PINF else "-inf" if v is V.NINF else v

    def agree(self, m, x, y, c, values):
        a = self.evaluate(m, x, c, values)
        if a is None:
            return True
        if isinstance(y, V.Ext):
            return a == ("nan" if y is V.NAN else "inf" if y is V.PINF else "-inf")
        if isinstance(a, str):
            return False
        if isinstance(a, bool) or isinstance(y, bool):
            return bool(a) == bool(y)
        return abs(float(a) - float(y)) <= 1e-2 * (1 + abs(float(y)))

    # -------------------------------------------------------------- output
    def violation(self, hname, inf, exc, params):
        os.makedirs(f"{OUT}/replays", exist_ok=True)
        path = f"{OUT}/replays/{self.pid}-{hname.replace('/', '_').replace(' ', '_')}.json"
        rec = dict(property=self.pid, harness=hname, obligation=inf["name"],
                   inputs={k: show(v) for k, v in inf["values"].items()},
                   exact_inputs={k: (str(v)) for k, v in inf["values"].items()},
                   info=str(inf.get("info")), exception=None if exc is None else repr(exc)[:500],
                   how="PYTHONPATH=/verif /opt/venv/bin/python -m vf.replay " + path)
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        self.violations.append(rec)
        print(f"[{self.pid}] {hname}: obligation '{inf['name']}' violated on the real code with inputs {rec['inputs']} ({rec['info'][:300]})")
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)

    def finish(self, level="model_checking", bounds=(), assumptions=(), extra=None):
        self.hard()
        wall = time.time() - self.t0
        vac = sorted(k for k, v in self.reach.items() if not v)
        if vac and not self.violations:
            self.errors.append(f"vacuous obligations: {vac[:5]}")
        if self.validation_mismatch and not self.violations:
            self.errors.append(f"encoding disagrees with the real code: {self.validation_mismatch[:2]}")
        if not self.obligations:
            self.errors.append("no obligations generated")
        dis = sum(self.discharged.values())
        cov = dict(
            states=STATS.paths, transitions=STATS.prims,
            traces_validated_against_impl=self.validated,
            samples=self.samples or [dict(note="no witness")],
            explanation="states = feasible symbolic execution paths of the real code; transitions = JAX primitives (compiler-IR equations) encoded into SMT; traces_validated = solver witnesses pushed through both the encoding and the real code with equal outcome",
            obligations=self.obligations, discharged=dis, discharged_by=self.discharged,
            distinct_obligations=len(self.obl_names),
            solver=STATS.as_dict(), portfolio_wins=solve.WINS,
            functions_encoded=sorted(f"{f}:{q}" for f, q in ENCODED if "<lambda>" not in q and "<module>" not in q and "<genexpr>" not in q),
            primitive_histogram=dict(sorted(STATS.prim_names.items(), key=lambda t: -t[1])[:40]),
            harnesses=self.harness, bounds=list(bounds), undecided=self.undecided, not_explored=self.soft, errors=self.errors,
            known_findings=sorted({k[0]["id"] for k in self.known_hits}),
        )
        if extra:
            cov.update(extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=list(assumptions), wall_s=round(wall, 2), violations=len(self.violations))
        os.makedirs(f"{OUT}/evidence", exist_ok=True)
        with open(f"{OUT}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        seen = set()
        for k, hn, on, _ in self.known_hits:
            if k["id"] not in seen:
                seen.add(k["id"])
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        st = STATS.as_dict()
        print(f"[{self.pid}] {self.obligations} obligations, {dis} discharged {self.discharged}, {st['queries']} queries, "
              f"solver {st['solver_s']}s, {STATS.paths} paths, {STATS.prims} primitives, {self.validated} witnesses replayed, wall {wall:.1f}s")
        for u in self.undecided:
            print("NOTE:", u[:300])
        if self.violations:
            return 1
        for e in sorted(self.blind)[:5]:
            print("NOT-REPLAYED:", e)
        if self.blind and os.environ.get("VF_STRICT"):
            self.soft.append("a concrete run of a harness failed")
        for e in self.soft[:20]:
            print("NOT-EXPLORED:", e[:1500])
        for e in self.errors[:20]:
            print("INCONCLUSIVE:", e[:1500])
        if self.errors or (self.soft and (os.environ.get("VF_STRICT") or 2 * dis < self.obligations or not dis)):
            return 2
        return 0


def show(v):
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, V.Ext):
        return "nan" if v is V.NAN else "inf" if v is V.PINF else "-inf"
    return v


def load_known(pid):
    p = os.path.join(os.path.dirname(os.path.dirname(__file__)), "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                r = json.loads(line)
                if r["property"] == pid:
                    out.append(r)
    return out
