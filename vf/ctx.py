"""Symbolic execution context: definitions, assumptions, path forking, solving."""

from __future__ import annotations

import itertools
import os
import time
from fractions import Fraction

import z3

from . import values as V
from .poly import Polys, TooBig, quo
from .poly import _add as _padd


class Inconclusive(Exception):
    """The solver (or the encoder) could not decide."""


class Unsupported(Inconclusive):
    """The encoder met a construct it does not model."""


class PathAbort(Exception):
    """The current path is infeasible."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.side_queries = 0
        self.prims = 0
        self.paths = 0
        self.prim_names = {}

    def as_dict(self):
        return dict(
            queries=self.queries, unsat=self.unsat, sat=self.sat,
            unknown=self.unknown, side_queries=self.side_queries,
            solver_s=round(self.solver_s, 2), primitives_encoded=self.prims,
            paths=self.paths,
        )

    def merge(self, d):
        self.queries += d["queries"]
        self.unsat += d["unsat"]
        self.sat += d["sat"]
        self.unknown += d["unknown"]
        self.side_queries += d["side_queries"]
        self.solver_s += d["solver_s"]
        self.prims += d["primitives_encoded"]
        self.paths += d["paths"]


STATS = Stats()


def free_vars(e, cache={}):
    """Names of the uninterpreted constants of a z3 expression."""
    key = e.get_id()
    hit = cache.get(key)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    seen = set()
    out = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add("fn!" + x.decl().name())
                stack.extend(x.children())
    out = frozenset(out)
    if len(cache) > 200000:
        cache.clear()
    cache[key] = (e, out)
    return out


def sum_of_squares(cond):
    """Is the condition `a sum of squares >= 0`?"""
    if not (z3.is_app(cond) and cond.decl().kind() == z3.Z3_OP_GE and z3.is_rational_value(cond.arg(1))
            and cond.arg(1).numerator_as_long() == 0):
        return False
    todo = [cond.arg(0)]
    while todo:
        t = todo.pop()
        if z3.is_add(t):
            todo.extend(t.children())
        elif z3.is_rational_value(t):
            if t.numerator_as_long() < 0:
                return False
        elif not (z3.is_mul(t) and t.num_args() == 2 and t.arg(0).eq(t.arg(1))):
            return False
    return True


class Ctx:
    def __init__(self, side_timeout_ms=3000):
        self.assumptions = []      # preconditions on inputs
        self.lemmas = []
        self.defs = {}             # var name -> list of constraints
        self.path = []             # path condition of the current run
        self.decisions = []        # replayed decisions
        self.pos = 0
        self.pending = []
        self.counter = itertools.count()
        self.inputs = {}           # name -> z3 const (declared inputs)
        self.sqrt_cache = {}
        self.div_cache = {}
        self.fn_cache = {}
        self.definite_cache = {}
        self.side_timeout_ms = side_timeout_ms
        self.funs = {}
        self.origin = {}           # defined name -> how it was computed
        self.keep = []
        self.facts_at = None
        self.polys = Polys()
        self.facts = {}
        self.lits = {}
        self.cleared = {}
        self.factlits = []

    # ---- variables
    def real(self, name):
        v = z3.Real(name)
        self.inputs[name] = v
        return v

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs[name] = v
        return v

    def int(self, name):
        v = z3.Int(name)
        self.inputs[name] = v
        return v

    def fresh_name(self, base):
        return f"{base}!{next(self.counter)}"

    def fresh_real(self, base, *defs_fn):
        return z3.Real(self.fresh_name(base))

    def define(self, var, *cons):
        self.defs.setdefault(var.decl().name(), []).extend(cons)

    def assume(self, *conds):
        for c in conds:
            if c is True:
                continue
            self.assumptions.append(V.zb(c))

    # ---- relevance
    def relevant(self, exprs):
        """Definitions reachable from the given expressions."""
        todo = set()
        for e in exprs:
            todo |= free_vars(e)
        done = set()
        out = []
        while todo:
            n = todo.pop()
            if n in done:
                continue
            done.add(n)
            for c in self.defs.get(n, ()):
                out.append(c)
                todo |= free_vars(c) - done
        return out

    def akey(self, e):
        """Hash key of a term, modulo polynomial identities."""
        try:
            return self.polys.key(self.polys.of(e))
        except TooBig:
            k = z3.simplify(e)
            self.keep.append(k)
            return k.get_id()

    # ---- syntactically known facts
    def _lit(self, e):
        key = (e.get_id(), len(self.polys.squares))
        if key not in self.lits:
            self.keep.append(e)
            self.lits[key] = self._lit0(e)
        return self.lits[key]

    def _lit0(self, e):
        """(+-1-normalised polynomial, relation) of a comparison, or None."""
        neg = False
        while z3.is_not(e):
            e, neg = e.arg(0), not neg
        if not z3.is_app(e) or e.num_args() != 2 or not z3.is_arith(e.arg(0)):
            return None
        k = e.decl().kind()
        rel = {z3.Z3_OP_EQ: "eq", z3.Z3_OP_DISTINCT: "ne"}.get(k)
        if rel is None:
            return None
        if neg:
            rel = "ne" if rel == "eq" else "eq"
        try:
            p = _padd(self.polys.of(V.zr(e.arg(0))), self.polys.of(V.zr(e.arg(1))), -1)
            return (self.polys.canon(p)[0], rel, p)
        except TooBig:
            return None

    def _cleared(self, l):
        """Key of a literal's polynomial with all denominators cleared."""
        key = (l[0], len(self.polys.squares))
        if key not in self.cleared:
            r = None
            if any(a in self.polys.quots for m in l[2] for a in m):
                try:
                    r = self.polys.canon(self.polys.clear(l[2], 1500))[0]
                except TooBig:
                    pass
            else:
                r = l[0]
            self.cleared[key] = r
        return self.cleared[key]

    def known(self, cond):
        """Truth value of an (in)equation decided by a path/assumption atom."""
        n = (len(self.path), len(self.assumptions))
        if self.facts_at != n:
            self.facts_at = n
            self.facts = {}
            self.factlits = []
            for x in self.path + self.assumptions:
                l = self._lit(x)
                if l is not None:
                    self.facts[l[0]] = l[1]
                    self.factlits.append(l)
        l = self._lit(cond)
        if l is None:
            return None
        v = self.facts.get(l[0])
        if v is None:
            # sqrt(p) == 0 iff p == 0
            ms = list(l[0])
            if len(ms) == 1 and ms[0][0]:
                zs = [self._zero(a) for a in set(ms[0][0])]
                v = "eq" if "eq" in zs else "ne" if None not in zs else None
            elif ms and self.polys.quots and self.factlits:
                k = self._cleared(l)
                if k is not None:
                    for f in self.factlits:
                        if self._cleared(f) == k:
                            v = f[1]
        return None if v is None else v == l[1]

    def _is_input_lit(self, e):
        """x != 0 with an input x (decided by the solver, see _zero)."""
        while z3.is_not(e):
            e = e.arg(0)
        return z3.is_app(e) and e.num_args() == 2 and z3.is_const(e.arg(0)) and e.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED

    def _zero(self, a):
        """Is an atom known to be (non-)zero?"""
        v = self.facts.get(frozenset({((a,), 1)}))
        if v is None and a in self.polys.roots:
            v = self.facts.get(self.polys.canon(self.polys.squares[a])[0])
        if v is None and z3.is_const(self.polys.atoms[a]) and self.polys.atoms[a].decl().name() in self.inputs:
            if self.definitely(self.polys.atoms[a] != 0):
                v = "ne"
        return v

    # ---- quick side queries
    def definitely(self, cond, timeout_ms=None):
        """True iff cond is implied by assumptions and path (else False)."""
        if isinstance(cond, bool):
            return cond
        key = (cond.get_id(), len(self.path), len(self.assumptions))
        hit = self.definite_cache.get(key)
        if hit is not None:
            return hit
        s = z3.simplify(cond)
        k = None
        if z3.is_true(s):
            r = True
        elif z3.is_false(s):
            r = False
        elif not self._is_input_lit(cond) and (k := self.known(cond)) is not None:
            r = k
        else:
            r = (sum_of_squares(cond) or self._check([z3.Not(cond)], 200, alone=True) == "unsat"
                 or self._check([z3.Not(cond)], timeout_ms or self.side_timeout_ms) == "unsat")
        self.definite_cache[key] = r
        self.keep.append(cond)
        return r

    def _check(self, exprs, timeout_ms, alone=False):
        base = list(exprs) + ([] if alone else self.path + self.assumptions)
        cons = base + self.relevant(base)
        t = time.time()
        s = z3.Solver()
        s.set("timeout", int(timeout_ms))
        s.add(*cons)
        r = str(s.check())
        STATS.side_queries += 1
        STATS.solver_s += time.time() - t
        return r

    def feasible(self, cond):
        if isinstance(cond, bool):
            return cond
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return self._check([cond], self.side_timeout_ms) != "unsat"

    # ---- forking
    def branch(self, cond):
        """Fork on a symbolic condition; returns the concrete decision."""
        if isinstance(cond, bool):
            return cond
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            self.path.append(cond if d else z3.Not(cond))
            return d
        t = self.feasible(cond)
        f = self.feasible(z3.Not(cond))
        if not t and not f:
            raise PathAbort
        if t and f:
            self.pending.append(self.decisions[: self.pos] + [False])
            d = True
        else:
            d = t
        self.decisions = self.decisions[: self.pos] + [d]
        self.pos += 1
        self.path.append(cond if d else z3.Not(cond))
        return d

    def choose_int(self, e, lo=None, hi=None, limit=64):
        """Concretise a symbolic int by forking."""
        if isinstance(e, int):
            return e
        s = z3.simplify(e)
        if z3.is_int_value(s):
            return s.as_long()
        rng = range(lo, hi + 1) if lo is not None and hi is not None else range(-2, limit)
        for k in rng:
            if self.branch(e == k):
                return k
        raise Inconclusive(f"unbounded symbolic integer {e}")


CTX: Ctx | None = None


def ctx() -> Ctx:
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


def explore(fn, setup=None, max_paths=100000, side_timeout_ms=3000):
    """Run ``fn(ctx)`` over all feasible decision paths.

    ``fn`` is called in a fresh context for every path and yields/returns a
    result per path; generator of (ctx, result).
    """
    pending = [[]]
    n = 0
    while pending:
        dec = pending.pop()
        c = Ctx(side_timeout_ms)
        c.decisions = list(dec)
        prev = CTX
        set_ctx(c)
        try:
            try:
                r = fn(c)
            except PathAbort:
                pending.extend(c.pending)
                continue
            pending.extend(c.pending)
            n += 1
            STATS.paths += 1
            if n > max_paths:
                raise Inconclusive("too many paths")
            yield c, r
        finally:
            set_ctx(prev)


# ------------------------------------------------------------ scalar functions
def sqrt(x):
    c = ctx()
    if isinstance(x, V.Ext):
        neg = V.b_and(V.finite(x), V.r_cmp("lt", x.v, V.F0))
        nan = V.b_or(x.nan, x.ninf, neg)
        return V.mk(_rsqrt(x.v, guard=True), nan, V.b_and(V.b_not(nan), x.pinf), False)
    if isinstance(x, (Fraction, int)):
        x = Fraction(x)
        if x < 0:
            return V.NAN
        import math
        n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if n * n == x.numerator and d * d == x.denominator:
            return Fraction(n, d)
        return _rsqrt(V.zr(x), guard=False)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        b = x.children()
        if any(map(z3.is_rational_value, b[1:])) and all(c.definitely(y >= 0) for y in b[1:]):
            for cond, y in ((z3.Not(b[0]), b[2]), (b[0], b[1])):
                if c.definitely(cond):
                    return sqrt(y if not z3.is_rational_value(y) else Fraction(y.numerator_as_long(), y.denominator_as_long()))
            return V.f_ite(b[0], *(sqrt(Fraction(y.numerator_as_long(), y.denominator_as_long()) if z3.is_rational_value(y) else y) for y in b[1:]))
    if c.definitely(x >= 0):
        return _rsqrt(x, guard=False)
    return V.mk(_rsqrt(x, guard=True), x < 0, False, False)


def _rsqrt(x, guard):
    c = ctx()
    if isinstance(x, (Fraction, int)):
        x = V.zr(x)
    try:
        P = c.polys
        px = P.of(x)
        key = (P.key(px), guard)
        if key not in c.sqrt_cache and not guard:
            r = sqrt_factor(c, P, px)
            if r is not None:
                return r
    except TooBig:
        px = None
        k = z3.simplify(x)
        c.keep.append(k)
        key = (k.get_id(), guard)
    hit = c.sqrt_cache.get(key)
    if hit is not None:
        return hit
    s = z3.Real(c.fresh_name("sqrt"))
    c.origin[s.decl().name()] = ("sqrt", x)
    c.keep.append(s)
    c.sqrt_cache[key] = s
    if guard:
        c.define(s, z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)))
    else:
        c.define(s, s >= 0, s * s == x)
        if px is not None:
            c.polys.square(s, px)
            c.polys.roots.add(s.get_id())
    return s


def sqrt_factor(c, P, px):
    """sqrt(k^2 q) = |k| sqrt(q) for atoms k of known sign."""
    g = list(P.content(px))
    out = []
    while g:
        a = g.pop()
        if a in g:
            g.remove(a)
            t = P.atoms[a]
            if c.definitely(t >= 0):
                out.append((a, t))
            elif c.definitely(t <= 0):
                out.append((a, -t))
    if not out:
        return None
    rest = P.divide(px, [a for a, _ in out for _ in (0, 1)])
    r = sqrt(P.term(rest) if rest.keys() != {()} else rest[()])
    if isinstance(r, V.Ext):
        return None
    for _, t in out:
        r = V.mul(t, r)
    return r


def div(a, b):
    c = ctx()
    if not isinstance(b, V.Ext):
        if isinstance(b, (Fraction, int)):
            if b != 0:
                return V.mul(a, F_inv(b)) if not isinstance(a, (Fraction, int)) else Fraction(a) / b
            return _div_general(a, b)
        if (k := const_ite(b)) is not None:
            return V.f_ite(k[0], div(a, k[1]), div(a, k[2]))
        if not isinstance(a, V.Ext):
            if isinstance(a, (Fraction, int)) and a == 0 and c.definitely(b != 0):
                return V.F0
            if c.definitely(b != 0):
                return _quot(a, b, guard=False)
    return _div_general(a, b)


def const_ite(b):
    """(condition, constant, constant) of a choice between non-zero constants."""
    if not z3.is_app(b) or b.decl().kind() != z3.Z3_OP_ITE:
        return None
    ks = []
    for x in b.children()[1:]:
        if not z3.is_rational_value(x) or x.numerator_as_long() == 0:
            return None
        ks.append(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    return b.arg(0), *ks


def F_inv(b):
    return 1 / Fraction(b)


def _quot(a, b, guard):
    c = ctx()
    a, b = V.zr(a), V.zr(b)
    P = c.polys
    try:
        pa, pb = P.of(a), P.of(b)
    except TooBig:
        pa = pb = None
        ka, kb = z3.simplify(a), z3.simplify(b)
        c.keep.extend((ka, kb))
        key = (ka.get_id(), kb.get_id(), guard)
        if key in c.div_cache:
            return c.div_cache[key]
    if pa is not None:
        if not guard and pb:
            gb = list(P.content(pb))
            com = []
            for m in P.content(pa) if pa else ():
                if m in gb:
                    gb.remove(m)
                    com.append(m)
            if com:
                pa, pb = P.divide(pa, com), P.divide(pb, com)
                a, b = P.term(pa), P.term(pb)
        if pb and pb.keys() == {()}:
            return a * z3.RealVal(Fraction(1) / pb[()])
        ck, sb = P.canon(pb)
        # normalise the denominator to leading coefficient 1
        lead = pb[min(pb)] if pb else Fraction(1)
        qa = {m: quo(v, lead) for m, v in pa.items()}
        if not guard:
            k = ratio(qa, P, pb, lead)
            if k is not None:
                return z3.RealVal(k)
        key = (P.key(qa), ck, guard)
        hit = c.div_cache.get(key)
        if hit is not None:
            return hit
        if not guard:
            qb = {m: quo(v, lead) for m, v in pb.items()}
            for num, f in ((P.neg(qa), lambda q: -q), (_padd(qb, qa, -1), lambda q: 1 - q),
                           (_padd(qb, qa, 1), lambda q: q - 1),
                           (_padd(P.neg(qb), qa, -1), lambda q: -1 - q)):
                hit = c.div_cache.get((P.key(num), ck, False))
                if hit is not None:
                    r = f(hit)
                    c.div_cache[key] = r
                    return r
    q = z3.Real(c.fresh_name("quot"))
    c.origin[q.decl().name()] = ("quot", a, b)
    c.div_cache[key] = q
    if guard:
        c.define(q, z3.Implies(b != 0, q * b == a))
    else:
        c.define(q, q * b == a, b != 0)
        if pa is not None:
            P.quots[q.get_id()] = (pa, pb, len(P.quots))
    return q


def ratio(qa, P, pb, lead):
    """Constant k with a == k b, if any (as polynomials)."""
    if not qa:
        return Fraction(0)
    qb = {m: quo(v, lead) for m, v in pb.items()}
    if qa.keys() != qb.keys():
        return None
    m0 = next(iter(qa))
    k = quo(qa[m0], qb[m0])
    return k if all(qa[m] == k * qb[m] for m in qa) else None


def _div_general(a, b):
    c = ctx()
    av, an, ap, am = V.parts(a)
    bv, bn, bp, bm = V.parts(b)
    ai, bi = V.b_or(ap, am), V.b_or(bp, bm)
    afin = V.b_and(V.b_not(ai), V.b_not(an))
    bfin = V.b_and(V.b_not(bi), V.b_not(bn))
    azero = V.b_and(afin, V.r_is0(av))
    bzero = V.b_and(bfin, V.r_is0(bv))
    nan = V.b_or(an, bn, V.b_and(ai, bi), V.b_and(azero, bzero))
    inf = V.b_and(V.b_not(nan), V.b_or(ai, bzero))
    # sign of the infinity: known for inf/finite non-zero, else arbitrary
    if inf is False:
        pos = False
    else:
        anyb = z3.Bool(c.fresh_name("zsign"))
        apos = V.b_or(ap, V.b_and(V.b_not(ai), V.r_cmp("gt", av, V.F0)))
        bpos = V.r_cmp("gt", bv, V.F0)
        pos = V.b_ite(bzero, anyb, V.b_eq(apos, bpos))
    if isinstance(bv, (Fraction, int)):
        q = V.r_mul(av, F_inv(bv)) if bv != 0 else V.F0
    elif isinstance(av, (Fraction, int)) and av == 0:
        q = V.F0
    else:
        q = _quot(av, bv, guard=True)
    # finite / inf = 0
    q = V.r_ite(bi, V.F0, q)
    return V.mk(q, nan, V.b_and(inf, pos), V.b_and(inf, V.b_not(pos)))


def unary_fn(kind, x):
    """Transcendental functions, axiomatised (over-approximation)."""
    c = ctx()
    if isinstance(x, V.Ext):
        if kind == "logistic":
            inner = unary_fn(kind, x.v)
            r = V.f_ite(x.pinf, V.F1, V.f_ite(x.ninf, V.F0, inner))
            return V.f_ite(x.nan, V.NAN, r)
        if kind in ("sin", "cos"):
            return V.f_ite(V.special(x), V.NAN, unary_fn(kind, x.v))
        if kind == "exp":
            inner = unary_fn(kind, x.v)
            r = V.f_ite(x.pinf, V.PINF, V.f_ite(x.ninf, V.F0, inner))
            return V.f_ite(x.nan, V.NAN, r)
        raise Unsupported(f"{kind} of special value")
    if isinstance(x, (Fraction, int)) and x == 0:
        return {"sin": V.F0, "cos": V.F1, "logistic": Fraction(1, 2), "exp": V.F1,
                "log": None, "tanh": V.F0, "log1p": V.F0, "expm1": V.F0}[kind]
    zx = V.zr(x)
    k = c.akey(zx)
    key = (kind, k)
    if key in c.fn_cache:
        return c.fn_cache[key]
    y = z3.Real(c.fresh_name(kind))
    c.origin[y.decl().name()] = (kind, zx)
    c.fn_cache[key] = y
    fam = c.funs.setdefault(kind, [])
    if kind in ("sin", "cos"):
        other = "cos" if kind == "sin" else "sin"
        o = c.fn_cache.get((other, k))
        if o is None:
            o = z3.Real(c.fresh_name(other))
            c.origin[o.decl().name()] = (other, zx)
            c.fn_cache[(other, k)] = o
            c.keep.append(o)
        c.keep.append(y)
        c.define(y, y * y + o * o == 1)
        c.define(o, y * y + o * o == 1)
        # parity with already seen arguments
        kn = c.akey(-zx)
        for kk in ("sin", "cos"):
            prev = c.fn_cache.get((kk, kn))
            if prev is not None:
                mine = c.fn_cache[(kk, k)]
                c.define(mine, mine == (-prev if kk == "sin" else prev))
    elif kind == "logistic":
        c.define(y, y > 0, y < 1, (y > Fraction(1, 2)) == (zx > 0),
                 (y < Fraction(1, 2)) == (zx < 0))
        for (px, py) in fam:
            c.define(y, (py < y) == (px < zx), z3.Implies(px == zx, py == y),
                     z3.Implies(px == -zx, py == 1 - y))
    elif kind == "exp":
        c.define(y, y > 0, (y > 1) == (zx > 0), (y < 1) == (zx < 0), y >= 1 + zx)
        for (px, py) in fam:
            c.define(y, (py < y) == (px < zx), z3.Implies(px == zx, py == y),
                     z3.Implies(px == -zx, py * y == 1))
    elif kind == "tanh":
        c.define(y, y > -1, y < 1, (y > 0) == (zx > 0), (y < 0) == (zx < 0))
        for (px, py) in fam:
            c.define(y, (py < y) == (px < zx), z3.Implies(px == zx, py == y))
    elif kind in ("floor", "rint"):
        n = z3.Int(c.fresh_name("n"))
        if kind == "floor":
            c.define(y, y == z3.ToReal(n), y <= zx, zx < y + 1)
        else:
            half = z3.RealVal("1/2")
            c.define(y, y == z3.ToReal(n), y - half <= zx, zx <= y + half,
                     z3.Implies(z3.Or(zx == y + half, zx == y - half), n % 2 == 0))
    else:
        raise Unsupported(f"function {kind}")
    # the same quantity written with another function
    get = lambda f, e: c.fn_cache.get((f, c.akey(e)))
    if kind in ("exp", "logistic"):
        for s in (1, -1):
            e, l = (y, get("logistic", s * zx)) if kind == "exp" else (get("exp", s * zx), y)
            if e is not None and l is not None:
                c.define(y, l * (1 + e) == (e if s == 1 else 1))
    if kind in ("tanh", "logistic"):
        t, l = (y, get("logistic", 2 * zx)) if kind == "tanh" else (get("tanh", zx / 2), y)
        if t is not None and l is not None:
            c.define(y, t == 2 * l - 1)
    fam.append((zx, y))
    return y
