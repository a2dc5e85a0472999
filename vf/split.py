"""Case analysis over the comparisons inside a formula.

Formulas of the form "two piecewise polynomial expressions differ" are refuted
by splitting on the sign of every polynomial that decides a branch; within a
case both sides are polynomials and are compared in normal form, or handed to
the solver together with the literals of the case.
"""

from __future__ import annotations

import time
from fractions import Fraction

import z3

from . import solve
from . import values as V
from .poly import TooBig
from .poly import _add as padd

REL = {z3.Z3_OP_LE: (-1, 0), z3.Z3_OP_GE: (0, 1), z3.Z3_OP_LT: (-1,), z3.Z3_OP_GT: (1,),
       z3.Z3_OP_EQ: (0,), z3.Z3_OP_DISTINCT: (-1, 1)}


class GiveUp(Exception):
    pass


def is_rel(e):
    return z3.is_app(e) and e.num_args() == 2 and e.decl().kind() in REL and z3.is_real(e.arg(0))


FREE = (None, False, None, False, ())


class Splitter:
    """Facts: polynomial without constant term (normalised) -> interval
    (lo, strict, hi, strict, excluded values); Boolean name -> truth."""

    def __init__(self, c, cons, seconds, leaf_ms=300, leaves=6000):
        self.c, self.P = c, c.polys
        self.cons = cons          # path, assumptions, definitions (for the leaves)
        self.end = time.time() + seconds
        self.leaf_ms = leaf_ms
        self.left = leaves
        self.leaves = 0
        self.memo = {}
        self.shapes = {}
        self.pw = {}

    def norm(self, e):
        """(key, threshold, orientation): sign(l - r) = orientation * sign(key - threshold)."""
        i = e.get_id()
        if i not in self.memo:
            p = dict(padd(self.P.of(e.arg(0)), self.P.of(e.arg(1)), -1))
            k = p.pop((), 0)
            self.c.keep.append(e)
            if not p:
                self.memo[i] = (None, k, 1)
            else:
                lead = p[min(p)]
                key, sg = self.P.canon(p)
                self.memo[i] = (key, -Fraction(k) / lead, sg)
        return self.memo[i]

    @staticmethod
    def signs(iv, t):
        """Possible signs of key - t."""
        lo, ls, hi, hs, ne = iv
        out = []
        if lo is None or lo < t:
            out.append(-1)
        if (lo is None or lo < t or (lo == t and not ls)) and (hi is None or hi > t or (hi == t and not hs)) and t not in ne:
            out.append(0)
        if hi is None or hi > t:
            out.append(1)
        return out

    @staticmethod
    def meet(iv, t, s):
        """Interval with sign(key - t) in s, or None."""
        lo, ls, hi, hs, ne = iv
        if -1 not in s and (lo is None or t > lo or (t == lo and 0 not in s)):
            lo, ls = t, 0 not in s
        if 1 not in s and (hi is None or t < hi or (t == hi and 0 not in s)):
            hi, hs = t, 0 not in s
        if 0 not in s and t not in ne and -1 in s and 1 in s:
            ne = (*ne, t)
        if lo is not None and hi is not None and (lo > hi or (lo == hi and (ls or hs or lo in ne))):
            return None
        return lo, ls, hi, hs, ne

    def atom(self, e, facts):
        """Truth of a comparison of ite-free terms, or None."""
        allowed = REL[e.decl().kind()]
        key, t, sg = self.norm(e)
        if key is None:
            return (t > 0) - (t < 0) in allowed
        vals = {s * sg in allowed for s in self.signs(facts.get(key, FREE), t)}
        return vals.pop() if len(vals) == 1 else None

    def learn(self, e, facts):
        """Facts with the literal e added; None if contradictory."""
        neg = False
        while z3.is_not(e):
            e, neg = e.arg(0), not neg
        if is_rel(e):
            if has_ite(e):
                return facts
            key, t, sg = self.norm(e)
            al = [s * sg for s in (-1, 0, 1) if (s in REL[e.decl().kind()]) != neg]
            if key is None:
                return facts if ((t > 0) - (t < 0)) * sg in al else None
            iv = self.meet(facts.get(key, FREE), t, al)
            return None if iv is None else {**facts, key: iv}
        if z3.is_app(e) and not e.children() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = e.decl().name()
            if n in facts:
                return facts if facts[n] != neg else None
            return {**facts, n: not neg}
        return facts

    def resolve(self, e, facts, memo, todo):
        """Simplify under the facts; the first undecided bottom-most atom that
        decides an ite goes to `todo`."""
        if time.time() > self.end:
            raise GiveUp
        i = e.get_id()
        if i in memo:
            return memo[i]
        r = self.resolve0(e, facts, memo, todo)
        memo[i] = r
        self.c.keep.append(r)
        return r

    def shape(self, e):
        i = e.get_id()
        r = self.shapes.get(i)
        if r is None:
            self.c.keep.append(e)
            r = self.shapes[i] = (e.children(), e.decl().kind(), z3.is_bool(e), is_rel(e))
        return r

    def resolve0(self, e, facts, memo, todo):
        ch, kind, isb, _ = self.shape(e)
        if not ch:
            if isb and kind == z3.Z3_OP_UNINTERPRETED:
                t = facts.get(e.decl().name())
                return e if t is None else z3.BoolVal(t)
            o = self.c.origin.get(e.decl().name()) if kind == z3.Z3_OP_UNINTERPRETED else None
            if o is not None and o[0] == "quot" and not isinstance(o[2], Fraction) and self.piecewise(o[2]):
                # a quotient whose divisor is constant in every case
                b = z3.simplify(self.resolve(o[2], facts, memo, todo))
                if not todo and z3.is_rational_value(b) and b.numerator_as_long() != 0:
                    a = self.resolve(V.zr(o[1]), facts, memo, todo)
                    return a * z3.RealVal(1 / b.as_fraction())
            return e
        if kind == z3.Z3_OP_ITE:
            k = self.resolve(ch[0], facts, memo, todo)
            if z3.is_true(k):
                return self.resolve(ch[1], facts, memo, todo)
            if z3.is_false(k):
                return self.resolve(ch[2], facts, memo, todo)
            if len(todo) == 0:
                todo.append(k)
            return e if k is ch[0] else z3.If(k, ch[1], ch[2])
        new = []
        same = True
        for c in ch:
            n = self.resolve(c, facts, memo, todo)
            same = same and n is c
            new.append(n)
            if todo:
                # keep what is simplified so far
                if same:
                    return e
                new += ch[len(new):]
                break
        if kind == z3.Z3_OP_AND or kind == z3.Z3_OP_OR:
            if same and not any(z3.is_true(x) or z3.is_false(x) for x in new):
                return e
            absorbing, neutral = (z3.is_false, z3.is_true) if kind == z3.Z3_OP_AND else (z3.is_true, z3.is_false)
            for x in new:
                if absorbing(x):
                    return x
            new = [x for x in new if not neutral(x)]
            if not new:
                return z3.BoolVal(kind == z3.Z3_OP_AND)
            return new[0] if len(new) == 1 else (z3.And if kind == z3.Z3_OP_AND else z3.Or)(*new)
        if kind == z3.Z3_OP_NOT:
            if z3.is_true(new[0]) or z3.is_false(new[0]):
                return z3.BoolVal(z3.is_false(new[0]))
            return e if same else z3.Not(new[0])
        if same:
            r = e
        elif kind == z3.Z3_OP_ADD:
            r = z3.Sum(*new)
        elif kind == z3.Z3_OP_MUL:
            r = z3.Product(*new)
        else:
            r = e.decl()(*new)
        if todo:
            return r
        if self.shape(r)[3]:
            try:
                a = self.atom(r, facts)
            except TooBig:
                raise GiveUp from None
            if a is not None:
                return z3.BoolVal(a)
        elif isb and kind == z3.Z3_OP_EQ:
            a, b = new
            for x, y in ((a, b), (b, a)):
                if z3.is_true(x):
                    return y
                if z3.is_false(x):
                    return z3.BoolVal(z3.is_false(y)) if z3.is_true(y) or z3.is_false(y) else z3.Not(y)
        return r

    def piecewise(self, e):
        i = e.get_id()
        if i not in self.pw:
            self.c.keep.append(e)
            self.pw[i] = has_ite(e)
        return self.pw[i]

    def first(self, e):
        """An atom of a Boolean condition to split on."""
        while True:
            if is_rel(e):
                return e
            if not e.children():
                return e
            e = e.children()[0]

    def sweep(self, xs, facts, learn):
        """Simplify conjuncts -> (conjuncts, facts, atoms to split on), or None
        if they are contradictory."""
        out, todo = [], []
        for x in xs:
            t = []
            x = self.resolve(x, facts, {}, t)
            if z3.is_false(x):
                return None
            if z3.is_true(x):
                continue
            todo += t
            if learn:
                facts = self.learn(x, facts)
                if facts is None:
                    return None
            out.append(x)
        return out, facts, todo

    def refute(self, goal, side, facts, lits):
        """goal: conjuncts to refute; side: conjuncts that only prune."""
        self.left -= 1
        if self.left < 0 or time.time() > self.end:
            raise GiveUp
        while True:
            before = facts
            r = self.sweep(goal, facts, False)
            if r is None:
                return True
            goal, facts, todo = r
            r = self.sweep(side, facts, True)
            if r is None:
                return True
            side, facts, more = r
            if facts == before:
                break
        if not todo:
            if self.leaf(z3.And(*goal) if goal else z3.BoolVal(True), lits):
                return True
            if not more:
                return False
            todo = more
        a = self.first(todo[0])
        if not is_rel(a):
            if not (z3.is_bool(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                raise GiveUp
            return all(self.refute(goal, side, {**facts, a.decl().name(): t}, [*lits, a if t else z3.Not(a)])
                       for t in (True, False))
        key, t, sg = self.norm(a)
        iv = facts.get(key, FREE)
        l, r = a.children()
        for s in self.signs(iv, t):
            new = self.meet(iv, t, (s,))
            if new is None:
                continue
            lit = l == r if s == 0 else (l < r if s * sg < 0 else l > r)
            if not self.refute(goal, side, {**facts, key: new}, [*lits, lit]):
                return False
        return True

    def leaf(self, e, lits):
        from .h import rewrite
        self.leaves += 1
        e = rewrite(self.P, z3.simplify(e))
        if z3.is_false(z3.simplify(e)):
            return True
        base = [e, *lits]
        r, _ = solve.check(base + self.c.path + self.c.assumptions, self.leaf_ms / 1000, None, kind="side")
        if r == "unsat":
            return True
        r, _ = solve.check(base + self.cons, self.leaf_ms / 1000, None, kind="side")
        return r == "unsat"


def has_ite(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_real(x):
            return True
        st.extend(x.children())
    return False


def conjuncts(e):
    if z3.is_and(e):
        return [y for x in e.children() for y in conjuncts(x)]
    return [e]


def refute(c, goal, pre, seconds):
    """Is `goal` impossible under `pre`? (False: not shown)"""
    goal = V.zb(goal)
    if not has_ite(goal):
        return False
    side = conjuncts(V.zb(pre)) + c.path + c.assumptions
    s = Splitter(c, side + c.relevant([goal] + side), seconds)
    facts = {}
    try:
        more = []
        for x in side:
            if has_ite(x):
                more.append(x)
            facts = s.learn(x, facts)
            if facts is None:
                return True
        return s.refute([goal], more, facts, [])
    except (GiveUp, TooBig):
        return False
