"""Polynomial normal forms of z3 real terms (used as hash keys only)."""

from __future__ import annotations

from fractions import Fraction

import z3

LIMIT = 1500
BIG = 60000


def quo(a, b):
    """Exact quotient of rationals (int when integral)."""
    r = Fraction(a) / b
    return r.numerator if r.denominator == 1 else r


class TooBig(Exception):
    pass


def _mul(p, q, limit=None):
    limit = limit or LIMIT
    if len(p) * len(q) > 20 * limit:
        raise TooBig
    out = {}
    for m, a in p.items():
        for n, b in q.items():
            k = tuple(sorted(m + n))
            v = out.get(k, 0) + a * b
            if v:
                out[k] = v
            else:
                out.pop(k, None)
    if len(out) > limit:
        raise TooBig
    return out


def _add(p, q, s=1, limit=None):
    limit = limit or LIMIT
    out = dict(p)
    for m, a in q.items():
        v = out.get(m, 0) + s * a
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    if len(out) > limit:
        raise TooBig
    return out


class Polys:
    """Normaliser; `squares` maps an atom id to the polynomial of its square."""

    def __init__(self):
        self.memo = {}
        self.keep = []
        self.squares = {}
        self.atoms = {}
        self.roots = set()
        self.quots = {}
        self.choices = {}
        self.chosen = set()

    def reduce(self, p, limit=None):
        """Normal form modulo atom^2 == polynomial."""
        if not self.squares:
            return p
        out = {}
        todo = [(m, c) for m, c in p.items()]
        n = 0
        while todo:
            m, c = todo.pop()
            n += 1
            if n > 40 * (limit or LIMIT):
                raise TooBig
            for i in range(len(m) - 1):
                if m[i] == m[i + 1] and m[i] in self.squares:
                    rest = m[:i] + m[i + 2:]
                    for mm, cc in self.squares[m[i]].items():
                        todo.append((tuple(sorted(rest + mm)), c * cc))
                    break
            else:
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
        return out

    def clear(self, p, BIG=BIG):
        """Multiply by the (non-zero) denominators of the quotient atoms."""
        for _ in range(100):
            qs = {a for m in p for a in m if a in self.quots}
            if not qs:
                return p
            q = max(qs, key=lambda a: self.quots[a][2])
            pa, pb, _ = self.quots[q]
            parts = {}
            for m, c in p.items():
                k = m.count(q)
                parts.setdefault(k, {})[tuple(a for a in m if a != q)] = c
            k = max(parts)
            ap, bp = [{(): 1}], [{(): 1}]
            for _i in range(k):
                ap.append(self.reduce(_mul(ap[-1], pa, BIG), BIG))
                bp.append(self.reduce(_mul(bp[-1], pb, BIG), BIG))
            out = {}
            for j, cj in parts.items():
                t = self.reduce(_mul(cj, self.reduce(_mul(ap[j], bp[k - j], BIG), BIG), BIG), BIG)
                out = _add(out, t, 1, BIG)
            p = out
        raise TooBig

    def of(self, e):
        i = e.get_id()
        hit = self.memo.get(i)
        if hit is not None:
            return hit
        self.keep.append(e)
        k = e.decl().kind() if z3.is_app(e) else None
        if z3.is_rational_value(e):
            v = quo(e.numerator_as_long(), e.denominator_as_long())
            r = {(): v} if v else {}
        elif k == z3.Z3_OP_ADD:
            r = {}
            for c in e.children():
                r = _add(r, self.of(c))
        elif k == z3.Z3_OP_SUB:
            cs = e.children()
            r = self.of(cs[0])
            for c in cs[1:]:
                r = _add(r, self.of(c), -1)
        elif k == z3.Z3_OP_UMINUS:
            r = _add({}, self.of(e.arg(0)), -1)
        elif k == z3.Z3_OP_MUL:
            cs = e.children()
            r = self.of(cs[0])
            for c in cs[1:]:
                r = self.reduce(_mul(r, self.of(c)))
        elif k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).denominator_as_long() == 1 and 0 <= e.arg(1).numerator_as_long() <= 8:
            r = {(): 1}
            b = self.of(e.arg(0))
            for _ in range(e.arg(1).numerator_as_long()):
                r = self.reduce(_mul(r, b))
        elif k == z3.Z3_OP_ITE:
            r = self.choice(e)
        else:
            r = {(i,): 1}
            self.atoms[i] = e
        self.memo[i] = r
        return r

    def choice(self, e):
        """If-then-else: one atom per condition and branches, modulo identities."""
        i = e.get_id()
        a, b = self.of(e.arg(1)), self.of(e.arg(2))
        if a == b:
            return a
        ck, flip = self.ckey(e.arg(0))
        if flip:
            a, b = b, a
        key = (ck, self.key(a), self.key(b))
        j = self.choices.setdefault(key, i)
        if j == i:
            self.atoms[i] = e
        self.chosen.add(j)
        return {(j,): 1}

    def ckey(self, c):
        """(key, negated) of a condition."""
        if z3.is_not(c):
            k, n = self.ckey(c.arg(0))
            return k, not n
        if z3.is_and(c) or z3.is_or(c):
            n = z3.is_or(c)
            ks = frozenset((k, m ^ n) for k, m in map(self.ckey, c.children()))
            return ("and", ks), n
        if z3.is_app(c) and c.num_args() == 2 and z3.is_real(c.arg(0)):
            rel = {z3.Z3_OP_EQ: "eq", z3.Z3_OP_LT: "lt", z3.Z3_OP_LE: "le", z3.Z3_OP_GT: "gt", z3.Z3_OP_GE: "ge"}.get(c.decl().kind())
            if rel:
                p, s = self.canon(_add(self.of(c.arg(0)), self.of(c.arg(1)), -1))
                if s < 0:
                    rel = dict(lt="gt", gt="lt", le="ge", ge="le").get(rel, rel)
                rel, n = dict(le=("gt", True), ge=("lt", True)).get(rel, (rel, False))
                return (rel, p), n
        self.keep.append(c)
        return c.get_id(), False

    def key(self, p):
        return frozenset(p.items())

    def neg(self, p):
        return {m: -a for m, a in p.items()}

    def canon(self, p):
        """Key up to a non-zero rational factor, with the factor's sign."""
        if not p:
            return frozenset(), 1
        lead = min(p)
        a = p[lead]
        return frozenset((m, quo(c, a)) for m, c in p.items()), (1 if a > 0 else -1)

    def content(self, p):
        """Common monomial factor of all terms."""
        it = iter(p)
        try:
            g = list(next(it))
        except StopIteration:
            return ()
        for m in it:
            if not g:
                break
            m = list(m)
            out = []
            for a in g:
                if a in m:
                    m.remove(a)
                    out.append(a)
            g = out
        return tuple(g)

    def divide(self, p, g):
        out = {}
        for m, c in p.items():
            m = list(m)
            for a in g:
                m.remove(a)
            out[tuple(m)] = c
        return out

    def square(self, atom, p):
        """Register atom^2 == p (all normal forms are recomputed)."""
        if atom.get_id() in self.squares:
            return
        self.keep.append(atom)
        self.atoms[atom.get_id()] = atom
        self.squares[atom.get_id()] = p
        self.memo = {i: q for i, q in self.memo.items() if len(q) == 1 and q == {(i,): 1} and i not in self.chosen}

    def term(self, p):
        """Back to a z3 term."""
        ts = []
        for m in sorted(p):
            c = p[m]
            fs = [self.atoms[i] for i in m]
            if not fs:
                ts.append(z3.RealVal(c))
                continue
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            ts.append(t if c == 1 else z3.RealVal(c) * t)
        if not ts:
            return z3.RealVal(0)
        r = ts[0]
        for t in ts[1:]:
            r = r + t
        return r
