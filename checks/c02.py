"""C02: fuzzy connectives obey Boolean laws and commute with thresholding."""
import itertools
from fractions import Fraction as F

import numpy as np

from vf import symjax as S
from vf import values as V

BOUNDS = ["truth values: all reals in [0,1] / all Booleans; arrays of shape (3,), (9,), (2,3), (1,2) and (2,2,2), every axis and axis tuple; up to 7 (thorough 20) stacked arguments",
          "tolerances: all reals in [0, 1/2] (and [0,1] for the thresholding laws)"]


def _l():
    from differt2d import logic
    return logic


def u01(h, n):
    return h.real(n, 0, 1)


def scalars(h):
    L = _l()
    a, b, c = u01(h, "a"), u01(h, "b"), u01(h, "c")
    A, B, C = h.arr(a), h.arr(b), h.arr(c)
    e = lambda f, *x: h.elem(h.run(f, *x, approx=True))  # noqa: E731
    r = lambda f, *x: h.run(f, *x, approx=True)  # noqa: E731
    for nm, f in (("and", L.logical_and), ("or", L.logical_or)):
        v = e(f, A, B)
        h.observe(nm, r(f, A, B))
        h.check(f"{nm} in [0,1]", h.between(F(0), v, F(1)))
        h.eq(f"{nm} commutative", e(f, B, A), v)
        h.eq(f"{nm} associative", e(f, r(f, A, B), C), e(f, A, r(f, B, C)))
        h.eq(f"{nm} idempotent", e(f, A, A), a)
    h.eq("and neutral", e(L.logical_and, A, h.arr(F(1))), a)
    h.eq("and absorbing", e(L.logical_and, A, h.arr(F(0))), F(0))
    h.eq("or neutral", e(L.logical_or, A, h.arr(F(0))), a)
    h.eq("or absorbing", e(L.logical_or, A, h.arr(F(1))), F(1))
    h.eq("absorption", e(L.logical_and, A, r(L.logical_or, A, B)), a)
    h.eq("distributivity", e(L.logical_and, A, r(L.logical_or, B, C)),
         e(L.logical_or, r(L.logical_and, A, B), r(L.logical_and, A, C)))
    n = e(L.logical_not, A)
    h.eq("not is the complement", n, 1 - a)
    h.eq("double negation", e(L.logical_not, r(L.logical_not, A)), a)
    h.eq("De Morgan and", e(L.logical_not, r(L.logical_and, A, B)),
         e(L.logical_or, r(L.logical_not, A), r(L.logical_not, B)))
    h.eq("De Morgan or", e(L.logical_not, r(L.logical_or, A, B)),
         e(L.logical_and, r(L.logical_not, A), r(L.logical_not, B)))
    for i, j in itertools.product((0, 1), repeat=2):
        I, J = h.arr(F(i)), h.arr(F(j))
        h.eq(f"and corner {i}{j}", e(L.logical_and, I, J), F(i & j))
        h.eq(f"or corner {i}{j}", e(L.logical_or, I, J), F(i | j))
    # python scalars are accepted
    h.eq("python scalars", e(L.logical_and, A, 1.0), a)
    h.eq("python booleans", e(L.logical_or, A, False), a)


def threshold(h):
    L = _l()
    a, b = u01(h, "a"), u01(h, "b")
    t = h.real("tol", 0, 1)
    A, B, T = h.arr(a), h.arr(b), h.arr(t)
    M = F(1, 10 ** 5)
    it = lambda x: h.elem(h.run(L.is_true, x, tol=T, approx=True))  # noqa: E731
    iF = lambda x: h.elem(h.run(L.is_false, x, tol=T, approx=True))  # noqa: E731
    r = lambda f, *x: h.run(f, *x, approx=True)  # noqa: E731
    h.observe("is_true", h.run(L.is_true, A, tol=T, approx=True))
    off = h.And(h.abs(a - (1 - t)) > M, h.abs(b - (1 - t)) > M, h.abs(a - t) > M, h.abs(b - t) > M)
    h.check("is_true = above 1 - tol", V.b_eq(it(A), a > 1 - t), loose=h.Or(h.Not(off), V.b_eq(it(A), a > 1 - t)))
    h.check("is_false = below tol", V.b_eq(iF(A), a < t), loose=h.Or(h.Not(off), V.b_eq(iF(A), a < t)))
    tr = lambda x: V.b_eq(*x)  # noqa: E731
    for nm, lhs, rhs in (
        ("is_true(and)", it(r(L.logical_and, A, B)), h.And(it(A), it(B))),
        ("is_true(or)", it(r(L.logical_or, A, B)), h.Or(it(A), it(B))),
        ("is_false(and)", iF(r(L.logical_and, A, B)), h.Or(iF(A), iF(B))),
        ("is_false(or)", iF(r(L.logical_or, A, B)), h.And(iF(A), iF(B))),
        ("is_true(not)", it(r(L.logical_not, A)), iF(A)),
        ("is_false(not)", iF(r(L.logical_not, A)), it(A)),
        ("is_true(all)", it(r(L.logical_all, A, B)), h.And(it(A), it(B))),
        ("is_true(any)", it(r(L.logical_any, A, B)), h.Or(it(A), it(B))),
    ):
        h.check(nm, tr((lhs, rhs)), loose=h.Or(h.Not(off), tr((lhs, rhs))))
    h.implies("never both", t <= F(1, 2), h.Not(h.And(it(A), iF(A))))
    itd = h.elem(h.run(L.is_true, A, approx=True))
    ifd = h.elem(h.run(L.is_false, A, approx=True))
    off = h.abs(a - F(1, 2)) > M
    h.check("default is_true", h.Iff(itd, a > F(1, 2)), loose=h.Or(h.Not(off), h.Iff(itd, a > F(1, 2))))
    h.check("default is_false", h.Iff(ifd, a < F(1, 2)), loose=h.Or(h.Not(off), h.Iff(ifd, a < F(1, 2))))
    h.check("complementary by default", h.Or(itd, ifd, h.Not(off)))


def constants(h):
    L = _l()
    t = h.real("tol", F(1, 100), F(1, 2))
    T = h.arr(t)
    for ap in (True, False):
        tv, fv = h.run(L.true_value, approx=ap), h.run(L.false_value, approx=ap)
        kw = dict(approx=ap)
        if ap:
            h.eq("true value is 1", h.elem(tv), F(1))
            h.eq("false value is 0", h.elem(fv), F(0))
        else:
            h.check("true value is True", h.elem(tv) is True)
            h.check("false value is False", h.elem(fv) is False)
        h.check(f"is_true(true) {ap}", h.elem(h.run(L.is_true, tv, tol=T, **kw)))
        h.check(f"is_false(false) {ap}", h.elem(h.run(L.is_false, fv, tol=T, **kw)))
        h.check(f"not is_true(false) {ap}", h.Not(h.elem(h.run(L.is_true, fv, tol=T, **kw))))
        h.check(f"not is_false(true) {ap}", h.Not(h.elem(h.run(L.is_false, tv, tol=T, **kw))))
    tv, fv = h.run(L.true_value), h.run(L.false_value)
    h.check("default mode is exact", h.And(h.elem(tv) is True, h.elem(fv) is False))


def axes_of(nd):
    out = [None]
    out += list(range(nd)) + [-1 - i for i in range(nd)]
    for k in range(2, nd + 1):
        out += list(itertools.combinations(range(nd), k))
    return out


def reduce_ref(arr, axis, op):
    nd = arr.ndim
    if axis is None:
        ax = tuple(range(nd))
    elif isinstance(axis, tuple):
        ax = tuple(a % nd for a in axis)
    else:
        ax = (axis % nd,)
    keep = [i for i in range(nd) if i not in ax]
    m = np.transpose(arr, keep + list(ax))
    shape = tuple(arr.shape[i] for i in keep)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        sub = m[i]
        items = S.flatten(sub) if isinstance(sub, np.ndarray) else [sub]  # noqa: RUF005
        acc = items[0]
        for x in items[1:]:
            acc = op(acc, x)
        out[i] = acc
    return out


def reductions(h, *, shape, nargs, approx):
    L = _l()
    parts = []
    for k in range(nargs):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            n = f"v{k}_" + "_".join(map(str, i))
            a[i] = u01(h, n) if approx else h.bool(n)
        parts.append(a)
    full = np.empty((nargs, *shape), dtype=object)
    for k in range(nargs):
        for i in np.ndindex(*shape):
            full[(k, *i)] = parts[k][i]
    args = [h.arr(p, np.float32 if approx else np.bool_) for p in parts]
    for axis in axes_of(1 + len(shape)):
        kw = {} if axis is None else dict(axis=axis)
        for nm, f, op in (("all", L.logical_all, (lambda x, y: V.minimum(x, y)) if approx else V.b_and),
                          ("any", L.logical_any, (lambda x, y: V.maximum(x, y)) if approx else V.b_or)):
            r = h.run(f, *args, approx=approx, **kw)
            h.eqs(f"{nm} axis={axis}", h.out(r), reduce_ref(full, axis, op))
            if axis is None:
                h.observe(nm, r)


def exact(h):
    L = _l()
    sh = (2, 2)
    a = np.empty(sh, dtype=object)
    b = np.empty(sh, dtype=object)
    for i in np.ndindex(*sh):
        a[i], b[i] = h.bool(f"a{i}"), h.bool(f"b{i}")
    A, B = h.arr(a, np.bool_), h.arr(b, np.bool_)
    m = lambda f: np.array([[f(a[i, j], b[i, j]) for j in range(2)] for i in range(2)], dtype=object)  # noqa: E731
    for ap in (dict(approx=False), {}):
        t = "explicit" if ap else "default mode"
        h.eqs(f"and {t}", h.out(h.run(L.logical_and, A, B, **ap)), m(lambda x, y: V.b_and(x, y)))
        h.eqs(f"or {t}", h.out(h.run(L.logical_or, A, B, **ap)), m(lambda x, y: V.b_or(x, y)))
        h.eqs(f"not {t}", h.out(h.run(L.logical_not, A, **ap)), m(lambda x, y: V.b_not(x)))
        h.eqs(f"is_true {t}", h.out(h.run(L.is_true, A, **ap)), a)
        h.eqs(f"is_false {t}", h.out(h.run(L.is_false, A, **ap)), m(lambda x, y: V.b_not(x)))
    h.eqs("is_true ignores tol in exact mode", h.out(h.run(L.is_true, A, tol=0.0, approx=False)), a)
    h.eqs("is_false ignores tol in exact mode", h.out(h.run(L.is_false, A, tol=0.0, approx=False)), m(lambda x, y: V.b_not(x)))
    h.check("boolean", str(h.run(L.logical_and, A, B, approx=False).dtype) == "bool")


def elementwise(h):
    L = _l()
    a, b = h.reals("a", 2, 3, lo=0, hi=1), h.reals("b", 2, 3, lo=0, hi=1)
    A, B = h.arr(a), h.arr(b)
    m = lambda f: np.array([[f(a[i, j], b[i, j]) for j in range(3)] for i in range(2)], dtype=object)  # noqa: E731
    h.eqs("and arrays", h.out(h.run(L.logical_and, A, B, approx=True)), m(V.minimum))
    h.eqs("or arrays", h.out(h.run(L.logical_or, A, B, approx=True)), m(V.maximum))
    h.eqs("not arrays", h.out(h.run(L.logical_not, A, approx=True)), m(lambda x, y: 1 - x))
    h.eqs("is_true arrays", h.out(h.run(L.is_true, A, tol=0.25, approx=True)), m(lambda x, y: x > F(3, 4)))
    h.eqs("is_false arrays", h.out(h.run(L.is_false, A, tol=0.25, approx=True)), m(lambda x, y: x < F(1, 4)))


def main(R):
    R.run("scalars", scalars)
    R.run("threshold", threshold)
    R.run("constants", constants)
    R.run("exact", exact)
    R.run("elementwise", elementwise)
    shapes = [((), 1), ((), 2), ((), 3), ((), 7), ((3,), 1), ((9,), 1), ((2, 3), 1), ((2,), 3), ((1, 2), 5)]
    if R.tier == "thorough":
        shapes += [((2, 2, 2), 1), ((2, 2), 3), ((5,), 2), ((3, 4), 1), ((), 20)]
    else:
        shapes += [((2, 2, 2), 1)]
    for sh, n in shapes:
        for ap in (True, False):
            R.run(f"reductions/{sh}x{n}/{'approx' if ap else 'exact'}", reductions, shape=sh, nargs=n, approx=ap, validate=1)
