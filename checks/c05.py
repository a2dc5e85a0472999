"""C05: segment intersection is the geometric truth."""
from fractions import Fraction as F

from vf import values as V

from .geo import add, cross, scale, sub

M = F(1, 10000)
BOUNDS = ["two segments with arbitrary real end points (degenerate and parallel included); tol any real in [0, 1/4] or default; patch any real in [0, 1] or default",
          "approx mode: hard_sigmoid and sigmoid, alpha any real in [1, 1000]; float tolerance: points within 1e-4 of the decision boundary are not judged when the exact obligation fails"]


def params(h, P):
    """Intersection parameters of line P0P1 with line P2P3 (Cramer)."""
    d1, d2, w = sub(P[1], P[0]), sub(P[3], P[2]), sub(P[2], P[0])
    den = cross(d1, d2)
    return den, h.div(cross(w, d2), den), h.div(cross(w, d1), den)


def crossing(h, P, tol, m=0):
    """(definitely crossing, definitely not crossing) with margin m."""
    _, s, t = params(h, P)
    yes = h.And(*[h.And(x >= -tol + m, x <= 1 + tol - m) for x in (s, t)])
    no = h.Not(h.And(*[h.And(x >= -tol - m, x <= 1 + tol + m) for x in (s, t)]))
    return yes, no


def spec(h, name, P, tol, r):
    """r is the geometric truth about segments P0P1 and P2P3."""
    den = cross(sub(P[1], P[0]), sub(P[3], P[2]))
    if h.fork(den == 0):
        h.check(f"{name}: parallel segments never intersect", h.Not(r))
        return False
    if isinstance(tol, F):
        # a default tolerance is a float32 constant: judged with a margin only
        y, n = crossing(h, P, tol, M)
        h.implies(f"{name}: crossing segments intersect", y, r)
        h.implies(f"{name}: segments apart do not intersect", n, h.Not(r))
        return True
    y0, n0 = crossing(h, P, tol)
    y, n = crossing(h, P, tol, M)
    big = h.Or(den >= M, den <= -M)
    h.implies(f"{name}: crossing segments intersect", y0, r, loose=h.Or(r, h.Not(h.And(y, big))))
    h.implies(f"{name}: segments apart do not intersect", n0, h.Not(r), loose=h.Or(h.Not(r), h.Not(h.And(n, big))))
    return True


def pts(h):
    P = [h.reals(f"P{i}", 2) for i in range(4)]
    den = cross(sub(P[1], P[0]), sub(P[3], P[2]))
    h.prefer(h.Or(den >= 1, den <= -1))
    h.fork(den == 0)
    return P


def parallel(h, A, B):
    return h.fork(cross(sub(A[1], A[0]), sub(B[1], B[0])) == 0)


def tolkw(h, default):
    if default:
        return F(0.005), {}
    tol = h.real("tol", 0, F(1, 4))
    return tol, dict(tol=h.arr(tol))


def seg(h, *, default_tol, mode):
    from differt2d.geometry import segments_intersect
    P = pts(h)
    tol, kw = tolkw(h, default_tol)
    if mode is not None:
        kw["approx"] = mode
    r = h.run(segments_intersect, *[h.arr(p) for p in P], **kw)
    h.observe("r", r)
    spec(h, "segments", P, tol, h.elem(r))


def symmetry(h, *, order, default_tol):
    from differt2d.geometry import segments_intersect
    P = pts(h)
    tol, kw = tolkw(h, default_tol)
    A = [h.arr(p) for p in P]
    r = h.elem(h.run(segments_intersect, *A, approx=False, **kw))
    q = h.elem(h.run(segments_intersect, *[A[i] for i in order], approx=False, **kw))
    den = cross(sub(P[1], P[0]), sub(P[3], P[2]))
    if h.fork(den == 0):
        h.check("same answer (parallel)", h.Iff(r, q))
        return
    y, n = crossing(h, P, tol, M)
    h.check("same answer", h.Iff(r, q), loose=h.Or(h.Iff(r, q), h.Not(h.Or(y, n)), h.And(den < M, den > -M)))


def mk(h, kind, w):
    from differt2d.geometry import RIS, Wall
    if kind == "RIS":
        return RIS(xys=h.arr(w), phi=h.arr(h.real("phi")))
    return Wall(xys=h.arr(w))


def extended(w, p):
    d = sub(w[1], w[0])
    return [sub(w[0], scale(p, d)), add(w[1], scale(p, d))]


def wall(h, *, kind, default_patch, default_tol, mode):
    P = pts(h)
    tol, kw = tolkw(h, default_tol)
    p = F(0)
    if not default_patch:
        p = h.real("patch", 0, 1)
        kw["patch"] = h.arr(p)
    parallel(h, extended(P[:2], p), P[2:])
    if mode is not None:
        kw["approx"] = mode
    W = h.run(mk, h, kind, P[:2])
    r = h.run(lambda o, q: o.intersects_cartesian(q, **kw), W, h.arr(P[2:]))
    h.observe("r", r)
    spec(h, "wall", [*extended(P[:2], p), *P[2:]], tol, h.elem(r))


def monotone(h, *, what):
    P = pts(h)
    W = h.run(mk, h, "Wall", P[:2])
    lo, hi = h.real("lo", 0, F(1, 4)), h.real("hi", 0, F(1, 4))
    other = h.real("other", 0, F(1, 4))
    h.assume(lo <= hi)
    okey = "tol" if what == "patch" else "patch"
    for pv in ((lo, hi) if what == "patch" else (other,)):
        parallel(h, extended(P[:2], pv), P[2:])
    g = lambda v: h.elem(h.run(lambda o, q: o.intersects_cartesian(q, approx=False, **{what: h.arr(v), okey: h.arr(other)}), W, h.arr(P[2:])))  # noqa: E731
    a, b = g(lo), g(hi)
    den = cross(sub(P[1], P[0]), sub(P[3], P[2]))
    if h.fork(den == 0):
        h.check(f"growing the {what} keeps obstructions (parallel)", h.Or(h.Not(a), b))
        return
    if what == "patch":
        _, s0, t0 = params(h, P)
        for nm, pv in (("lo", lo), ("hi", hi)):
            _, s, t = params(h, [*extended(P[:2], pv), *P[2:]])
            h.lemma(f"wall parameter, {nm}", s * (1 + 2 * pv) == s0 + pv)
            h.lemma(f"ray parameter, {nm}", t == t0)
    pp, tt = (hi, other) if what == "patch" else (other, hi)
    y, n = crossing(h, [*extended(P[:2], pp), *P[2:]], tt, M)
    h.implies(f"growing the {what} keeps obstructions", a, b, loose=h.Or(b, h.Not(h.Or(y, n)), h.And(den < M, den > -M)))


def soft(h, *, what, fn, default_alpha):
    """Approximate value against the exact answer for the same arguments."""
    from differt2d import logic
    from differt2d.geometry import segments_intersect
    P = pts(h)
    tol, kw = tolkw(h, False)
    al = F(100)
    ak = {}
    if fn == "sigmoid":
        ak["function"] = logic.sigmoid
    if not default_alpha:
        al = h.real("alpha", 1, 1000, box=(1, 200))
        ak["alpha"] = h.arr(al)
    if what == "segments":
        f = lambda **k: h.run(segments_intersect, *[h.arr(q) for q in P], **k)  # noqa: E731
        E = P
    else:
        p = h.real("patch", 0, 1)
        kw["patch"] = h.arr(p)
        W = h.run(mk, h, what, P[:2])
        f = lambda **k: h.run(lambda o, q: o.intersects_cartesian(q, **k), W, h.arr(P[2:]))  # noqa: E731
        E = [*extended(P[:2], p), *P[2:]]
    v = f(approx=True, **kw, **ak)
    if fn == "hard":
        h.observe("soft", v)
    h.notnan("never NaN", v)
    v = h.elem(v)
    h.check("in [0,1]", h.between(F(0), v, F(1)))
    e = h.elem(f(approx=False, **kw))
    den = cross(sub(P[1], P[0]), sub(P[3], P[2]))
    if h.fork(den == 0):
        h.check("parallel: below 1/2", h.lt(v, F(1, 2)))
        return
    y, n = crossing(h, E, tol, M)
    big = h.Or(den >= M, den <= -M)
    h.implies("above 1/2 only if exact", h.gt(v, F(1, 2)), e, loose=h.Or(e, h.Not(h.And(n, big))))
    h.implies("below 1/2 only if not exact", h.lt(v, F(1, 2)), h.Not(e), loose=h.Or(h.Not(e), h.Not(h.And(y, big))))
    if fn == "hard" and what == "segments":
        # saturation: far inside / outside by 3/alpha
        m = 3 / al if isinstance(al, F) else h.div(F(3), al)
        y, n = crossing(h, E, tol, m + M)
        h.implies("exactly 1 well inside", h.And(y, big), h.same(v, F(1)), loose=h.ge(v, 1 - F(1, 100)))
        h.implies("exactly 0 well outside", h.And(n, big), h.same(v, F(0)), loose=h.le(v, F(1, 100)))


def main(R):
    for m in (False, None):
        R.run(f"segments_intersect/default tol/{m}", seg, default_tol=True, mode=m)
        R.run(f"segments_intersect/symbolic tol/{m}", seg, default_tol=False, mode=m)
    orders = {"swap segments": (2, 3, 0, 1), "reverse first": (1, 0, 2, 3), "reverse second": (0, 1, 3, 2), "reverse both": (1, 0, 3, 2)}
    for n, o in orders.items():
        R.run(f"symmetry/{n}", symmetry, order=o, default_tol=n != "reverse first")
    for k in ("Wall", "RIS"):
        R.run(f"{k}/default", wall, kind=k, default_patch=True, default_tol=True, mode=False)
        R.run(f"{k}/patch", wall, kind=k, default_patch=False, default_tol=True, mode=False)
    R.run("Wall/patch and tol", wall, kind="Wall", default_patch=False, default_tol=False, mode=None)
    for w in ("patch", "tol"):
        R.run(f"monotone/{w}", monotone, what=w)
    for w in ("segments", "Wall"):
        for f in ("hard", "sigmoid"):
            R.run(f"soft/{w}/{f}", soft, what=w, fn=f, default_alpha=False)
    R.run("soft/default alpha", soft, what="segments", fn="hard", default_alpha=True)
    R.run("soft/RIS", soft, what="RIS", fn="hard", default_alpha=True)
