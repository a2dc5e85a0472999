"""C09: path length."""
from fractions import Fraction as F

from .geo import sqn, sub

T = F(1, 10 ** 5)
BOUNDS = [
    "one segment: any real end points (box +-4 when the unbounded query is undecided), additivity for up to 20 (quick) / 70 (thorough) points, which lifts the one-segment law to any of these lengths",
    "gradient: any points for which no segment is exactly the epsilon shift (coincident points included), up to 4 (thorough 6) points",
]


def length(h, P, wrapped):
    from differt2d.geometry import ImagePath, Path, path_length
    if wrapped == 0:
        return h.run(lambda p: path_length(p), h.arr(P))
    cls = (Path, ImagePath)[wrapped - 1]
    return h.run(lambda p: cls(xys=p).length(), h.arr(P))


def pts(h, n):
    return [[h.real(f"p{i}_0"), h.real(f"p{i}_1")] for i in range(n)]


def segment(h):
    P = pts(h, 2)
    x = length(h, P, h.pick("method", [0, 1, 2]))
    h.observe("length", x)
    v = h.fin("finite", h.out(x))[()]
    e = h.sqrt(sqn(sub(P[1], P[0])))
    X, E = h.let(v), h.let(e)
    h.lemma("distance", h.And(e >= 0, e * e == sqn(sub(P[1], P[0]))), use=E >= 0)
    h.check("non-negative", v >= 0)
    if h.sym:
        h.lemma("non-negative length", v >= 0, use=X >= 0)
        h.lemma("square from above", v * v <= (e + T) * (e + T), use=X * X <= (E + T) * (E + T))
        h.lemma("square from below", h.Or(e <= T, v * v >= (e - T) * (e - T)),
                use=h.Or(E <= T, X * X >= (E - T) * (E - T)))
    h.check("Euclidean distance", h.And(X - E <= T, E - X <= T))


def reverse(h):
    P = pts(h, 2)
    a, b = (h.fin("finite", h.out(length(h, Q, 0)))[()] for Q in (P, P[::-1]))
    h.check("invariant under reversal", h.And(a - b <= T, b - a <= T))


def additive(h, n):
    P = pts(h, n)
    k = h.int("split", 1, n - 2)
    f = lambda Q: h.fin("finite", h.out(length(h, Q, n % 3)))[()]
    h.eqs("additive", h.out(length(h, P, n % 3)), f(P[:k + 1]) + f(P[k:]))


def point(h):
    P = pts(h, 1)
    h.eqs("single point", h.out(length(h, P, 0)), F(0))


def straight(h):
    P = pts(h, 3)
    v = h.fin("finite", h.out(length(h, P, 1)))[()]
    d = [h.sqrt(sqn(sub(P[b], P[a]))) for a, b in ((0, 1), (1, 2), (0, 2))]
    s = [h.fin("finite", h.out(length(h, P[a:a + 2], 1)))[()] for a in (0, 1)]
    if h.sym:
        X, D, S = h.let(v), [h.let(x) for x in d], [h.let(x) for x in s]
        h.lemma("sum", v == s[0] + s[1], use=X == S[0] + S[1])
        for i in (0, 1):
            h.lemma(f"segment {i}", s[i] >= d[i] - T, use=S[i] >= D[i] - T)
        a, b = sub(P[1], P[0]), sub(P[2], P[1])
        a_, b_ = [h.let(x) for x in a], [h.let(x) for x in b]
        for i, (u, w) in enumerate(((a, a_), (b, b_), (sub(P[2], P[0]), [a_[0] + b_[0], a_[1] + b_[1]]))):
            h.lemma(f"square {i}", h.And(d[i] >= 0, d[i] * d[i] == sqn(u)), use=h.And(D[i] >= 0, D[i] * D[i] == sqn(w)))
        ab = a_[0] * b_[0] + a_[1] * b_[1]
        h.lemma("Cauchy-Schwarz squared", sqn(a_) * sqn(b_) >= ab * ab, by=["sum"])
        h.lemma("Cauchy-Schwarz", D[0] * D[1] >= ab, by=["Cauchy-Schwarz squared", "square 0", "square 1"])
        h.lemma("triangle", D[0] + D[1] >= D[2], by=["Cauchy-Schwarz", "square 0", "square 1", "square 2"])
        v, d = X, D
    h.check("never shorter than the straight line", v >= d[2] - 2 * T - T)


def gradient(h, n):
    import jax
    from differt2d.geometry import path_length
    P = pts(h, 1)
    eps = F(1, 2 ** 23)
    for i in range(1, n):
        if h.fork(h.bool(f"same{i}")):
            P.append(P[-1])
        else:
            q = [h.real(f"p{i}_0"), h.real(f"p{i}_1")]
            d = sub(q, P[-1])
            h.assume(h.Or(d[0] > 2 * eps, d[0] < -2 * eps, d[1] > 2 * eps, d[1] < -2 * eps))
            P.append(q)
    g = h.run(lambda p: jax.grad(path_length)(p), h.arr(P))
    h.finite("finite gradient", g)


def main(R):
    R.run("segment", segment)
    R.run("reversed", reverse)
    R.run("point", point)
    for n in (*range(3, 8), 10, 14, 20) if R.tier == "quick" else (*range(3, 24), 32, 48, 70):
        R.run(f"additive/{n}", additive, n=n)
    R.run("straight line", straight)
    for n in (2, 3, 4) if R.tier == "quick" else (2, 3, 4, 5, 6):
        R.run(f"gradient/{n}", gradient, n=n)
