"""C06: wall normal and mirror image."""
from fractions import Fraction as F

import numpy as np

from .geo import add, cross, dot, scale, sqn, sub

M = F(1, 1000)
BOUNDS = ["walls, RIS with arbitrary real end points (zero-length included), any point"]


def mk(h, kind, w):
    from differt2d.geometry import RIS, Wall
    if kind == "RIS":
        return RIS(xys=h.arr(w), phi=h.arr(h.real("phi")))
    return Wall(xys=h.arr(w))


def normal(h, *, kind):
    w = h.reals("w", 2, 2)
    d = sub(w[1], w[0])
    deg = h.fork(sqn(d) == 0)
    h.prefer(sqn(d) >= 1)
    W = h.run(mk, h, kind, w)
    r = h.run(lambda o: o.normal(), W)
    h.observe("normal", r)
    n = h.fin("finite", r)
    h.check("shape", n.shape == (2,))
    if deg:
        h.eqs("degenerate wall: zero normal", n, np.array([F(0), F(0)], dtype=object))
        return
    h.check("unit length", sqn(n) == 1, loose=h.abs(sqn(n) - 1) <= M)
    h.check("orthogonal to the wall", dot(n, d) == 0, loose=h.abs(dot(n, d)) <= M * (1 + sqn(d)))
    h.check("on the right of the wall", cross(d, n) < 0, loose=cross(d, n) < M)


def image(h, *, kind):
    w = h.reals("w", 2, 2)
    p, t = h.reals("p", 2), h.real("t")
    a, d = w[0], sub(w[1], w[0])
    deg = h.fork(sqn(d) == 0)
    h.prefer(sqn(d) >= 1)
    W = h.run(mk, h, kind, w)
    r = h.run(lambda o, x: o.image_of(x), W, h.arr(p))
    h.observe("image", r)
    q = h.fin("finite", r)
    h.check("shape", q.shape == (2,))
    if deg:
        h.eqs("degenerate wall: the point itself", q, p)
        return
    u = sub(q, p)
    h.check("perpendicular to the wall", dot(u, d) == 0, loose=h.abs(dot(u, d)) <= M * (1 + sqn(d)))
    mid = sub(scale(F(1, 2), add(p, q)), a)
    h.check("midpoint on the line", cross(mid, d) == 0, loose=h.abs(cross(mid, d)) <= M * (1 + sqn(d)))
    x = add(a, scale(t, d))
    e = sqn(sub(x, q)) - sqn(sub(x, p))
    h.check("distances to the line preserved", e == 0, loose=h.abs(e) <= F(1, 20) * (1 + sqn(sub(x, p))))
    back = h.run(lambda o, x: o.image_of(o.image_of(x)), W, h.arr(p))
    h.eqs("involution", h.out(back), p)


def main(R):
    for k in ("Wall", "RIS"):
        R.run(f"{k}/normal", normal, kind=k)
        R.run(f"{k}/image", image, kind=k)
