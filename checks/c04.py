"""C04: parametric and Cartesian coordinates of objects agree."""
from fractions import Fraction as F

import numpy as np

from vf import rnd
from vf import values as V

from .geo import add, cross, dot, nonzero, scale, sqn, sub

BOUNDS = ["walls/RIS/vertices with arbitrary real end points (degenerate walls included); any parameter and point",
          "samples: every draw in [0,1)"]


def mk(h, kind, name="w"):
    from differt2d.geometry import RIS, Wall
    w = h.reals(name, 2, 2)
    if kind == "RIS":
        return w, RIS(xys=h.arr(w), phi=h.arr(h.real("phi")))
    return w, Wall(xys=h.arr(w))


def wall(h, *, kind):
    w, W = h.run(mk, h, kind)
    a, b = w[0], w[1]
    d = sub(b, a)
    t = h.real("t")
    p = h.reals("p", 2)
    r = h.run(lambda o, x: o.parametric_to_cartesian(x), W, h.arr([t]))
    h.observe("p2c", r)
    h.eqs("affine in the parameter", h.out(r), np.array(add(a, scale(t, d)), dtype=object))
    h.eqs("0 is the origin", h.out(h.run(lambda o, x: o.parametric_to_cartesian(x), W, h.arr([F(0)]))), np.array(list(a), dtype=object))
    h.eqs("1 is the destination", h.out(h.run(lambda o, x: o.parametric_to_cartesian(x), W, h.arr([F(1)]))), np.array(list(b), dtype=object))
    h.eqs("origin()", h.out(h.run(lambda o: o.origin(), W)), a)
    h.eqs("dest()", h.out(h.run(lambda o: o.dest(), W)), b)
    h.eqs("t()", h.out(h.run(lambda o: o.t(), W)), np.array(d, dtype=object))
    h.check("one parameter", int(h.run(lambda o: o.parameters_count(), W)) == 1)
    s = h.run(lambda o, x: o.cartesian_to_parametric(x), W, h.arr(p))
    h.observe("c2p", s)
    so = h.out(s)
    h.check("shape", so.shape == (1,))
    s = h.fin("finite, degenerate wall included", so)[0]
    h.prefer(sqn(d) >= 1)
    if h.fork(sqn(d) == 0):
        return
    # orthogonal projection: (a + s d - p) . d == 0
    foot = sub(add(a, scale(s, d)), p)
    h.check("orthogonal projection", dot(foot, d) == 0, loose=h.abs(dot(foot, d)) <= F(1, 100))
    back = h.run(lambda o, x: o.cartesian_to_parametric(o.parametric_to_cartesian(x)), W, h.arr([t]))
    h.eqs("round trip", h.out(back), np.array([t], dtype=object))


def contains(h, *, kind, approx, fn="hard"):
    from differt2d import logic
    w, W = h.run(mk, h, kind)
    t = h.real("t")
    kw = {}
    a = F(100)
    if approx and fn == "sigmoid":
        kw["function"] = logic.sigmoid
    if approx:
        a = h.real("alpha", 1, 1000, box=(1, 200))
        kw["alpha"] = h.arr(a)
    if approx is not None:
        kw["approx"] = approx
    r = h.run(lambda o, x: o.contains_parametric(x, **kw), W, h.arr([t]))
    h.observe("contains", r)
    v = h.elem(r)
    M = F(1, 10 ** 5)
    if not approx:
        h.check("contained iff in [0,1]", h.Iff(v, h.And(t >= 0, t <= 1)))
    else:
        h.notnan("not NaN", r)
        v = v.v if isinstance(v, V.Ext) else v
        h.check("in [0,1]", h.between(F(0), v, F(1)))
        h.implies("above 1/2 only if contained", v > F(1, 2), h.And(t >= 0, t <= 1), loose=h.And(t >= -M, t <= 1 + M))
        h.implies("below 1/2 only if not contained", v < F(1, 2), h.Not(h.And(t >= 0, t <= 1)),
                  loose=h.Not(h.And(t >= M, t <= 1 - M)))
        if fn == "hard":
            m = h.ite(t <= 1 - t, t, 1 - t)
            h.implies("saturated inside", a * m >= 3 + M, v == 1, loose=v >= 1 - M)
            h.implies("saturated outside", a * m <= -3 - M, v == 0, loose=v <= M)


def vertex(h, *, approx):
    from differt2d.geometry import Vertex
    x = h.reals("x", 2)
    p = h.reals("p", 2)
    ray = h.reals("r", 2, 2)
    vx = h.run(lambda: Vertex(xy=h.arr(x)))
    h.check("no parameter", int(h.run(lambda o: o.parameters_count(), vx)) == 0)
    z = h.arr(np.empty((0,), dtype=object))
    h.eqs("is its position", h.out(h.run(lambda o, z: o.parametric_to_cartesian(z), vx, z)), x)
    q = h.run(lambda o, q: o.cartesian_to_parametric(q), vx, h.arr(p))
    h.check("no parametric coordinate", tuple(q.shape) == (0,))
    c = h.elem(h.run(lambda o, z: o.contains_parametric(z, approx=approx), vx, z))
    i = h.elem(h.run(lambda o, r: o.intersects_cartesian(r, approx=approx), vx, h.arr(ray)))
    i2 = h.elem(h.run(lambda o, r: o.intersects_cartesian(r, patch=h.arr(h.real("patch", 0, 1)), approx=approx), vx, h.arr(ray)))
    if approx:
        h.eq("contains everything", c, F(1))
        h.eq("never intersected", i, F(0))
        h.eq("never intersected, with patch", i2, F(0))
    else:
        h.check("contains everything", c)
        h.check("never intersected", h.Not(i))
        h.check("never intersected, with patch", h.Not(i2))


def sample(h, *, kind):
    import jax
    key = jax.random.PRNGKey(3)
    if kind == "Vertex":
        from differt2d.geometry import Vertex
        x = h.reals("x", 2)
        vx = h.run(lambda: Vertex(xy=h.arr(x)))
        with rnd.draws(h):
            r = h.run(lambda o: o.sample(key), vx)
        h.eqs("vertex samples itself", h.out(r), x)
        return
    w, W = h.run(mk, h, kind)
    a, d = w[0], sub(w[1], w[0])
    with rnd.draws(h) as log:
        r = h.run(lambda o: o.sample(key), W)
    r = h.fin("finite", r)
    v = sub(r, a)
    h.check("on the line", cross(v, d) == 0, loose=h.abs(cross(v, d)) <= F(1, 100))
    k = dot(v, d)
    h.check("between the end points", h.And(k >= 0, k <= sqn(d)), loose=h.And(k >= -F(1, 100), k <= sqn(d) + F(1, 100)))


def vertices(h):
    w, W = h.run(mk, h, "Wall")
    a, b = h.run(lambda o: o.get_vertices(), W)
    h.eqs("first vertex", h.out(a.xy), w[0])
    h.eqs("second vertex", h.out(b.xy), w[1])


def main(R):
    for k in ("Wall", "RIS"):
        R.run(f"{k}/conversions", wall, kind=k)
        for ap in (False, None):
            R.run(f"{k}/contains/{ap}", contains, kind=k, approx=ap)
        for f in ("hard", "sigmoid"):
            R.run(f"{k}/contains/approx {f}", contains, kind=k, approx=True, fn=f)
        R.run(f"{k}/sample", sample, kind=k)
    for ap in (True, False):
        R.run(f"Vertex/{ap}", vertex, approx=ap)
    R.run("Vertex/sample", sample, kind="Vertex")
    R.run("Wall/vertices", vertices)
