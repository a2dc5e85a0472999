"""C24: rotating rays."""
from fractions import Fraction as F

import numpy as np

from vf import values as V

BOUNDS = [
    "rays, walls and RIS with symbolic end points (degenerate ones included), any angle (sine and cosine are arbitrary numbers on the unit circle), around the origin, a symbolic point given as array or Point",
    "angles with zero sine are examined separately (the library is right there); see known_findings.jsonl for the others",
]


def setup(h, kind, around):
    from differt2d import geometry as g
    p = [[h.real("x0"), h.real("y0")], [h.real("x1"), h.real("y1")]]
    kw, phi = {}, None
    if kind == "RIS":
        phi = h.real("phi")
        kw["phi"] = h.arr(phi)
    ray = h.run(lambda: getattr(g, kind)(xys=h.arr(p), **kw))
    c = [F(0), F(0)]
    akw = {}
    if around != "origin":
        c = [h.real("cx"), h.real("cy")]
        akw["around"] = h.arr(c) if around == "array" else h.run(lambda: g.Point(xy=h.arr(c)))
    return ray, p, c, phi, akw


def rotated(p, c, s, co):
    return [[c[0] + co * (q[0] - c[0]) - s * (q[1] - c[1]), c[1] + s * (q[0] - c[0]) + co * (q[1] - c[1])] for q in p]


def as_built(p, c, s, co):
    """What the library computes today (known finding): the rotation matrix is
    applied across the two end points instead of to each of them."""
    d = [[q[0] - c[0], q[1] - c[1]] for q in p]
    return [[c[i] + co * d[0][i] - s * d[1][i] for i in (0, 1)], [c[i] + s * d[0][i] + co * d[1][i] for i in (0, 1)]]


def allowed(h, got, *wants):
    T = F(1, 500)
    same = lambda w, eps: h.And(*[h.And(a - b <= eps, b - a <= eps) for x, y in zip(got, w) for a, b in zip(x, y)])
    return h.Or(*[same(w, 0) for w in wants]), h.Or(*[same(w, T) for w in wants])


def rotate(h, kind, around, angle):
    ray, p, c, phi, akw = setup(h, kind, around)
    if angle == "zero":
        a, s, co = F(0), F(0), F(1)
        arg = h.arr(a)
    elif angle == "pi":
        s, co = F(0), F(-1)
        arg = float(np.pi)
    else:
        a = h.real("angle")
        s, co = h.trig(a)
        arg = h.arr(a)
    r = h.run(lambda: ray.rotate(arg, **akw))
    h.check("same kind of object", type(r) is type(ray))
    if phi is not None:
        h.eqs("other attributes kept", h.out(r.phi), phi)
    h.eqs("original unchanged", h.out(ray.xys), p)
    got = h.fin("finite end points", h.out(r.xys))
    want = rotated(p, c, s, co)
    if angle in ("zero", "pi"):
        ok, loose = allowed(h, got, want)
        h.check("rotated end points", ok, loose=loose)
        return
    ok, loose = allowed(h, got, want)
    h.check("rotated end points", ok, loose=loose)
    ok, loose = allowed(h, got, want, as_built(p, c, s, co))
    h.check("rotated end points, or the known wrong ones", ok, loose=loose)
    # the part which holds in either case: the object is rigid iff ... zero sine
    h.check("unchanged when the sine is zero", allowed(h, got, want)[0], loose=allowed(h, got, want)[1], pre=s == 0)


def back(h, kind, around):
    """Opposite rotations cancel; a full turn is the identity."""
    ray, p, c, phi, akw = setup(h, kind, around)
    a = h.real("angle")
    r = h.run(lambda: ray.rotate(h.arr(a), **akw).rotate(h.arr(-a), **akw))
    got = h.fin("finite end points", h.out(r.xys))
    ok, loose = allowed(h, got, p)
    h.check("opposite rotations cancel", ok, loose=loose)
    if phi is not None:
        h.eqs("other attributes kept", h.out(r.phi), phi)


def main(R):
    for kind in ("Ray", "Wall", "RIS"):
        for around in ("origin", "array", "point"):
            for angle in ("zero", "pi", "any"):
                R.run(f"{angle}/{kind} around {around}", rotate, kind=kind, around=around, angle=angle)
            R.run(f"back/{kind} around {around}", back, kind=kind, around=around)
