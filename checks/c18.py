"""C18: closest nodes."""
from fractions import Fraction as F

from vf import values as V

from . import stubs

BOUNDS = ["1-4 and 9 (thorough 1-5, 9 and 16) points / 1-3 and 7 nodes with symbolic coordinates and target, ties and coincident points included"]


def sq(p, t):
    return (p[0] - t[0]) * (p[0] - t[0]) + (p[1] - t[1]) * (p[1] - t[1])


def nearest(h, i, d, pts, t):
    """i: index returned; d: distance returned."""
    n2 = [sq(p, t) for p in pts]
    tol = F(1, 1000)
    if not 0 <= i < len(pts):
        h.check("index of one of the points", False)
        return
    for j in range(len(pts)):
        if j != i:
            h.check(f"none nearer ({i} vs {j})", n2[i] <= n2[j], loose=n2[i] <= n2[j] + tol * (1 + n2[j]))
        if j < i:
            h.check(f"first of equals ({i} vs {j})", n2[i] != n2[j], loose=True)
            # exactly equal coordinates certainly tie in floating point as well
            h.check(f"first of coincident ({i} vs {j})", h.Not(h.And(pts[i][0] == pts[j][0], pts[i][1] == pts[j][1])))
    d = h.fin("finite distance", d)[()]
    h.check("distance is not negative", d >= 0)
    h.check("distance to that point", d * d == n2[i],
            loose=h.And(d * d <= n2[i] + tol * (1 + n2[i]), d * d >= n2[i] - tol * (1 + n2[i])))


def index(h, x):
    return int(x.__index__()) if hasattr(x, "__index__") else int(x)


def points(h, n):
    from differt2d.geometry import closest_point
    pts = [[h.real(f"x{i}"), h.real(f"y{i}")] for i in range(n)]
    t = [h.real("tx"), h.real("ty")]
    i, d = h.run(lambda: closest_point(h.arr(pts), h.arr(t)))
    nearest(h, h.run(lambda: index(h, i)), h.out(d), pts, t)


def nodes(h, side, n):
    from differt2d.scene import Scene
    names = (["b", "a", "c10", "c9", "d", "B", ""])[:n]
    spec, pts = stubs.points(h, names)
    ospec, other = stubs.points(h, ["zz", "a0"])
    t = [h.real("cx"), h.real("cy")]
    sc = h.run(lambda: Scene(**{side + "s": pts, ("receivers" if side == "transmitter" else "transmitters"): other}))
    name, d = h.run(lambda: getattr(sc, f"get_closest_{side}")(h.arr(t)))
    h.check("name of a node of that side", name in names)
    if name in names:
        nearest(h, names.index(name), h.out(d), list(spec.values()), t)


def main(R):
    q = R.tier == "quick"
    for n in (1, 2, 3, 4, 9) if q else (1, 2, 3, 4, 5, 9, 16):
        R.run(f"points/{n}", points, n=n)
    for side in ("transmitter", "receiver"):
        for n in (1, 2, 3, 7) if q else (1, 2, 3, 4, 7):
            R.run(f"{side}/{n}", nodes, side=side, n=n)
