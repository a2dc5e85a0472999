"""C17: bounding boxes, locations and grids."""
from fractions import Fraction as F

import numpy as np

from vf import values as V

from . import stubs

BOUNDS = [
    "points, rays, walls, RIS, vertices, paths of 2-4 and 9 (thorough 2-6, 9 and 14) points, scenes of up to 2 x 2 nodes and 3 objects, and one of 4 x 5 nodes and 4 objects (incl. stand-in objects with arbitrary boxes); all nine locations; grids of 1-4 (thorough 7) columns and rows; symbolic coordinates, order of end points included",
]
LOCS = {"N": (1, 2), "E": (2, 1), "S": (1, 0), "W": (0, 1), "C": (1, 1), "NE": (2, 2), "NW": (0, 2), "SE": (2, 0), "SW": (0, 0)}
GRIDS = [(2, None), (3, None), (3, 2), (2, 3), (4, 2), (1, 2), (2, 1)]


def low(h, xs):
    m = xs[0]
    for x in xs[1:]:
        m = h.ite(h.lt(x, m), x, m)
    return m


def high(h, xs):
    m = xs[0]
    for x in xs[1:]:
        m = h.ite(h.lt(m, x), x, m)
    return m


def tight(h, box, pts):
    """box = [[min, min], [max, max]] over pts."""
    b = h.out(box)
    ok = b.shape == (2, 2)
    h.check("two corners", ok)
    if not ok:
        return None
    for i in (0, 1):
        cs = [p[i] for p in pts]
        h.eqs(f"minimum of coordinate {i}", [b[0][i]], [low(h, cs)])
        h.eqs(f"maximum of coordinate {i}", [b[1][i]], [high(h, cs)])
        h.check(f"everything inside {i}", h.And(*[h.And(b[0][i] <= c, c <= b[1][i]) for c in cs]))
        h.check(f"touched {i}", h.And(h.Or(*[b[0][i] == c for c in cs]), h.Or(*[b[1][i] == c for c in cs])))
    return b


def derived(h, obj, b, locs, grids):
    """Locations and grids follow from the box b."""
    if b is None:
        return
    corner = lambda i, j: [[b[0][0], (b[0][0] + b[1][0]) / 2, b[1][0]][i], [b[0][1], (b[0][1] + b[1][1]) / 2, b[1][1]][j]]
    h.eqs("centre", h.out(h.run(lambda: obj.center())), corner(1, 1))
    for loc in locs:
        h.eqs(f"location {loc}", h.out(h.run(lambda: obj.get_location(loc))), corner(*LOCS[loc]))
    for m, n in grids:
        X, Y = h.run(lambda: obj.grid(m) if n is None else obj.grid(m=m, n=n))
        n = m if n is None else n
        X, Y = h.out(X), h.out(Y)
        ok = X.shape == (n, m) and Y.shape == (n, m)
        h.check(f"grid {m}x{n} shape", ok)
        if ok:
            step = lambda a, z, k, c: a if c == 1 else a + (z - a) * F(k, c - 1)
            cols = [[step(b[0][0], b[1][0], j, m) for j in range(m)] for _ in range(n)]
            rows = [[step(b[0][1], b[1][1], i, n)] * m for i in range(n)]
            if m * n < 60:
                h.eqs(f"grid {m}x{n} X", X, cols)
                h.eqs(f"grid {m}x{n} Y", Y, rows)
                continue
            for i in range(n):
                for j in range(m):
                    h.eqs(f"grid {m}x{n} X {i},{j}", [X[i][j]], [cols[i][j]])
                    h.eqs(f"grid {m}x{n} Y {i},{j}", [Y[i][j]], [rows[i][j]])


def make(h, kind, k=2):
    """An object and the points it consists of."""
    from differt2d import geometry as g
    pts = [[h.real(f"x{i}"), h.real(f"y{i}")] for i in range(k)]
    if kind in ("Point", "Vertex"):
        return h.run(lambda: getattr(g, kind)(xy=h.arr(pts[0]))), pts[:1]
    if kind == "default point":
        return h.run(lambda: g.Point()), [[F(0), F(0)]]
    return h.run(lambda: getattr(g, kind)(xys=h.arr(pts))), pts


def shape(h, kind, k, locs, grids):
    obj, pts = make(h, kind, k)
    b = tight(h, h.run(lambda: obj.bounding_box()), pts)
    if hasattr(obj, "grid"):
        derived(h, obj, b, locs, grids)


def scene(h, nt, nr, kinds, locs=(), grids=()):
    from differt2d.geometry import RIS, Point, Vertex, Wall
    from differt2d.scene import Scene
    st, tx = stubs.points(h, stubs.NAMES_TX[:nt])
    sr, rx = stubs.points(h, stubs.NAMES_RX[:nr])
    pts = [*st.values(), *sr.values()]
    objs = []
    for k, kind in enumerate(kinds):
        if kind == "Probe":
            d, o = stubs.probe(h, f"o{k}")
            pts.append(d["cp"][1:])
        elif kind == "Vertex":
            pts.append(list(h.reals(f"o{k}", 2)))
            o = h.run(lambda: Vertex(xy=h.arr(pts[-1])))
        else:
            w = h.reals(f"o{k}", 2, 2)
            pts += [w[0], w[1]]
            o = h.run(lambda: dict(Wall=Wall, RIS=RIS)[kind](xys=h.arr(w)))
        objs.append(o)
    sc = h.run(lambda: Scene(transmitters=tx, receivers=rx, objects=objs))
    b = tight(h, h.run(lambda: sc.bounding_box()), pts)
    derived(h, sc, b, locs, grids)


def main(R):
    q = R.tier == "quick"
    for kind in ("Point", "Vertex", "default point"):
        R.run(kind, shape, kind=kind, k=1, locs=list(LOCS), grids=GRIDS[:3])
    for kind in ("Ray", "Wall", "RIS"):
        R.run(kind, shape, kind=kind, k=2, locs=list(LOCS), grids=GRIDS)
    for k in (2, 3, 4, 9) if q else (2, 3, 4, 5, 6, 9, 14):
        R.run(f"Path/{k}", shape, kind="Path", k=k, locs=list(LOCS) if k == 2 else ["NW", "S"], grids=GRIDS[3:4])
    R.run("grid/sizes", shape, kind="Wall", k=2, locs=[], grids=[(5, 3), (7, 1), (1, None), (2, 150), (150, 2)] + ([] if q else [(6, 7), (50, None), (1100, 1), (1, 1100)]))
    R.run("scene/1x1+1", scene, nt=1, nr=1, kinds=["Wall"], locs=list(LOCS), grids=GRIDS[2:4])
    R.run("scene/2x2", scene, nt=2, nr=2, kinds=[], locs=["NE", "C"])
    R.run("scene/0x1+2", scene, nt=0, nr=1, kinds=["Wall", "RIS"], locs=["W"])
    R.run("scene/1x0+2", scene, nt=1, nr=0, kinds=["Vertex", "Wall"], locs=["E"])
    R.run("scene/0x0+2", scene, nt=0, nr=0, kinds=["Wall", "Wall"])
    R.run("scene/4x5+4", scene, nt=4, nr=5, kinds=["Probe", "Wall", "Vertex", "Probe"])
    R.run("scene/1x2+probe", scene, nt=1, nr=2, kinds=["Probe"])
    if not q:
        R.run("scene/2x2+3", scene, nt=2, nr=2, kinds=["Wall", "Vertex", "RIS"], locs=["SE"], grids=[(3, 2)])
