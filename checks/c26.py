"""C26: plotting draws exactly the requested items."""
from fractions import Fraction as F

import numpy as np

from matplotlib.artist import Artist
from matplotlib.axes import Axes

from . import stubs

BOUNDS = [
    "0-3 (and 12, 11 and 12) transmitters, receivers and objects (walls, RIS, vertices, stand-in objects) with symbolic coordinates, every combination of the group and annotation switches (symbolic), with and without group / common arguments; rays, walls and paths of 2-5 and 12 points",
]
ASSUMPTIONS = ["the axes are a recording stand-in (a subclass of matplotlib's Axes whose drawing methods return fresh artists)"]


class Rec(Axes):
    """Records drawing calls."""

    def __init__(self):
        self.calls = []

    def _new(self, kind, *a):
        art = Artist()
        self.calls.append((kind, *a, art))
        return art

    def scatter(self, x, y, *a, **k):
        return self._new("scatter", [x, y], a, k)

    def plot(self, x, y, *a, **k):
        return [self._new("plot", [x, y], a, k)]

    def annotate(self, text, xy, xytext=None, *a, **k):
        return self._new("annotate", text, xy, xytext, k)

    def text(self, x, y, s, *a, **k):
        return self._new("annotate", s, (x, y), None, k)

    def probe(self, obj, *a, **k):
        return self._new("probe", obj, a, k)

    def __repr__(self):
        return "Rec"


def seen(h, x):
    """Coordinates handed to a drawing call -> elements."""
    if isinstance(x, (list, tuple)):
        return [seen(h, v) for v in x]
    a = h.out(x)
    return a[()] if a.shape == () else [v for v in a.reshape(-1)] if a.ndim == 1 else a


def scalar(v):
    while isinstance(v, (list, np.ndarray)) and len(v) == 1:
        v = v[0]
    return v


def make(h, kind, k):
    from differt2d import geometry as g
    if kind == "Probe":
        return stubs.probe(h, f"o{k}")[1], None
    if kind == "Vertex":
        p = list(h.reals(f"o{k}", 2))
        return h.run(lambda: g.Vertex(xy=h.arr(p))), [p]
    w = h.reals(f"o{k}", 2, 2)
    return h.run(lambda: getattr(g, kind)(xys=h.arr(w))), [list(w[0]), list(w[1])]


def point_call(h, what, call, p, args, kw, colour):
    h.check(f"{what}: a marker", call[0] == "scatter")
    if call[0] != "scatter":
        return
    x, y = seen(h, call[1])
    h.eqs(f"{what}: position", [scalar(x), scalar(y)], list(p))
    h.check(f"{what}: positional arguments", tuple(call[2]) == tuple(args))
    h.check(f"{what}: keyword arguments", all(call[3].get(a, None) == v for a, v in kw.items()))
    if colour is not None:
        h.check(f"{what}: colour", call[3].get("color", None) == colour)


def line_call(h, what, call, pts, args, kw):
    h.check(f"{what}: a line", call[0] == "plot")
    if call[0] != "plot":
        return
    x, y = seen(h, call[1])
    h.eqs(f"{what}: through all points in order", np.array([list(x), list(y)], dtype=object),
          np.array([[p[0] for p in pts], [p[1] for p in pts]], dtype=object))
    h.check(f"{what}: positional arguments", tuple(call[2]) == tuple(args))
    h.check(f"{what}: keyword arguments", all(call[3].get(a, None) == v for a, v in kw.items()))


def label(h, what, call, name, p, offset=(F(0), F(0))):
    h.check(f"{what}: a label", call[0] == "annotate")
    if call[0] != "annotate":
        return
    h.check(f"{what}: name", call[1] == name)
    h.eqs(f"{what}: label refers to the position", [scalar(v) for v in seen(h, tuple(call[2]))], list(p))
    if call[3] is not None:
        h.eqs(f"{what}: label is placed there", [scalar(v) for v in seen(h, tuple(call[3]))],
              [p[i] + offset[i] for i in (0, 1)])


def scene(h, nt, nr, kinds, mode):
    from differt2d.scene import Scene
    st, tx = stubs.points(h, stubs.NAMES_TX[:nt])
    sr, rx = stubs.points(h, stubs.NAMES_RX[:nr])
    objs = [make(h, kind, k) for k, kind in enumerate(kinds)]
    sc = h.run(lambda: Scene(transmitters=tx, receivers=rx, objects=[o for o, _ in objs]))
    flags = dict(transmitters=True, objects=True, receivers=True, annotate=True)
    kw, common, cargs = {}, {}, ()
    own = dict(transmitters=((), {}), objects=((), {}), receivers=((), {}))
    if mode != "default":
        for f in flags:
            flags[f] = h.fork(h.bool(f))
        kw.update(flags)
    colours = dict(transmitters="blue", receivers="green")
    if mode in ("arguments", "override"):
        cargs, common = (71, 72), dict(alpha=0.5, zorder=3)
        for i, g in enumerate(own):
            own[g] = ((10 + i,), dict(lw=20 + i))
            if mode == "override" and g != "objects":
                own[g][1].update(color="pink" if g == "transmitters" else "black")
                colours[g] = own[g][1]["color"]
            kw[f"{g}_args"] = own[g][0]
            kw[f"{g}_kwargs"] = own[g][1]
    before = {g: dict(v[1]) for g, v in own.items()}
    ax = Rec()
    arts = h.run(lambda: sc.plot(ax, *cargs, **kw, **common))
    h.check("arguments left alone", all(own[g][1] == before[g] for g in own))
    want = []
    for g, nodes in (("transmitters", st), ("objects", objs), ("receivers", sr)):
        if not flags[g]:
            continue
        for i, x in enumerate(nodes.items() if g != "objects" else nodes):
            want.append((g, i, x))
            if g != "objects" and flags["annotate"]:
                want.append(("label", i, x))
    h.check("one drawing call per requested item", len(ax.calls) == len(want))
    h.check("all artists returned, in order", len(arts) == len(ax.calls) and all(a is c[-1] for a, c in zip(arts, ax.calls)))
    if len(ax.calls) != len(want):
        return
    for (g, i, x), call in zip(want, ax.calls):
        if g == "label":
            label(h, f"label {x[0]}", call, x[0], x[1])
            continue
        args = (*own[g][0], *cargs)
        kws = {**own[g][1], **common}
        if g != "objects":
            point_call(h, f"{g} {x[0]}", call, x[1], args, kws, colours[g])
        elif x[1] is None:
            h.check("object drawn", call[0] == "probe")
            h.check("object drawn with its arguments", call[2] == args and call[3] == kws)
            if call[0] == "probe":
                h.eqs("the right object", h.out(call[1].cp), h.out(x[0].cp))
        elif len(x[1]) == 1:
            point_call(h, f"object {i}", call, x[1][0], args, kws, None)
        else:
            line_call(h, f"object {i}", call, x[1], args, kws)


def single(h, kind, n):
    """Rays, walls, RIS and paths on their own."""
    from differt2d import geometry as g
    pts = [[h.real(f"x{i}"), h.real(f"y{i}")] for i in range(n)]
    o = h.run(lambda: getattr(g, kind)(xys=h.arr(pts)))
    ax = Rec()
    kw = dict(color="red", lw=2) if h.pick("own", [False, True]) else {}
    arts = h.run(lambda: o.plot(ax, *((5,) if kw else ()), **kw))
    h.check("drawn once", len(ax.calls) == 1 and len(arts) == 1 and arts[0] is ax.calls[0][-1])
    if len(ax.calls) == 1:
        line_call(h, kind, ax.calls[0], pts, (5,) if kw else (), kw)


def node(h, kind, named, offset):
    from differt2d import geometry as g
    p = [h.real("x"), h.real("y")]
    o = h.run(lambda: getattr(g, kind)(xy=h.arr(p)))
    ax = Rec()
    kw, off = {}, (F(0), F(0))
    if offset:
        off = (F(1, 4), F(-3, 2))
        kw["annotate_offset"] = (0.25, -1.5)
    if named:
        kw["annotate"] = "$p_1$"
    arts = h.run(lambda: o.plot(ax, **kw))
    n = 2 if named else 1
    h.check("drawn once", len(ax.calls) == n and len(arts) == n and all(a is c[-1] for a, c in zip(arts, ax.calls)))
    if len(ax.calls) == n:
        point_call(h, kind, ax.calls[0], p, (), {}, None)
        if named:
            label(h, kind, ax.calls[1], "$p_1$", p, off)


def main(R):
    q = R.tier == "quick"
    for nt, nr, kinds in ((1, 1, ["Wall"]), (2, 3, ["Wall", "RIS", "Vertex"]), (3, 2, ["Probe", "Wall"]), (0, 2, []), (2, 0, ["Vertex"]),
                          *(() if q else ((3, 3, ["Probe", "Vertex", "Wall", "RIS", "Probe"]),))):
        for mode in ("default", "flags", "arguments", "override"):
            R.run(f"scene/{nt}x{nr} {'+'.join(kinds)} {mode}", scene, nt=nt, nr=nr, kinds=kinds, mode=mode)
    R.run("scene/12x11 many", scene, nt=12, nr=11, kinds=["Wall", "Vertex"] * 6, mode="default")
    for kind, n in (("Ray", 2), ("Wall", 2), ("RIS", 2), ("Path", 2), ("Path", 3), ("Path", 5), ("Path", 12)):
        R.run(f"{kind}/{n}", single, kind=kind, n=n)
    for kind in ("Point", "Vertex"):
        for named in (False, True):
            for offset in (False, True):
                R.run(f"{kind}/{named}/{offset}", node, kind=kind, named=named, offset=offset)
