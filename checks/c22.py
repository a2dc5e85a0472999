"""C22: GeoJSON import."""
import io
import json
from contextlib import contextmanager
from fractions import Fraction as F

import numpy as np

from vf import symjax as S

BOUNDS = [
    "0-2 (thorough 3) features, and a fixed list of eight, each a symbolic choice among polygons of 1-5 and 12 vertices (with or without a hole), points, line strings, multi-polygons, geometry collections, null and missing geometries; symbolic coordinates (coincident vertices included); text, bytes, bytearray and readable inputs; every location",
]
ASSUMPTIONS = ["json.loads is the parser: symbolic coordinates are substituted for marker numbers in what it returns"]
KINDS = ["triangle", "ring4", "hole", "Point", "LineString", "MultiPolygon", "collection", "null", "absent"]
LOCS = ["N", "E", "S", "W", "C", "NE", "NW", "SE", "SW"]


class Doc:
    """Builds a document; coordinates are numbers (concrete) or markers."""

    def __init__(self, h):
        self.h, self.sub, self.walls = h, {}, []

    def point(self, name):
        h = self.h
        xy = [h.real(f"{name}x"), h.real(f"{name}y")]
        if not h.sym:
            return xy, [float(v) for v in xy]
        ms = []
        for v in xy:
            m = 700000.5 + len(self.sub)
            self.sub[m] = v
            ms.append(m)
        return xy, ms

    def ring(self, name, n):
        ps = [self.point(f"{name}v{k}_") for k in range(n)]
        return [p for p, _ in ps], [m for _, m in ps]

    def feature(self, k, kind):
        f = dict(type="Feature", properties=dict(name="x"))
        name = f"f{k}"
        n = dict(triangle=3, ring4=4, hole=3).get(kind) or (int(kind[4:]) if kind.startswith("poly") else None)
        if n is not None:
            ps, ms = self.ring(name, n)
            rings = [ms]
            if kind == "hole":
                rings.append(self.ring(name + "h", 3)[1])
            f["geometry"] = dict(type="Polygon", coordinates=rings)
            self.walls += [[ps[i - 1], ps[i]] for i in range(n)]
        elif kind == "Point":
            f["geometry"] = dict(type=kind, coordinates=self.point(name)[1])
        elif kind == "LineString":
            f["geometry"] = dict(type=kind, coordinates=self.ring(name, 2)[1])
        elif kind == "MultiPolygon":
            f["geometry"] = dict(type=kind, coordinates=[[self.ring(name, 3)[1]]])
        elif kind == "collection":
            f["geometry"] = dict(type="GeometryCollection",
                                 geometries=[dict(type="Polygon", coordinates=[self.ring(name, 3)[1]])])
        elif kind == "null":
            f["geometry"] = None
        return f

    def real(self, x):
        """Substitute symbols for markers."""
        if isinstance(x, dict):
            return {k: self.real(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self.real(v) for v in x]
        if isinstance(x, float) and x in self.sub:
            return self.h.arr(self.sub[x])
        return x

    @contextmanager
    def parser(self):
        orig = json.loads
        json.loads = lambda *a, **k: self.real(orig(*a, **k))
        try:
            yield
        finally:
            json.loads = orig


class Reader:
    def __init__(self, data):
        self.data = data

    def read(self):
        return self.data


def forms(text):
    return dict(str=text, bytes=text.encode(), bytearray=bytearray(text.encode()), reader=Reader(text),
                breader=Reader(text.encode()), stringio=io.StringIO(text))


def low(h, xs, op):
    m = xs[0]
    for x in xs[1:]:
        m = h.ite(x < m if op == "min" else x > m, x, m)
    return m


def place(h, walls, loc):
    if not walls:
        return None
    xs = [[p[i] for w in walls for p in w] for i in (0, 1)]
    lo, hi = [low(h, c, "min") for c in xs], [low(h, c, "max") for c in xs]
    mid = [(a + b) / 2 for a, b in zip(lo, hi)]
    x = lo[0] if "W" in loc else hi[0] if "E" in loc else mid[0]
    y = lo[1] if "S" in loc else hi[1] if "N" in loc else mid[1]
    return [x, y]


def check(h, doc, sc, tl, rl):
    from differt2d.geometry import Wall
    from differt2d.scene import Scene
    h.check("a scene", isinstance(sc, Scene))
    objs = list(sc.objects)
    h.check("one wall per edge", len(objs) == len(doc.walls))
    h.check("one transmitter and one receiver", list(sc.transmitters) == ["tx"] and list(sc.receivers) == ["rx"])
    if len(objs) == len(doc.walls):
        for k, (o, w) in enumerate(zip(objs, doc.walls)):
            h.check("walls", type(o) is Wall)
            h.eqs(f"wall {k}", h.out(o.xys), w)
    h.eqs("transmitter", h.out(sc.transmitters["tx"].xy), place(h, doc.walls, tl) or [F(0), F(0)])
    h.eqs("receiver", h.out(sc.receivers["rx"].xy), place(h, doc.walls, rl) or [F(1), F(1)])


def load(h, doc, d, form, *a, **k):
    from differt2d.scene import Scene
    data = forms(json.dumps(d))[form]
    with doc.parser():
        return h.run(lambda: Scene.from_geojson(data, *a, **k))


def features(h, n, form):
    doc = Doc(h)
    fs = [doc.feature(k, h.pick(f"kind{k}", KINDS)) for k in range(n)]
    sc = load(h, doc, dict(type="FeatureCollection", features=fs), form)
    check(h, doc, sc, "NW", "SE")


def shape(h, kinds, form="str", how="default"):
    doc = Doc(h)
    fs = [doc.feature(k, kind) for k, kind in enumerate(kinds)]
    d = dict(type="FeatureCollection", features=fs) if kinds is not None else {}
    tl, rl, a, k = "NW", "SE", (), {}
    if how == "tx":
        tl = h.pick("tx_loc", LOCS)
        k = dict(tx_loc=tl)
    if how == "rx":
        rl = h.pick("rx_loc", LOCS)
        k = dict(rx_loc=rl)
    if how == "positional":
        tl, rl = "S", "NE"
        a = (tl, rl)
    check(h, doc, load(h, doc, d, form, *a, **k), tl, rl)


def no_features(h, form):
    doc = Doc(h)
    check(h, doc, load(h, doc, dict(type="FeatureCollection"), form), "NW", "SE")


def main(R):
    q = R.tier == "quick"
    for form in ("str", "bytes", "bytearray", "reader", "breader", "stringio"):
        R.run(f"forms/{form}", shape, kinds=["triangle", "Point", "ring4"], form=form, how="positional")
        R.run(f"empty/{form}", no_features, form=form)
    R.run("features/1", features, n=1, form="str")
    R.run("features/2", features, n=2, form="bytes")
    if not q:
        R.run("features/3", features, n=3, form="str")
    for how in ("tx", "rx"):
        R.run(f"locations/{how}", shape, kinds=["triangle"], how=how)
        R.run(f"locations/{how} reader", shape, kinds=["poly2"], how=how, form="reader")
    for n in (1, 2, 5, 12):
        R.run(f"polygon/{n}", shape, kinds=[f"poly{n}"])
    R.run("many features", shape, kinds=["ring4", "Point", "triangle", "null", "poly5", "triangle", "ring4", "poly2"])
    R.run("no walls/locations", shape, kinds=["Point", "null"], how="positional")
