"""C23: generated and built-in scenes."""
from fractions import Fraction as F

import numpy as np

from vf import rnd
from vf import values as V

BOUNDS = [
    "random scenes of 0-3 transmitters, walls and receivers and one of 12, 11 and 13, every draw a free symbol in [0, 1); built-in scenes with symbolic node coordinates and ratio; arrays of 0-3 and 12 symbolic walls, stacks of 1-3 objects",
]
ASSUMPTIONS = ["jax.random.uniform is replaced by arbitrary draws in [0, 1), a function of the key and the position"]
ROOM = [[(0, 0), (1, 0)], [(1, 0), (1, 1)], [(1, 1), (0, 1)], [(0, 1), (0, 0)]]
f = lambda x: F(x) if isinstance(x, int) else F(float(np.float32(x)))
INNER = [[(0.4, 0), (0.4, 0.4)], [(0.4, 0.4), (0.3, 0.4)], [(0.1, 0.4), (0, 0.4)]]


def random_scene(h, nt, nw, nr, default=False):
    import jax
    from differt2d.geometry import Wall
    from differt2d.scene import Scene
    key = jax.random.PRNGKey(21)
    with rnd.draws(h) as log:
        if default:
            sc = h.run(lambda: Scene.random_uniform_scene(key=key))
        else:
            sc = h.run(lambda: Scene.random_uniform_scene(n_transmitters=nt, n_walls=nw, n_receivers=nr, key=key))
    h.check("transmitters", list(sc.transmitters) == [f"tx_{i}" for i in range(nt)])
    h.check("receivers", list(sc.receivers) == [f"rx_{i}" for i in range(nr)])
    h.check("walls", len(sc.objects) == nw and all(type(o) is Wall for o in sc.objects))
    es = []
    for p in [*sc.transmitters.values(), *sc.receivers.values()]:
        es += list(h.out(p.xy))
    for w in sc.objects:
        es += list(h.out(w.xys).reshape(-1))
    h.check("two coordinates per point", len(es) == 2 * (nt + nr + 2 * nw))
    for e in es:
        h.check("inside the unit square", h.And(h.ge(e, F(0)), h.le(e, F(1))))
    if h.sym:
        # independence: every coordinate is a draw of its own
        ok = all(any(e is v or str(e) == str(v) for v in log.values) for e in es)
        h.check("coordinates are draws", ok)
    if h.sym:
        for i, v in enumerate(log.values):
            h.prefer(v >= F(i, 64), v < F(i + 1, 64))
    h.check("no two coordinates from the same draw", len({str(e) for e in es}) == len(es),
            pre=h.sym or len(set(log.values)) == len(log.values))


def keys(h):
    """The draw depends on the key."""
    import jax
    from differt2d.scene import Scene
    got = []
    for k in (1, 2, 1):
        with rnd.draws(h) as log:
            sc = h.run(lambda: Scene.random_uniform_scene(key=jax.random.PRNGKey(k)))
        if h.sym:
            for v in log.values:
                h.prefer(v >= F(k, 4), v < F(k + 1, 4))
        got.append([str(e) for e in h.out(sc.transmitters["tx_0"].xy)] + [str(e) for e in h.out(sc.objects[0].xys).reshape(-1)])
    h.check("a function of the key", got[0] == got[2])
    h.check("different keys, different draws", got[0] != got[1] if not h.sym else not set(got[0]) & set(got[1]),
            pre=h.sym or all(F(1, 4) <= v < F(1, 2) for v in log.values))


def coords(h, name):
    return [h.real(f"{name}0"), h.real(f"{name}1")]


def same(h, sc, tx, rx, walls):
    from differt2d.geometry import Wall
    from differt2d.scene import Scene
    h.check("a scene", isinstance(sc, Scene))
    h.check("nodes", list(sc.transmitters) == ["tx"] and list(sc.receivers) == ["rx"])
    h.eqs("transmitter", h.out(sc.transmitters["tx"].xy), tx)
    h.eqs("receiver", h.out(sc.receivers["rx"].xy), rx)
    h.check("walls", len(sc.objects) == len(walls) and all(type(o) is Wall for o in sc.objects))
    if len(sc.objects) == len(walls):
        for k, (o, w) in enumerate(zip(sc.objects, walls)):
            h.eqs(f"wall {k}", h.out(o.xys), [[f(c) if isinstance(c, (int, float)) else c for c in p] for p in w])


DEFAULT = dict(
    basic_scene=([f(0.1), f(0.1)], [f(0.302), f(0.2147)]),
    square_scene=([f(0.2), f(0.2)], [f(0.5), f(0.6)]),
    square_scene_with_wall=([f(0.2), f(0.5)], [f(0.8), f(0.5)]),
    square_scene_with_obstacle=([f(0.2), f(0.2)], [f(0.5), f(0.6)]),
)
RATIO = dict(square_scene_with_wall=f(0.6), square_scene_with_obstacle=f(0.1))


def built_in(h, name, given, by_name):
    from differt2d.scene import Scene
    tx, rx = DEFAULT[name]
    kw = {}
    if "tx" in given:
        tx = coords(h, "t")
        kw["tx_coords"] = h.arr(tx)
    if "rx" in given:
        rx = coords(h, "r")
        kw["rx_coords"] = h.arr(rx)
    ratio = RATIO.get(name)
    if "ratio" in given:
        ratio = h.real("ratio", 0, 1)
        kw["ratio"] = h.arr(ratio)
    walls = list(ROOM)
    if name == "basic_scene":
        walls += INNER
    half = F(1, 2)
    if name == "square_scene_with_wall":
        walls.append([[half, half * (1 - ratio)], [half, half * (1 + ratio)]])
    if name == "square_scene_with_obstacle":
        a, b = half - half * ratio, half + half * ratio
        walls += [[[a, a], [b, a]], [[b, a], [b, b]], [[b, b], [a, b]], [[a, b], [a, a]]]
    if by_name:
        sc = h.run(lambda: Scene.from_scene_name(name, **kw))
    else:
        sc = h.run(lambda: getattr(Scene, name)(**kw))
    same(h, sc, tx, rx, walls)


def array(h, n):
    from differt2d.geometry import Wall
    from differt2d.scene import Scene
    w = h.reals("w", n, 2, 2)
    sc = h.run(lambda: Scene.from_walls_array(h.arr(w)))
    h.check("no nodes", len(sc.transmitters) == 0 and len(sc.receivers) == 0)
    h.check("walls", len(sc.objects) == n and all(type(o) is Wall for o in sc.objects))
    if len(sc.objects) == n:
        for k, o in enumerate(sc.objects):
            h.eqs(f"wall {k}", h.out(o.xys), w[k])


def stacked(h, kind, n):
    from differt2d import geometry
    from differt2d.scene import Scene
    K = getattr(geometry, kind)
    specs, objs = [], []
    for k in range(n):
        d = dict(xy=h.reals(f"o{k}", 2)) if kind == "Vertex" else dict(xys=h.reals(f"o{k}", 2, 2))
        if kind == "RIS":
            d["phi"] = h.real(f"phi{k}")
        specs.append(d)
        objs.append(h.run(lambda: K(**{a: h.arr(v) for a, v in d.items()})))
    sc = h.run(lambda: Scene.from_stacked_objects(geometry.stack_leaves(objs)))
    h.check("no nodes", len(sc.transmitters) == 0 and len(sc.receivers) == 0)
    h.check("objects", len(sc.objects) == n and all(type(o) is K for o in sc.objects))
    if len(sc.objects) == n:
        for k, (o, d) in enumerate(zip(sc.objects, specs)):
            for a, v in d.items():
                h.eqs(f"object {k} {a}", h.out(getattr(o, a)), v)


def main(R):
    q = R.tier == "quick"
    R.run("random/default", random_scene, nt=1, nw=1, nr=1, default=True)
    for a in [(1, 1, 1), (2, 2, 2), (3, 1, 2), (0, 1, 1), (1, 0, 1), (1, 2, 0), (1, 3, 3), (12, 11, 13)] + ([] if q else [(4, 5, 3), (0, 0, 2), (5, 0, 0), (2, 7, 4)]):
        R.run(f"random/{a}", random_scene, nt=a[0], nw=a[1], nr=a[2])
    R.run("random/keys", keys)
    for name in DEFAULT:
        opts = [(), ("tx",), ("rx",), ("tx", "rx")]
        if name in RATIO:
            opts += [("ratio",), ("tx", "rx", "ratio")]
        for i, g in enumerate(opts):
            R.run(f"{name}/{'+'.join(g) or 'default'}", built_in, name=name, given=g, by_name=i % 2 == 1)
    for n in (0, 1, 2, 3, 12):
        R.run(f"array/{n}", array, n=n)
    for kind in ("Wall", "RIS", "Vertex"):
        for n in (1, 3):
            R.run(f"stacked/{kind} {n}", stacked, kind=kind, n=n)
