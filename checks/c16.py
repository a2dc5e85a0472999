"""C16: scene edits."""
from fractions import Fraction as F

from . import stubs

BOUNDS = [
    "scenes of 0-3 transmitters, 0-3 receivers and 0-3 objects with symbolic coordinates; edits of 0-3 entries whose names are symbolic choices among existing and new names (every collision pattern); filters decided by symbolic coordinates, on lists of up to 6 (thorough 7) objects",
]
SIDES = ["transmitters", "receivers"]
NAMES = ["b", "a", "c10"]
NEW = ["z", "A"]


def build(h, nt, nr, m):
    """Scene + spec {part: [(name, coordinates)]}."""
    from differt2d.geometry import Wall
    from differt2d.scene import Scene
    st, tx = stubs.points(h, NAMES[:nt])
    sr, rx = {}, {}
    from differt2d.geometry import Point
    for n in NAMES[:nr]:
        sr[n] = [h.real(f"r{n}_0"), h.real(f"r{n}_1")]
        rx[n] = h.run(lambda n=n: Point(xy=h.arr(sr[n])))
    ws = [h.reals(f"w{k}", 2, 2) for k in range(m)]
    objs = [h.run(lambda w=w: Wall(xys=h.arr(w))) for w in ws]
    sc = h.run(lambda: Scene(transmitters=tx, receivers=rx, objects=objs))
    return dict(transmitters=list(st.items()), receivers=list(sr.items()), objects=list(ws)), sc


def same(h, what, sc, spec):
    """The scene holds exactly what spec says."""
    from differt2d.geometry import Point, Wall
    for side in SIDES:
        got = list(getattr(sc, side).items())
        names = [k for k, _ in got]
        h.check(f"{what}: {side} names in order", names == [k for k, _ in spec[side]])
        if names == [k for k, _ in spec[side]]:
            for (k, p), (_, c) in zip(got, spec[side]):
                h.check(f"{what}: {side} are points", isinstance(p, Point))
                h.eqs(f"{what}: {side} {k}", h.out(p.xy), list(c))
    objs = list(sc.objects)
    h.check(f"{what}: number of objects", len(objs) == len(spec["objects"]))
    if len(objs) == len(spec["objects"]):
        for i, (o, w) in enumerate(zip(objs, spec["objects"])):
            h.check(f"{what}: object {i} type", isinstance(o, Wall))
            h.eqs(f"{what}: object {i}", h.out(o.xys), w)


def entries(h, k, distinct=True):
    """k new entries with symbolic names (existing or new), pairwise distinct."""
    from differt2d.geometry import Point
    spec, given = [], {}
    for i in range(k):
        n = h.pick(f"name{i}", NAMES + NEW)
        h.assume(n not in given)
        c = [h.real(f"e{i}_0"), h.real(f"e{i}_1")]
        spec.append((n, c))
        given[n] = h.run(lambda c=c: Point(xy=h.arr(c)))
    return spec, given


def dict_update(old, new):
    d = dict(old)
    d.update(new)
    return list(d.items())


def nodes(h, side, op, n, k):
    spec, sc = build(h, n if side == "transmitters" else 1, n if side == "receivers" else 2, 1)
    add, given = entries(h, k)
    r = h.run(lambda: getattr(sc, f"{op}_{side}")(**given))
    want = dict(spec)
    want[side] = dict_update(spec[side] if op == "update" else [], add)
    same(h, "new scene", r, want)
    same(h, "original", sc, spec)
    h.check("same kind of scene", type(r) is type(sc))


def rename(h, side, n, k):
    spec, sc = build(h, n if side == "transmitters" else 1, n if side == "receivers" else 1, 1)
    ren = {}
    for i in range(k):
        old = h.pick(f"old{i}", NAMES[:n] + NEW[:1])
        h.assume(old not in ren)
        ren[old] = h.pick(f"new{i}", NAMES[:n] + NEW)
    want = dict(spec)
    want[side] = [(ren.get(a, a), c) for a, c in spec[side]]
    h.assume(len({a for a, _ in want[side]}) == len(want[side]))
    r = h.run(lambda: getattr(sc, f"rename_{side}")(**ren))
    same(h, "renamed scene", r, want)
    same(h, "original", sc, spec)


def objects(h, op, m, k):
    from differt2d.geometry import Wall
    spec, sc = build(h, 1, 1, m)
    ws = [h.reals(f"n{i}", 2, 2) for i in range(k)]
    objs = [h.run(lambda w=w: Wall(xys=h.arr(w))) for w in ws]
    r = h.run(lambda: getattr(sc, f"{op}_objects")(*objs))
    want = dict(spec, objects=(spec["objects"] if op == "add" else []) + ws)
    same(h, "new scene", r, want)
    same(h, "original", sc, spec)


def filtered(h, m):
    spec, sc = build(h, 1, 1, m)
    a, b = h.real("a"), h.real("b")

    def accept(o):
        return bool(h.arr(a) * o.xys[0, 0] + h.arr(b) * o.xys[1, 1] > 0)
    r = h.run(lambda: sc.filter_objects(accept))
    want = dict(spec, objects=[w for w in spec["objects"] if h.fork(a * w[0][0] + b * w[1][1] > 0)])
    same(h, "filtered scene", r, want)
    same(h, "original", sc, spec)


def chain(h):
    """A history of edits."""
    spec, sc = build(h, 2, 2, 2)
    add, given = entries(h, 1)
    keep = iter([False, True, False, True])
    r = h.run(lambda: sc.update_transmitters(**given).update_receivers(**given).add_objects(*sc.objects).filter_objects(
        lambda o: next(keep)).rename_receivers(b="moved"))
    want = dict(transmitters=dict_update(spec["transmitters"], add),
                receivers=[("moved" if n == "b" else n, c) for n, c in dict_update(spec["receivers"], add)],
                objects=[spec["objects"][1], spec["objects"][1]])
    same(h, "edited scene", r, want)
    same(h, "original", sc, spec)


KEYS = ["k", 3, ("t", 1), "m"]


def mapping(h, n):
    """PyTreeDict behaves like an insertion-ordered dictionary."""
    import jax
    from differt2d.geometry import Point
    from differt2d.scene import PyTreeDict
    ref, given = {}, {}
    for i in range(n):
        k = h.pick(f"key{i}", KEYS)
        h.assume(k not in ref)
        ref[k] = [h.real(f"v{i}_0"), h.real(f"v{i}_1")]
        given[k] = h.run(lambda k=k: Point(xy=h.arr(ref[k])))
    d = h.run(lambda: PyTreeDict.from_mapping(given))
    again = h.run(lambda: PyTreeDict.from_mapping(d))
    leaves, tree = jax.tree_util.tree_flatten(d)
    back = jax.tree_util.tree_unflatten(tree, leaves)
    h.check("one leaf per value", len(leaves) == n)
    if len(leaves) == n:
        for x, c in zip(leaves, ref.values()):
            h.eqs("leaves in order", h.out(x), c)
    double = h.run(lambda: jax.tree_util.tree_map(lambda x: x * 2 + 1, d))
    probe = h.pick("probe", KEYS + ["missing"])
    for what, e, f in (("from mapping", d, 1), ("copied", again, 1), ("rebuilt", back, 1), ("mapped", double, 2)):
        h.check(f"{what}: keys in order", list(e) == list(ref) and list(e.keys()) == list(ref))
        h.check(f"{what}: length", len(e) == n)
        h.check(f"{what}: membership", (probe in e) == (probe in ref))
        if list(e) != list(ref):
            return
        for (k, v), (_, c) in zip(e.items(), ref.items()):
            h.eqs(f"{what}: items", h.out(v.xy), [f * x + f - 1 for x in c])
        for v, c in zip(e.values(), ref.values()):
            h.eqs(f"{what}: values", h.out(v.xy), [f * x + f - 1 for x in c])
        try:
            v = e[probe]
            h.check(f"{what}: missing key", probe in ref)
            if probe in ref:
                h.eqs(f"{what}: lookup", h.out(v.xy), [f * x + f - 1 for x in ref[probe]])
        except KeyError:
            h.check(f"{what}: present key found", probe not in ref)
        h.check(f"{what}: get with default", (e.get(probe, None) is None) == (probe not in ref))
    try:
        PyTreeDict(_keys=("a", "b")[:n], _values=(1,) * (n + 1))
        h.check("as many keys as values", False)
    except ValueError:
        pass


def main(R):
    q = R.tier == "quick"
    for side in SIDES:
        for op, n, k in (("update", 2, 2), ("with", 2, 1), ("update", 0, 1), ("update", 1, 0), ("with", 1, 0),
                         *(() if q else (("update", 3, 3), ("with", 2, 3)))):
            R.run(f"{op}_{side}/{n}+{k}", nodes, side=side, op=op, n=n, k=k)
        R.run(f"rename_{side}/2", rename, side=side, n=2, k=2)
        R.run(f"rename_{side}/3", rename, side=side, n=3, k=1 if q else 3)
    for op in ("add", "with"):
        for m, k in ((2, 1), (0, 2), (2, 0)):
            R.run(f"{op}_objects/{m}+{k}", objects, op=op, m=m, k=k)
    for m in (0, 3, 6) if q else (0, 3, 4, 7):
        R.run(f"filter/{m}", filtered, m=m)
    R.run("history", chain)
    for n in (0, 1, 2) if q else (0, 1, 2, 3):
        R.run(f"mapping/{n}", mapping, n=n)
