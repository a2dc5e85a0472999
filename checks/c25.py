"""C25: stacking objects and looking them up."""
from fractions import Fraction as F

import numpy as np

from vf import symjax as S

from . import stubs

BOUNDS = [
    "1-4, 11 and 12 objects of one class (walls, RIS, vertices, points, rays, stand-in objects) or of mixed classes, all fields symbolic; stacking axis 0, 1 and -1; any in-range index, concrete or symbolic; candidates of 0-3 symbolic indices (repetitions included)",
]


def make(h, kind, k):
    """Object + {field: elements}."""
    from differt2d import geometry as g
    if kind == "Probe":
        d, o = stubs.probe(h, f"o{k}")
        return o, {a: v for a, v in d.items()}
    d = dict(xy=h.reals(f"o{k}", 2)) if kind in ("Vertex", "Point") else dict(xys=h.reals(f"o{k}", 2, 2))
    if kind == "RIS":
        d["phi"] = h.real(f"phi{k}")
    return h.run(lambda: getattr(g, kind)(**{a: h.arr(v) for a, v in d.items()})), d


def same(h, what, o, like, d):
    h.check(f"{what}: class", type(o) is type(like))
    if type(o) is type(like):
        for a, v in d.items():
            h.eqs(f"{what}: {a}", h.out(getattr(o, a)), v)


def scene(h, kinds):
    from differt2d.scene import Scene
    os_, ds = zip(*[make(h, kind, k) for k, kind in enumerate(kinds)])
    return os_, ds, h.run(lambda: Scene(objects=list(os_)))


def stack(h, kind, n, axis):
    from differt2d.geometry import stack_leaves, unstack_leaves
    os_, ds = zip(*[make(h, kind, k) for k in range(n)])
    st = h.run(lambda: stack_leaves(list(os_)) if axis is None else stack_leaves(list(os_), axis=axis))
    h.check("class of the stack", type(st) is type(os_[0]))
    for a in ds[0]:
        v = h.out(getattr(st, a))
        ref = np.stack([np.array(d[a], dtype=object) for d in ds], axis=axis or 0)
        h.eqs(f"stacked {a}", v, ref)
    if axis in (None, 0):
        back = h.run(lambda: unstack_leaves(st))
        h.check("as many objects", len(back) == n)
        if len(back) == n:
            for k in range(n):
                same(h, f"object {k}", back[k], os_[k], ds[k])


def scene_stack(h, kind, n):
    from differt2d.scene import Scene
    os_, ds, sc = scene(h, [kind] * n)
    new = h.run(lambda: Scene.from_stacked_objects(sc.stacked_objects()))
    h.check("as many objects", len(new.objects) == n)
    if len(new.objects) == n:
        for k in range(n):
            same(h, f"object {k}", new.objects[k], os_[k], ds[k])


def index(h, name, n):
    """A symbolic int32 index in range."""
    if h.sym:
        v = h.ctx.int(name)
        h.ctx.assume(v >= 0, v < n)
        return v, S.symbolic(np.array(v, dtype=object), np.int32)
    import jax.numpy as jnp
    v = int(h.vals.get(name, 0))
    h.used[name] = v
    return v, jnp.int32(v)


def get(h, kind, n, how):
    os_, ds, sc = scene(h, [kind] * n)
    if how == "traced":
        i, ix = index(h, "i", n)
    else:
        i = h.int("i", 0, n - 1)
        ix = i if how == "int" else np.int32(i)
    o = h.run(lambda: sc.get_object(ix))
    h.check("class", type(o) is type(os_[0]))
    for a in ds[0]:
        got = h.out(getattr(o, a))
        for k in range(n):
            ref = np.array(ds[k][a], dtype=object)
            h.eqs(f"object {k}: {a}", got, ref, pre=i == k)


def interacting(h, kinds, order):
    os_, ds, sc = scene(h, kinds)
    n = len(kinds)
    mixed = len(set(kinds)) > 1
    cs = [index(h, f"c{k}", n) for k in range(order)]
    vals = [c for c, _ in cs]
    if h.sym and order:
        arr = S.symbolic(np.array(vals + [None], dtype=object)[:-1], np.int32)
    else:
        import jax.numpy as jnp
        arr = jnp.array([int(v) for v in vals], dtype=jnp.int32)
    if mixed and h.sym:
        vals = [h.ctx.choose_int(v, 0, n - 1) for v in vals]
    got = h.run(lambda: sc.get_interacting_objects(arr))
    h.check("one object per index", len(got) == order)
    if len(got) != order:
        return
    for j, o in enumerate(got):
        for k in range(n):
            pre = vals[j] == k
            if pre is False:
                continue
            h.check(f"interaction {j} class ({k})", type(o) is type(os_[k]), pre=pre)
            if type(o) is type(os_[k]):
                for a, v in ds[k].items():
                    h.eqs(f"interaction {j} is object {k}: {a}", h.out(getattr(o, a)), np.array(v, dtype=object), pre=pre)


def main(R):
    q = R.tier == "quick"
    for kind in ("Wall", "RIS", "Vertex", "Point", "Ray", "Probe"):
        for n, axis in ((1, None), (3, None), (12, None), (2, 0), *(((2, 1), (2, -1)) if kind in ("Wall", "Vertex") else ())):
            R.run(f"stack/{kind} {n} axis={axis}", stack, kind=kind, n=n, axis=axis)
    for kind in ("Wall", "RIS", "Vertex", "Probe"):
        for n in (1, 3, 11):
            R.run(f"scene stack/{kind} {n}", scene_stack, kind=kind, n=n)
        for how in ("traced", "int", "numpy"):
            R.run(f"lookup/{kind} {how}", get, kind=kind, n=3, how=how)
    for n in (1, 2, 4, 11) if q else (1, 2, 4, 7, 11, 40):
        R.run(f"lookup/Wall {n}", get, kind="Wall", n=n, how="traced")
    for kinds, order in ((["Wall"], 2), (["Wall"] * 3, 0), (["Wall"] * 3, 2), (["RIS"] * 2, 3), (["Probe"] * 2, 2), (["Wall", "RIS"], 2),
                         (["Wall", "Vertex", "Wall"], 2), (["Vertex", "RIS", "Wall"], 1), (["Wall", "Wall", "RIS"], 2)):
        R.run(f"interacting/{'+'.join(kinds)} {order}", interacting, kinds=kinds, order=order)
