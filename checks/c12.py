"""C12: path candidates."""
import numpy as np
import z3

from . import stubs

BOUNDS = [
    "up to 300 objects (1000 in thorough) for order 1, 24 (50) for order 2, without filter; up to 20 (40) objects with filters that accept one object, 9 (14) with filters that accept an interval",
    "0-5 objects (6 in thorough), orders up to 4 (5 in thorough), any filter outcome per object (symbolic, path-forked), symbolic order arguments; the returned list is compared with an arbitrary symbolic index sequence",
]
ASSUMPTIONS = ["differt_core's Rust graphs run concretely on every path of the symbolic execution"]


def ivar(h, name, lo, hi):
    """A symbolic integer that is not concretised."""
    if not h.sym:
        v = int(h.vals.get(name, lo))
        h.used[name] = v
        return v
    v = h.ctx.int(name)
    h.ctx.assume(v >= lo, v <= hi)
    return v


def judge(h, got, m, lo, hi, keep):
    """got: list of index lists. Any sequence is listed once iff admissible."""
    h.check("increasing order", [len(g) for g in got] == sorted(len(g) for g in got))
    h.check("no other order", all(lo <= len(g) <= hi for g in got))
    h.check("indices of objects", all(0 <= j < m for g in got for j in g))
    for n in range(lo, hi + 1):
        rows = [g for g in got if len(g) == n]
        if n == 0:
            h.check("the direct path, once", len(rows) == 1)
            continue
        if m == 0:
            h.check(f"order {n}: nothing to interact with", not rows)
            continue
        s = [ivar(h, f"s{n}_{i}", 0, m - 1) for i in range(n)]
        adm = h.And(*[s[i] != s[i + 1] for i in range(n - 1)])
        for i in range(n):
            for j in range(m):
                if not keep[j]:
                    adm = h.And(adm, s[i] != j)
        hits = [h.And(*[a == b for a, b in zip(s, row)]) for row in rows]
        h.check(f"order {n}: every admissible sequence is a candidate", h.Or(h.Not(adm), *hits))
        h.check(f"order {n}: every candidate is admissible", h.Or(adm, h.Not(h.Or(*hits))))
        if h.sym:
            twice = [z3.If(b, 1, 0) if not isinstance(b, bool) else int(b) for b in hits]
            once = z3.Sum(twice) <= 1 if twice else True
        else:
            once = sum(bool(b) for b in hits) <= 1
        h.check(f"order {n}: no candidate twice", once)


def objects(h, m):
    import equinox as eqx
    Probe, _ = stubs.classes()

    class Tagged(Probe):
        tag: int = eqx.field(static=True, default=0)

    out = []
    for k in range(m):
        _, o = stubs.probe(h, f"o{k}")
        out.append(h.run(lambda: Tagged(cp=o.cp, ci=o.ci, ce=o.ce, tag=k)))
    return out


def scene(h, m, maxo, how):
    from differt2d.scene import Scene
    keep = [True] * m
    kw = {}
    if "filter" in how:
        keep = [h.fork(h.bool(f"keep{k}")) for k in range(m)]
        kw["filter_objects"] = lambda o: keep[o.tag]
    if "order" in how:
        lo = hi = kw["order"] = h.int("order", 0, maxo)
        if "both" in how:
            kw.update(min_order=0, max_order=0)
    elif "default" in how:
        lo, hi = 0, 1
    else:
        lo = kw["min_order"] = h.int("min_order", 0, maxo)
        hi = kw["max_order"] = h.int("max_order", 0, maxo)
    sc = h.run(lambda: Scene(objects=objects(h, m)))
    got = h.run(lambda: sc.all_path_candidates(**kw))
    h.check("index arrays", all(g.ndim == 1 and np.issubdtype(g.dtype, np.integer) for g in got))
    judge(h, [stubs.tolist(g) for g in got], m, lo, hi, keep)


def low_level(h, m, maxo):
    from differt2d.scene import all_path_candidates
    lo, hi = h.int("min_order", 0, maxo), h.int("max_order", 0, maxo)
    drop = tuple(k for k in range(m) if h.fork(h.bool(f"drop{k}")))
    fn = drop if h.fork(h.bool("filtered")) else None
    kw = {} if fn is None else dict(filter_nodes=fn)
    got = h.run(lambda: all_path_candidates(m, lo, hi, **kw))
    judge(h, [stubs.tolist(g) for g in got], m, lo, hi, [fn is None or k not in fn for k in range(m)])


def interval(h, m, maxo):
    """The accepted objects are those between two arbitrary indices."""
    from differt2d.scene import Scene
    a, b = h.int("first accepted", 0, m), h.int("first rejected after", 0, m)
    keep = [a <= k < b for k in range(m)]
    order = h.int("order", 1, maxo)
    sc = h.run(lambda: Scene(objects=objects(h, m)))
    got = h.run(lambda: sc.all_path_candidates(order=order, filter_objects=lambda o: keep[o.tag]))
    judge(h, [stubs.tolist(g) for g in got], m, order, order, keep)


def large(h, m, lo, hi):
    from differt2d.scene import all_path_candidates
    got = h.run(lambda: all_path_candidates(m, lo, hi))
    judge(h, [stubs.tolist(g) for g in got], m, lo, hi, [True] * m)


def large_scene(h, m):
    from differt2d.scene import Scene
    n = h.int("accepted", 0, m)
    sc = h.run(lambda: Scene(objects=objects(h, m)))
    got = h.run(lambda: sc.all_path_candidates(order=1, filter_objects=lambda o: o.tag == n))
    judge(h, [stubs.tolist(g) for g in got], m, 1, 1, [k == n for k in range(m)])


def main(R):
    q = R.tier == "quick"
    top = 4 if q else 5
    for m in range(0, 6 if q else 7):
        o = top if m < 4 else top - 1 if m < 5 else top - 2
        R.run(f"default/{m}", scene, m=m, maxo=o, how="default")
        R.run(f"range/{m}", scene, m=m, maxo=o, how="range")
        R.run(f"single order/{m}", scene, m=m, maxo=o, how="order both")
        R.run(f"filter, single order/{m}", scene, m=m, maxo=o - 1, how="order filter")
    for m in (0, 1, 2, 3):
        R.run(f"filter, range/{m}", scene, m=m, maxo=2, how="filter")
    for m, o in ((6, 2), (9, 1)) if q else ((6, 3), (9, 2), (14, 1)):
        R.run(f"filter, interval/{m}", interval, m=m, maxo=o)
    for m, lo, hi in ((300, 0, 1), (24, 2, 2)) if q else ((300, 0, 1), (1000, 1, 1), (50, 2, 2), (12, 3, 3)):
        R.run(f"large/{m}, orders {lo}-{hi}", large, m=m, lo=lo, hi=hi)
    R.run("large scene", large_scene, m=20 if q else 40)
    R.run("low level/3", low_level, m=3, maxo=2)
