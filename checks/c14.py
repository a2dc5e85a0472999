"""C14: coverage grids equal the point-wise totals."""
from fractions import Fraction as F

import numpy as np

from vf import values as V

from . import stubs
from .c11 import distinct, orders, settings

BOUNDS = [
    "grids from 1x1 to 2x3 (quick) or 3x3 (thorough), and 4x5 and 1x7 for direct paths, with unrelated symbolic coordinates in every cell, 0-2 nodes on the other side, 0-3 objects, orders 0-2 (and 0-4 with two objects), transmitter and receiver grids",
    "stand-in objects, path class and function with symbolic coefficients against the specification of C13; real walls, image method and received power against the library's own point-wise totals (orders 0-1, 1 wall)",
]
ASSUMPTIONS = ["keys: concrete keys; judged on distinctness per candidate"]
_M = []


def marked():
    """Two point classes to ask for."""
    if not _M:
        from differt2d.geometry import Point

        class Marked(Point):
            pass
        _M.append(Marked)
    return _M[0]


def call(sc, side, X, Y, fun, cls=None, **kw):
    if cls is not None:
        kw["transmitter_cls" if side == "tx" else "receiver_cls"] = cls
    f = sc.accumulate_on_transmitters_grid_over_paths if side == "tx" else sc.accumulate_on_receivers_grid_over_paths
    return f(X, Y, fun, **kw)


def cells(h, rows, cols):
    return h.reals("X", rows, cols), h.reals("Y", rows, cols)


def grid(h, side, n, other, m, rows, cols, lo, hi, how, mode, reduce_all=False, keyed=False, cls=False):
    """`n` nodes on the far side; `other` nodes on the side the grid replaces."""
    import jax
    from differt2d.geometry import Point
    _, ProbePath = stubs.classes()
    stx, srx, d, sc = stubs.scene(h, other if side == "tx" else n, n if side == "tx" else other, m)
    X, Y = cells(h, rows, cols)
    kw, tol, patch = settings(h, mode)
    okw, (lo, hi) = orders(h, lo, hi, how)
    gain, a, b = F(1), F(1), F(0)
    pk = {}
    if how != "default":
        gain, a, b = F(3, 2), h.real("a"), h.real("b")
        pk = dict(path_cls_kwargs=dict(gain=1.5), fun_args=(h.arr(a),), fun_kwargs=dict(b=h.arr(b), tag="x"))
    if keyed:
        pk["key"] = jax.random.PRNGKey(3)
    cands = stubs.candidates(m, lo, hi)
    stubs.LOG.clear()
    stubs.NAMING[:] = [h] if h.sym else []

    def go():
        r = call(sc, side, h.arr(X), h.arr(Y), stubs.fun, marked() if cls else None, path_cls=ProbePath,
                 reduce_all=reduce_all, **okw, **pk, **kw)
        return r if reduce_all else list(r)
    try:
        got = h.run(go)
    finally:
        stubs.NAMING.clear()
    far = srx if side == "tx" else stx
    if not reduce_all:
        ok = [g[0] for g in got] == list(far)
        h.check("one map per node of the other side, in order", ok)
        if not ok:
            return
    calls = [e for e in stubs.LOG if e[0] == "fun"]
    want = Point if not cls else marked()
    near = 1 if side == "tx" else 2
    h.check("function gets nodes of the requested class", all(type(c[near]) is want for c in calls))
    h.check("function gets the nodes of the other side", all(type(c[3 - near]) is Point for c in calls))
    h.check("extra keyword arguments", all(c[7] == (dict(tag="x") if how != "default" else {}) for c in calls))
    paths = [e for e in stubs.LOG if e[0] == "path"]
    h.check("path settings passed on", all(p[5] == dict(gain=1.5 if how != "default" else 1.0) for p in paths))
    if keyed and cands and len(paths) == len(cands) * len(far):
        for k in range(len(far)):
            ks = [p[4] for p in paths[k * len(cands):][:len(cands)]]
            h.check("paths get keys", all(x is not None for x in ks))
            if all(x is not None for x in ks):
                distinct(h, ks)
    elif not keyed:
        h.check("no key", all(p[4] is None for p in paths))
    nc = len(cands)
    named = stubs.named_calls(len(far) * nc, (rows, cols))
    Z = h.out(got) if reduce_all else None
    if reduce_all and Z.shape == () and (not far or not cands):
        h.eqs("nothing to sum", Z, F(0))
        return
    maps = [Z] if reduce_all else [h.out(g[1]) for g in got]
    for z in maps:
        h.check("a map has the shape of the grid", z.shape == (rows, cols))
    if any(z.shape != (rows, cols) for z in maps):
        return
    for i in range(rows):
        for j in range(cols):
            cell = [X[i, j], Y[i, j]]
            exp = []
            for k, f in enumerate(far):
                t, r = (cell, srx[f]) if side == "tx" else (stx[f], cell)
                nm = None if named is None else [(v[i, j], w[i, j]) for v, w in named[k * nc:][:nc]]
                exp.append(stubs.total_spec(h, sc, d, cands, t, r, tol, patch, kw, gain, a, b, mode == "approx", nm))
            if reduce_all:
                tot = F(0)
                for e in exp:
                    tot = V.add(tot, e)
                h.eqs(f"sum at cell {i},{j}", [Z[i, j]], [tot])
            else:
                for f, e, z in zip(far, exp, maps):
                    h.eqs(f"cell {i},{j} for {f}", [z[i, j]], [e])


def filtered(h, side):
    from differt2d.scene import Scene
    Probe, ProbePath = stubs.classes()

    class Other(Probe):
        pass

    m = 2
    keep = [h.fork(h.bool(f"keep{k}")) for k in range(m)]
    stx, tx = stubs.points(h, stubs.NAMES_TX[:1])
    srx, rx = stubs.points(h, stubs.NAMES_RX[:1])
    X, Y = cells(h, 1, 2)
    d, objs = zip(*[stubs.probe(h, f"o{k}") for k in range(m)])
    objs = [o if keep[k] else h.run(lambda o=o: Other(cp=o.cp, ci=o.ci, ce=o.ce)) for k, o in enumerate(objs)]
    sc = h.run(lambda: Scene(transmitters=tx, receivers=rx, objects=objs))
    tol, patch = h.real("tol"), h.real("patch")
    kw = dict(approx=False, tol=h.arr(tol), patch=h.arr(patch))
    got = h.run(lambda: call(sc, side, h.arr(X), h.arr(Y), stubs.fun, reduce_all=True, path_cls=ProbePath, max_order=2,
                             filter_objects=lambda o: not isinstance(o, Other), **kw))
    cands = [c for c in stubs.candidates(m, 0, 2) if all(keep[j] for j in c)]
    Z = h.out(got)
    h.check("shape", Z.shape == (1, 2))
    if Z.shape != (1, 2):
        return
    (t,), (r,) = stx.values(), srx.values()
    for j in (0, 1):
        c = [X[0, j], Y[0, j]]
        t, r = (c, r) if side == "tx" else (t, c)
        h.eqs(f"only unfiltered candidates count {j}", [Z[0, j]],
              [stubs.total_spec(h, sc, d, cands, t, r, tol, patch, kw)])


def walls(h, side, approx, rows, cols):
    """Against the library's point-wise totals, with real walls."""
    from differt2d.geometry import Point, Wall
    from differt2d.scene import Scene
    from differt2d.utils import received_power
    stx, tx = stubs.points(h, stubs.NAMES_TX[:1])
    srx, rx = stubs.points(h, stubs.NAMES_RX[:1])
    w = h.reals("w", 2, 2)
    h.assume(h.Or(w[0][0] != w[1][0], w[0][1] != w[1][1]))
    X, Y = cells(h, rows, cols)
    kw = dict(fun_kwargs=dict(r_coef=0.25), approx=approx)
    sc = h.run(lambda: Scene(transmitters=tx, receivers=rx, objects=[Wall(xys=h.arr(w))]))
    got = h.run(lambda: list(call(sc, side, h.arr(X), h.arr(Y), received_power, **kw)))
    h.check("one map", [g[0] for g in got] == (list(srx) if side == "tx" else list(stx)))
    Z = h.out(got[0][1])
    h.check("shape", Z.shape == (rows, cols))
    for i in range(rows):
        for j in range(cols):
            def one(i=i, j=j):
                p = Point(xy=h.arr([X[i, j], Y[i, j]]))
                s = sc.with_transmitters(cell=p) if side == "tx" else sc.with_receivers(cell=p)
                return s.accumulate_over_paths(received_power, reduce_all=True, **kw)
            h.eqs(f"power at cell {i},{j}", [Z[i, j]], [h.elem(h.run(one))])


def main(R):
    q = R.tier == "quick"
    for s in ("tx", "rx"):
        for n, o, m, r, c, lo, hi, how, mode, red, key, cls in (
                (1, 1, 1, 2, 3, 0, 1, "default", "default", False, False, False),
                (2, 2, 1, 2, 2, 0, 1, "range", "exact", False, True, True),
                (2, 0, 1, 1, 2, 0, 1, "range", "exact", True, False, False),
                (1, 2, 2, 2, 1, 0, 2, "range", "exact", False, False, False),
                (2, 1, 2, 1, 2, 2, 2, "order", "exact", True, True, True),
                (2, 1, 1, 3, 2, 0, 0, "order", "exact", False, False, False),
                (1, 1, 2, 1, 2, 1, 1, "order", "approx", False, False, True),
                (2, 1, 1, 2, 1, 0, 1, "range", "approx", True, True, False),
                (1, 1, 3, 1, 1, 1, 2, "range", "exact", False, False, False),
                (2, 1, 0, 1, 2, 1, 1, "order", "exact", False, False, False),
                (0, 1, 1, 2, 2, 0, 1, "range", "exact", True, False, False),
                (1, 1, 1, 4, 5, 0, 0, "order", "exact", False, True, False),
                (3, 1, 0, 1, 7, 0, 0, "order", "exact", True, False, True),
                (1, 1, 2, 1, 1, 0, 4, "range", "exact", False, True, True),
                *(() if q else ((3, 1, 2, 3, 3, 0, 2, "range", "exact", False, True, True),
                                (3, 1, 2, 2, 3, 0, 2, "range", "exact", True, False, False)))):
            R.run(f"{s} grid/{n}x{o}x{m} {r}x{c} {how} {lo}-{hi} {mode} reduce={red}", grid, side=s, n=n, other=o, m=m,
                  rows=r, cols=c, lo=lo, hi=hi, how=how, mode=mode, reduce_all=red, keyed=key, cls=cls)
        R.run(f"{s} filter", filtered, side=s)
        for ap in (False, True):
            R.run(f"{s} walls/{ap}", walls, side=s, approx=ap, rows=1, cols=2 if not q else 1 + (not ap))
