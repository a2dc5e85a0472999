"""C15: reported gradients are the derivatives of the reported values."""
from fractions import Fraction as F

import numpy as np

from vf import diff
from vf import values as V

from . import stubs
from .c11 import settings
from .c14 import call, cells, marked

BOUNDS = [
    "grids up to 2x2 (3x4 for direct paths) with unrelated symbolic coordinates, 0-2 nodes on the other side, 0-2 objects, orders 0-2 (0-3 with two objects), unreduced and summed, gradient alone and value with gradient, exact and approximate mode (hard sigmoid)",
    "stand-in objects and path class, accumulated function quadratic in everything it is given, with symbolic coefficients; away from the kinks of the value in approximate mode",
    "finiteness: line of sight past one real wall and one reflection on it, received power, non-degenerate geometry",
]
ASSUMPTIONS = ["oracle: symbolic differentiation (vf/diff.py) of the specification of the value, independent of JAX's differentiation"]


def fun(tx, rx, path, objects, a=1.0):
    """Quadratic in everything."""
    t, r, x = tx.xy, rx.xy, path.xys
    v = a * t[0] * t[1] + 0.5 * t[0] * r[1] - 0.25 * r[0] * r[1] + 0.75 * t[1] + 1.25 * r[0] + path.loss * t[0]
    for k in range(x.shape[0] - 1):
        v = v + (k + 1) * x[k, 0] * x[k + 1, 1] - 0.5 * x[k + 1, 0] * x[k, 0]
    for k, o in enumerate(objects):
        v = v + (k + 3) * o.cp[0] * r[0]
    return stubs.named("value", v)


def fun_spec(d, cand, t, r, x, loss, a):
    v = a * t[0] * t[1] + F(1, 2) * t[0] * r[1] - F(1, 4) * r[0] * r[1] + F(3, 4) * t[1] + F(5, 4) * r[0] + loss * t[0]
    for k in range(len(x) - 1):
        v = v + (k + 1) * x[k][0] * x[k + 1][1] - F(1, 2) * x[k + 1][0] * x[k][0]
    for k, c in enumerate(cand):
        v = v + (k + 3) * d[c]["cp"][0] * r[0]
    return v


def spec(hs, side, n, other, m, rows, cols, cands, mode, reduce_all, named=None):
    """Values and derivatives of every map, per cell: [map][cell] -> (v, dx, dy)."""
    stx, srx, d, sc = stubs.scene(hs, other if side == "tx" else n, n if side == "tx" else other, m)
    X, Y = cells(hs, rows, cols)
    kw, tol, patch = settings(hs, mode)
    a = hs.real("a")
    far = srx if side == "tx" else stx
    kinks = []
    maps = []
    for k, f in enumerate(far):
        one, two = [], []
        for i in range(rows):
            for j in range(cols):
                cell = [X[i, j], Y[i, j]]
                ties = []
                D = [diff.Diff(c, ties if mode == "approx" else None) for c in cell]
                t, r = (cell, srx[f]) if side == "tx" else (stx[f], cell)
                tot = [F(0)] * 3
                for q, c in enumerate(cands):
                    pts, loss = stubs.probe_path(d, c, t, r)
                    w = fun_spec(d, c, t, r, pts, loss, a)
                    dw = [e(w) for e in D]
                    cw = w
                    if mode == "approx":
                        v = cv = stubs.valid_by_library(hs, sc, c, pts, loss, kw)
                        dv = [e(v) for e in D]
                    else:
                        v = cv = stubs.valid_exact(hs, d, c, pts, loss, tol, patch)
                    if named is not None:
                        cv, cw = (z[i, j] for z in named[k * len(cands) + q])
                        hs.eqs("named function value", [cw], [w])
                        if mode == "approx":
                            hs.eqs("named validity", [cv], [v])
                        else:
                            hs.check("named validity", hs.Iff(cv, v))
                    if mode == "approx":
                        add = [V.mul(cv, cw)] + [V.add(V.mul(dv[u], cw), V.mul(cv, dw[u])) for u in (0, 1)]
                    else:
                        add = [V.f_ite(cv, z, F(0)) for z in (cw, *dw)]
                    tot = [V.add(s, z) for s, z in zip(tot, add)]
                one.append(tot)
                two.append(ties)
        maps.append(one)
        kinks.append(two)
    if reduce_all:
        maps = [[[sum3([mp[c][u] for mp in maps]) for u in range(3)] for c in range(rows * cols)]]
        kinks = [[sum([k[c] for k in kinks], []) for c in range(rows * cols)]]
    return [x for m, k in zip(maps, kinks) for x in zip(m, k)]


def sum3(xs):
    r = F(0)
    for x in xs:
        r = V.add(r, x)
    return r


def grads(h, side, n, other, m, rows, cols, lo, hi, mode, reduce_all, both, cls=False):
    _, ProbePath = stubs.classes()
    stx, srx, d, sc = stubs.scene(h, other if side == "tx" else n, n if side == "tx" else other, m)
    X, Y = cells(h, rows, cols)
    kw, tol, patch = settings(h, mode)
    a = h.real("a")
    cands = stubs.candidates(m, lo, hi)
    far = srx if side == "tx" else stx
    stubs.LOG.clear()
    stubs.NAMING[:] = [h] if h.sym else []

    def go():
        r = call(sc, side, h.arr(X), h.arr(Y), fun, marked() if cls else None, fun_args=(h.arr(a),), path_cls=ProbePath,
                 reduce_all=reduce_all, min_order=lo, max_order=hi,
                 **(dict(value_and_grad=True) if both else dict(grad=True)), **kw)
        return r if reduce_all else list(r)
    try:
        got = h.run(go)
    finally:
        stubs.NAMING.clear()
    if not reduce_all:
        ok = [g[0] for g in got] == list(far)
        h.check("one result per node of the other side, in order", ok)
        if not ok:
            return
    res = [got] if reduce_all else [g[1] for g in got]
    if both:
        ok = all(isinstance(r, tuple) and len(r) == 2 for r in res)
        h.check("values and gradients are pairs", ok)
        if not ok:
            return
    Z = [h.out(r[0]) for r in res] if both else [None] * len(res)
    G = [h.out(r[1] if both else r) for r in res]
    if reduce_all and G[0].shape == () and not far:
        h.eqs("nothing to sum", G[0], F(0))
        return
    ok = all(g.shape == (rows, cols, 2) for g in G) and all(z is None or z.shape == (rows, cols) for z in Z)
    h.check("shapes: the grid's, and a last axis of size two for gradients", ok)
    if not ok:
        return
    named = stubs.named_calls(len(far) * len(cands), (rows, cols)) if h.sym else None
    exp = diff.oracle(h, lambda hs: spec(hs, side, n, other, m, rows, cols, cands, mode, reduce_all, named))
    exp = iter(exp)
    for k, (z, g) in enumerate(zip(Z, G)):
        for i in range(rows):
            for j in range(cols):
                (v, *dv), smooth = next(exp)
                if z is not None:
                    h.eqs(f"value {k} at {i},{j}", [z[i, j]], [v])
                h.eqs(f"gradient {k} at {i},{j}", list(g[i, j]), dv, pre=smooth)


def off(w, p):
    """Twice the signed area of the triangle wall-point."""
    return (w[1][0] - w[0][0]) * (p[1] - w[0][1]) - (w[1][1] - w[0][1]) * (p[0] - w[0][0])


def finite(h, side, order, wall=None):
    """No infinities or NaN in the gradient of the received power."""
    from differt2d.geometry import Wall
    from differt2d.scene import Scene
    from differt2d.utils import received_power
    stx, tx = stubs.points(h, stubs.NAMES_TX[:1])
    srx, rx = stubs.points(h, stubs.NAMES_RX[:1])
    w = h.reals("w", 2, 2) if wall is None else [[F(v) for v in p] for p in wall]
    X, Y = cells(h, 1, 1)
    c = [X[0, 0], Y[0, 0]]
    o = list((srx if side == "tx" else stx).values())[0]
    # not degenerate: a wall of positive length, both ends off its line and
    # apart from each other
    h.assume(h.Or(w[0][0] != w[1][0], w[0][1] != w[1][1]))
    a, b = off(w, c), off(w, o)
    dx, dy = c[0] - o[0], c[1] - o[1]
    len2 = (w[1][0] - w[0][0]) * (w[1][0] - w[0][0]) + (w[1][1] - w[0][1]) * (w[1][1] - w[0][1])
    sep = F(1, 64)
    h.assume(a * a >= sep * len2, b * b >= sep * len2, dx * dx + dy * dy >= sep, len2 >= sep)
    sc = h.run(lambda: Scene(transmitters=tx, receivers=rx, objects=[Wall(xys=h.arr(w))]))
    got = h.run(lambda: list(call(sc, side, h.arr(X), h.arr(Y), received_power, grad=True, order=order,
                                  fun_kwargs=dict(r_coef=0.25), approx=True)))
    g = h.out(got[0][1])
    h.check("shape", g.shape == (1, 1, 2))
    for i in (0, 1):
        h.finite(f"derivative {i}", np.array([g[0, 0, i]], dtype=object))


def main(R):
    q = R.tier == "quick"
    R.split_s = 10 if q else 120
    for s in ("tx", "rx"):
        for n, o, m, r, c, lo, hi, mode, red, both, cls in (
                (1, 1, 1, 2, 2, 0, 1, "default", False, False, False),
                (2, 1, 1, 1, 2, 0, 1, "exact", False, True, True),
                (2, 2, 1, 2, 1, 0, 1, "exact", True, False, False),
                (2, 0, 2, 1, 1, 1, 2, "exact", True, True, False),
                (1, 0, 1, 1, 2, 0, 0, "approx", False, True, False),
                (1, 1, 1, 1, 1, 1, 1, "approx", False, False, True),
                (2, 0, 0, 2, 1, 0, 0, "approx", True, True, False),
                (0, 1, 1, 1, 2, 0, 1, "exact", True, False, False),
                (1, 1, 0, 3, 4, 0, 0, "exact", False, True, False),
                (3, 1, 0, 1, 2, 0, 0, "exact", True, False, True),
                (1, 1, 2, 1, 1, 0, 3, "exact", False, True, True),
                *(() if q else ((1, 0, 1, 1, 2, 0, 1, "approx", False, True, False),
                                (2, 1, 1, 1, 1, 0, 1, "approx", True, False, True),
                                (2, 1, 2, 2, 2, 0, 2, "exact", False, True, True)))):
            R.run(f"{s} grid/{n}x{o}x{m} {r}x{c} {lo}-{hi} {mode} reduce={red} value={both}", grads, side=s, n=n, other=o, m=m,
                  rows=r, cols=c, lo=lo, hi=hi, mode=mode, reduce_all=red, both=both, cls=cls)
        R.run(f"{s} finite/direct", finite, side=s, order=0)
        for wall in (((0, 0), (1, 0)), ((1, 2), (1, -1)), *(() if q else (((0, 0), (4, 3)),))):
            R.run(f"{s} finite/reflected on {wall}", finite, side=s, order=1, wall=wall)
