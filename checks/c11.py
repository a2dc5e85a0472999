"""C11: tracing enumerates every candidate once and keeps the valid ones."""
from fractions import Fraction as F

import numpy as np

from vf import values as V

from . import stubs

BOUNDS = [
    "0-2 transmitters x 0-2 receivers (and 3 x 3), 0-3 objects (and 9), orders 0-2 (3 in thorough, and 0-5 with two objects); stand-in objects and path class with symbolic answers, and real walls with the image method for orders 0-1 (2 in thorough)",
    "keys: concrete keys; distinctness judged on the derived keys",
]
ASSUMPTIONS = ["path candidates are those of C12 (the Rust graph library runs concretely)"]


def settings(h, mode):
    """Caller settings -> (keyword arguments, spec tol, spec patch)."""
    kw, tol, patch = {}, F(float(np.float32(1e-2))), F(0)
    if mode != "default":
        tol, patch = h.real("tol"), h.real("patch")
        kw.update(tol=h.arr(tol), patch=h.arr(patch))
    if mode == "exact":
        kw["approx"] = False
    if mode == "approx":
        kw.update(approx=True, alpha=h.arr(h.real("alpha", 1, 1000)))
    return kw, tol, patch


def orders(h, lo, hi, how):
    if how == "range":
        return dict(min_order=lo, max_order=hi), (lo, hi)
    if how == "order":
        return dict(order=hi), (hi, hi)
    return {}, (0, 1)


def expected(stx, srx, m, lo, hi):
    return [(t, r, c) for t in stx for r in srx for c in stubs.candidates(m, lo, hi)]


def distinct(h, keys):
    ks = [tuple(np.asarray(k).reshape(-1).tolist()) for k in keys]
    h.check("every path has its own key", len(set(ks)) == len(ks))


def enumerate_(h, ntx, nrx, m, lo, hi, how, mode, keyed):
    import jax
    _, ProbePath = stubs.classes()
    stx, srx, d, sc = stubs.scene(h, ntx, nrx, m)
    kw, tol, patch = settings(h, mode)
    okw, (lo, hi) = orders(h, lo, hi, how)
    gain = F(1)
    pk = {}
    if how != "default":
        gain = F(3, 2)
        pk = dict(path_cls_kwargs=dict(gain=1.5, extra="x"))
    key = jax.random.PRNGKey(7) if keyed else None
    stubs.LOG.clear()
    got = h.run(lambda: list(sc.all_paths(path_cls=ProbePath, key=key, **okw, **pk, **kw)))
    log = list(stubs.LOG)
    exp = expected(stx, srx, m, lo, hi)
    h.check("one result per transmitter, receiver and candidate", len(got) == len(exp))
    if len(got) != len(exp):
        return
    h.check("names and candidates in order", all(
        (g[0], g[1], stubs.tolist(g[4])) == e for g, e in zip(got, exp)))
    h.check("one path built per result", len(log) == len(exp))
    if any((g[0], g[1], stubs.tolist(g[4])) != e for g, e in zip(got, exp)) or len(log) != len(exp):
        return
    for i, ((t, r, c), g, l) in enumerate(zip(exp, got, log)):
        pts, loss = stubs.probe_path(d, c, stx[t], srx[r], gain)
        h.check("path of the requested class", type(g[3]) is ProbePath)
        h.eqs(f"path {i} is built from its transmitter, objects and receiver", h.out(g[3].xys), pts)
        h.eqs(f"loss {i}", h.out(g[3].loss), loss)
        h.check("path settings passed on", l[5] == (dict(gain=1.5, extra="x") if pk else dict(gain=1.0)))
        if mode != "approx":
            h.check(f"validity {i}", h.Iff(h.elem(g[2]), stubs.valid_exact(h, d, c, pts, loss, tol, patch)))
        else:
            h.eq(f"validity {i}", h.elem(g[2]), stubs.valid_by_library(h, sc, c, pts, loss, kw))
    if keyed:
        distinct(h, [l[4] for l in log])
        again = []
        stubs.LOG.clear()
        h.run(lambda: list(sc.all_paths(path_cls=ProbePath, key=key, **okw, **pk, **kw)))
        again = [l[4] for l in stubs.LOG]
        h.check("keys are a function of the given key", all(
            np.array_equal(np.asarray(a), np.asarray(b[4])) for a, b in zip(again, log)))
    else:
        h.check("no key", all(l[4] is None for l in log))


def valid_paths(h, ntx, nrx, m, lo, hi, mode):
    _, ProbePath = stubs.classes()
    stx, srx, d, sc = stubs.scene(h, ntx, nrx, m)
    kw, tol, patch = settings(h, mode)
    kw.setdefault("approx", False)
    got = h.run(lambda: list(sc.all_valid_paths(path_cls=ProbePath, min_order=lo, max_order=hi, **kw)))
    exp = expected(stx, srx, m, lo, hi)
    got_ids = [(g[0], g[1], stubs.tolist(g[3])) for g in got]
    pos = [exp.index(g) if g in exp else -1 for g in got_ids]
    h.check("a sub-sequence of all paths", all(p >= 0 for p in pos) and pos == sorted(set(pos)))
    for i, (t, r, c) in enumerate(exp):
        pts, loss = stubs.probe_path(d, c, stx[t], srx[r])
        if mode == "approx":
            v = stubs.valid_by_library(h, sc, c, pts, loss, kw)
            true, lo_, hi_ = V.cmp("gt", v, F(1, 2)), V.cmp("gt", v, F(501, 1000)), V.cmp("gt", v, F(499, 1000))
        else:
            true = lo_ = hi_ = stubs.valid_exact(h, d, c, pts, loss, tol, patch)
        if i in pos:
            h.check(f"path {i} listed only if valid", true, loose=hi_)
            h.eqs(f"path {i}", h.out(got[pos.index(i)][2].xys), pts)
        else:
            h.check(f"path {i} left out only if not valid", h.Not(true), loose=h.Not(lo_))


def filtered(h, m):
    """Only candidates avoiding rejected objects are traced, but every object obstructs."""
    from differt2d.geometry import Vertex
    from differt2d.scene import Scene
    _, ProbePath = stubs.classes()
    Probe, _ = stubs.classes()

    class Other(Probe):
        pass

    keep = [h.fork(h.bool(f"keep{k}")) for k in range(m)]
    stx, tx = stubs.points(h, stubs.NAMES_TX[:1])
    srx, rx = stubs.points(h, stubs.NAMES_RX[:1])
    d, objs = zip(*[stubs.probe(h, f"o{k}") for k in range(m)])
    objs = [o if keep[k] else h.run(lambda o=o: Other(cp=o.cp, ci=o.ci, ce=o.ce)) for k, o in enumerate(objs)]
    sc = h.run(lambda: Scene(transmitters=tx, receivers=rx, objects=objs))
    tol, patch = h.real("tol"), h.real("patch")
    got = h.run(lambda: list(sc.all_paths(path_cls=ProbePath, max_order=2, approx=False, tol=h.arr(tol), patch=h.arr(patch),
                                          filter_objects=lambda o: not isinstance(o, Other))))
    exp = [c for c in stubs.candidates(m, 0, 2) if all(keep[j] for j in c)]
    ids = [stubs.tolist(g[4]) for g in got]
    h.check("candidates avoid the rejected objects", sorted(ids) == sorted(exp) and [len(i) for i in ids] == sorted(len(i) for i in ids))
    (t,), (r,) = stx.values(), srx.values()
    for g, c in zip(got, ids):
        if c not in exp:
            continue
        pts, loss = stubs.probe_path(d, c, t, r)
        h.eqs(f"path {c}", h.out(g[3].xys), pts)
        h.check(f"validity {c} against all objects", h.Iff(h.elem(g[2]), stubs.valid_exact(h, d, c, pts, loss, tol, patch)))


def walls(h, m, hi, ntx=1, nrx=1, default=True):
    """End to end: real walls, image method."""
    import jax.numpy as jnp
    from differt2d.geometry import ImagePath, Wall
    from differt2d.scene import Scene
    stx, tx = stubs.points(h, stubs.NAMES_TX[:ntx])
    srx, rx = stubs.points(h, stubs.NAMES_RX[:nrx])
    ws = [h.reals(f"w{k}", 2, 2) for k in range(m)]
    for w in ws:
        h.assume(h.Or(w[0][0] != w[1][0], w[0][1] != w[1][1]))
        h.prefer(h.Or(w[1][0] - w[0][0] >= 1, w[1][1] - w[0][1] >= 1))
    objs = [h.run(lambda w=w: Wall(xys=h.arr(w))) for w in ws]
    sc = h.run(lambda: Scene(transmitters=tx, receivers=rx, objects=objs))
    kw = {} if default else dict(max_order=hi)
    got = h.run(lambda: list(sc.all_paths(approx=False, **kw)))
    exp = expected(stx, srx, m, 0, 1 if default else hi)
    ok = len(got) == len(exp) and all((g[0], g[1], stubs.tolist(g[4])) == e for g, e in zip(got, exp))
    h.check("enumeration", ok)
    if not ok:
        return
    for i, ((t, r, c), g) in enumerate(zip(exp, got)):
        h.check("image method by default", type(g[3]) is ImagePath)

        def one():
            p = ImagePath.from_tx_objects_rx(h.arr(stx[t]), [objs[k] for k in c], h.arr(srx[r]))
            return p.xys, p.loss, p.is_valid(objs, jnp.array(c, dtype=int), [objs[k] for k in c], approx=False)
        x, l, v = h.run(one)
        h.eqs(f"points {i}", h.out(g[3].xys), h.out(x))
        h.eqs(f"loss {i}", h.out(g[3].loss), h.out(l))
        h.check(f"validity {i}", h.Iff(h.elem(g[2]), h.elem(v)))


def main(R):
    q = R.tier == "quick"
    for a, b, m, lo, hi, how, mode, keyed in (
            (1, 1, 2, 0, 1, "default", "default", False),
            (2, 1, 2, 0, 2, "range", "exact", False),
            (1, 2, 1, 1, 2, "range", "exact", True),
            (2, 2, 2, 0, 1, "range", "exact", True),
            (2, 2, 1, 0, 1, "range", "default", True),
            (2, 1, 2, 2, 2, "order", "exact", True),
            (1, 2, 2, 0, 0, "order", "exact", False),
            (1, 1, 3, 1, 2, "range", "exact", True),
            (1, 1, 2, 0, 2, "range", "approx", True),
            (2, 2, 1, 0, 1, "range", "approx", False),
            (0, 2, 2, 0, 1, "range", "exact", True),
            (2, 0, 1, 0, 1, "range", "exact", False),
            (1, 1, 0, 0, 1, "range", "exact", False),
            (1, 1, 2, 2, 1, "range", "exact", True),
            (3, 3, 1, 0, 1, "range", "exact", True),
            (1, 1, 2, 0, 5, "range", "exact", True),
            (1, 1, 9, 0, 1, "range", "exact", True),
            *(() if q else ((2, 2, 2, 0, 3, "range", "exact", True), (3, 3, 3, 0, 2, "range", "exact", True)))):
        R.run(f"all paths/{a}x{b}x{m} {how} {lo}-{hi} {mode} key={keyed}", enumerate_, ntx=a, nrx=b, m=m, lo=lo, hi=hi,
              how=how, mode=mode, keyed=keyed)
    for a, b, m, lo, hi, mode in ((1, 1, 1, 0, 1, "exact"), (2, 1, 1, 0, 1, "exact"), (1, 2, 2, 1, 1, "default"),
                                  (1, 1, 1, 0, 1, "approx"), (1, 1, 2, 1, 1, "approx")):
        R.run(f"valid paths/{a}x{b}x{m} {lo}-{hi} {mode}", valid_paths, ntx=a, nrx=b, m=m, lo=lo, hi=hi, mode=mode)
    R.run("filter", filtered, m=3)
    R.run("walls/default", walls, m=2, hi=1)
    R.run("walls/two by two", walls, m=1, hi=1, ntx=2, nrx=2)
    if not q:
        R.run("walls/order 2", walls, m=2, hi=2, default=False)
