"""C13: accumulated totals."""
from fractions import Fraction as F

import numpy as np

from vf import values as V

from . import stubs
from .c11 import orders, settings

BOUNDS = [
    "0-2 transmitters x 0-2 receivers (and 3 x 3), 0-3 objects (and 7), orders 0-2 (and 0-5 with two objects); stand-in objects, path class and function with symbolic coefficients; real walls with the received power for orders 0-1",
]


def accumulate(h, ntx, nrx, m, lo, hi, how, mode, reduce_all, keyed=False):
    import jax
    _, ProbePath = stubs.classes()
    stx, srx, d, sc = stubs.scene(h, ntx, nrx, m)
    kw, tol, patch = settings(h, mode)
    okw, (lo, hi) = orders(h, lo, hi, how)
    gain, a, b = F(1), F(1), F(0)
    pk = {}
    if how != "default":
        gain, a, b = F(3, 2), h.real("a"), h.real("b")
        pk = dict(path_cls_kwargs=dict(gain=1.5), fun_args=(h.arr(a),), fun_kwargs=dict(b=h.arr(b), tag="x"))
    if keyed:
        pk["key"] = jax.random.PRNGKey(3)
    cands = stubs.candidates(m, lo, hi)
    stubs.LOG.clear()
    stubs.NAMING[:] = [h] if h.sym else []

    def go():
        r = sc.accumulate_over_paths(stubs.fun, path_cls=ProbePath, reduce_all=reduce_all, **okw, **pk, **kw)
        return r if reduce_all else list(r)
    got = h.run(go)
    stubs.NAMING.clear()
    calls = [e for e in stubs.LOG if e[0] == "fun"]
    want = [(t, r) for t in stx for r in srx]
    n = len(cands)
    named = stubs.named_calls(len(want) * n)
    exp = [stubs.total_spec(h, sc, d, cands, stx[t], srx[r], tol, patch, kw, gain, a, b, mode == "approx",
                            None if named is None else named[k * n:][:n]) for k, (t, r) in enumerate(want)]
    h.check("extra keyword arguments", all(c[7] == (dict(tag="x") if how != "default" else {}) for c in calls))
    h.check("path settings passed on", all(
        e[5] == dict(gain=1.5 if how != "default" else 1.0) for e in stubs.LOG if e[0] == "path"))
    if reduce_all:
        tot = F(0)
        for e in exp:
            tot = V.add(tot, e)
        h.eqs("total over all pairs", h.out(got), tot)
    else:
        ok = [(g[0], g[1]) for g in got] == want
        h.check("one entry per pair, in order", ok)
        if not ok:
            return
        for g, e, (t, r) in zip(got, exp, want):
            h.eqs(f"sum for {t} - {r}", h.out(g[2]), e)
    if len(calls) == len(want) * len(cands):
        for k, c in enumerate(calls):
            (t, r) = want[k // len(cands)]
            cand = cands[k % len(cands)]
            h.eqs("transmitter handed over", h.out(c[1].xy), stx[t])
            h.eqs("receiver handed over", h.out(c[2].xy), srx[r])
            h.check("path of the requested class", type(c[3]) is ProbePath)
            h.check("as many interacting objects as interactions", len(c[4]) == len(cand))


def filtered(h):
    from differt2d.scene import Scene
    Probe, ProbePath = stubs.classes()

    class Other(Probe):
        pass

    m = 2
    keep = [h.fork(h.bool(f"keep{k}")) for k in range(m)]
    stx, tx = stubs.points(h, stubs.NAMES_TX[:1])
    srx, rx = stubs.points(h, stubs.NAMES_RX[:1])
    d, objs = zip(*[stubs.probe(h, f"o{k}") for k in range(m)])
    objs = [o if keep[k] else h.run(lambda o=o: Other(cp=o.cp, ci=o.ci, ce=o.ce)) for k, o in enumerate(objs)]
    sc = h.run(lambda: Scene(transmitters=tx, receivers=rx, objects=objs))
    tol, patch = h.real("tol"), h.real("patch")
    kw = dict(approx=False, tol=h.arr(tol), patch=h.arr(patch))
    got = h.run(lambda: sc.accumulate_over_paths(stubs.fun, reduce_all=True, path_cls=ProbePath, max_order=2,
                                                 filter_objects=lambda o: not isinstance(o, Other), **kw))
    cands = [c for c in stubs.candidates(m, 0, 2) if all(keep[j] for j in c)]
    (t,), (r,) = stx.values(), srx.values()
    h.eqs("only unfiltered candidates count", h.out(got), stubs.total_spec(h, sc, d, cands, t, r, tol, patch, kw))


def walls(h, m, approx):
    """Real walls, image method, received power."""
    import jax.numpy as jnp
    from differt2d.geometry import ImagePath, Wall
    from differt2d.scene import Scene
    from differt2d.utils import received_power
    stx, tx = stubs.points(h, stubs.NAMES_TX[:1])
    srx, rx = stubs.points(h, stubs.NAMES_RX[:2])
    ws = [h.reals(f"w{k}", 2, 2) for k in range(m)]
    for w in ws:
        h.assume(h.Or(w[0][0] != w[1][0], w[0][1] != w[1][1]))
    objs = [h.run(lambda w=w: Wall(xys=h.arr(w))) for w in ws]
    sc = h.run(lambda: Scene(transmitters=tx, receivers=rx, objects=objs))
    got = h.run(lambda: list(sc.accumulate_over_paths(received_power, fun_kwargs=dict(r_coef=0.25), approx=approx)))
    h.check("pairs", [g[1] for g in got] == list(srx))
    for g, r in zip(got, srx):
        (t,) = stx.values()
        tot = F(0)
        for c in stubs.candidates(m, 0, 1):
            def one():
                p = ImagePath.from_tx_objects_rx(h.arr(t), [objs[k] for k in c], h.arr(srx[r]))
                v = p.is_valid(objs, jnp.array(c, dtype=int), [objs[k] for k in c], approx=approx)
                return v * received_power(None, None, p, [], r_coef=0.25)
            tot = V.add(tot, h.elem(h.run(one)))
        h.eqs(f"power at {r}", h.out(g[2]), tot)


def main(R):
    q = R.tier == "quick"
    for a, b, m, lo, hi, how, mode, red, key in (
            (1, 1, 2, 0, 1, "default", "default", False, False),
            (2, 2, 1, 0, 1, "range", "exact", False, True),
            (2, 2, 1, 0, 1, "range", "exact", True, False),
            (1, 2, 2, 0, 2, "range", "exact", False, False),
            (2, 1, 2, 2, 2, "order", "exact", True, False),
            (2, 1, 2, 0, 0, "order", "exact", False, True),
            (1, 2, 2, 1, 1, "order", "approx", False, False),
            (2, 1, 1, 0, 1, "range", "approx", True, True),
            (1, 1, 3, 1, 2, "range", "exact", False, False),
            (2, 2, 0, 1, 1, "order", "exact", False, False),
            (2, 2, 0, 1, 1, "order", "exact", True, False),
            (1, 1, 2, 2, 1, "range", "exact", False, False),
            (0, 2, 1, 0, 1, "range", "exact", False, False),
            (2, 0, 1, 0, 1, "range", "exact", True, False),
            (3, 3, 1, 0, 1, "range", "exact", False, True),
            (3, 2, 0, 0, 0, "order", "exact", True, False),
            (1, 1, 2, 0, 5, "range", "exact", False, True),
            (1, 1, 7, 0, 1, "range", "exact", False, False),
            *(() if q else ((3, 3, 2, 0, 2, "range", "exact", False, True), (2, 2, 3, 0, 2, "range", "exact", True, False)))):
        R.run(f"totals/{a}x{b}x{m} {how} {lo}-{hi} {mode} reduce={red}", accumulate, ntx=a, nrx=b, m=m, lo=lo, hi=hi,
              how=how, mode=mode, reduce_all=red, keyed=key)
    R.run("filter", filtered)
    for ap in (False, True):
        R.run(f"walls/{ap}", walls, m=1, approx=ap)
    if not q:
        R.run("walls/two", walls, m=2, approx=False)
