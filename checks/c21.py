"""C21: Fermat and min-path tracing are consistent with what was optimised."""
import inspect
from contextlib import contextmanager
from fractions import Fraction as F

import numpy as np

from vf import rnd
from vf import values as V

from . import stubs

BOUNDS = [
    "0-3 and 6 (thorough 4) objects among walls, RIS, vertices and stand-in objects (0, 1 or 2 parameters, repetitions included), symbolic geometry; the optimiser returns an arbitrary point (stand-in), and the real optimiser with 0-1 steps and 1-2 starts from arbitrary draws",
]
ASSUMPTIONS = [
    "stand-in optimiser: returns an arbitrary point together with the objective's value there (C20); run without jit so that the objective can be examined",
]
COUNT = dict(W=1, R=1, V=0, P=2)


def objects(h, kinds):
    """[(object, point at given parameters)]."""
    from differt2d.geometry import RIS, Vertex, Wall
    out, pool = [], {}
    for k, kind in enumerate(kinds):
        if kind == "=":  # the first object again
            out.append(out[0])
            continue
        if kind == "P":
            _, o = stubs.probe(h, f"o{k}")
            out.append((o, lambda t: list(t), 2))
        elif kind == "V":
            p = list(h.reals(f"o{k}", 2))
            out.append((h.run(lambda: Vertex(xy=h.arr(p))), lambda t, p=p: p, 0))
        else:
            w = h.reals(f"o{k}", 2, 2)
            h.prefer(w[1][0] - w[0][0] >= 1)
            o = h.run(lambda: (Wall if kind == "W" else RIS)(xys=h.arr(w)))
            out.append((o, lambda t, w=w: [w[0][i] + t[0] * (w[1][i] - w[0][i]) for i in (0, 1)], 1))
    return out


def place(objs, theta, t, r):
    pts, j = [list(t)], 0
    for _, f, n in objs:
        pts.append(f(theta[j:j + n]))
        j += n
    return pts + [list(r)]


def interaction(h, objs, pts):
    """Sum of the objects' own interaction losses (C07)."""
    tot = F(0)
    for i, (o, _, _) in enumerate(objs):
        tot = V.add(tot, h.elem(h.run(lambda: o.evaluate_cartesian(h.arr(pts[i:i + 3])))))
    return tot


def length(h, pts):
    from differt2d.geometry import path_length
    return h.elem(h.run(lambda: path_length(h.arr(pts))))


def ends(h, as_points):
    from differt2d.geometry import Point
    t, r = [h.real("t0"), h.real("t1")], [h.real("r0"), h.real("r1")]
    mk = (lambda x: h.run(lambda: Point(xy=h.arr(x)))) if as_points else h.arr
    return t, r, mk(t), mk(r)


@contextmanager
def optimiser(h, thetas, calls):
    """Minimisers return thetas[0]; the objective is evaluated at each."""
    from differt2d import geometry, optimize
    sig = inspect.signature(inspect.unwrap(optimize.minimize_many_random_uniform))

    def stub(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        g = dict(b.arguments)
        g.update(g.pop("kwargs", {}))
        n = g["n"]
        ts = [h.arr(t[:n]) for t in thetas]
        vals = [g["fun"](x) for x in ts]
        g["values"] = vals
        calls.append(g)
        return ts[0], vals[0]
    orig = geometry.minimize_many_random_uniform
    geometry.minimize_many_random_uniform = stub
    try:
        yield
    finally:
        geometry.minimize_many_random_uniform = orig


def arbitrary(h, cls, kinds, as_points=True, opts=False):
    """Whatever point the optimiser returns."""
    import jax
    from differt2d import geometry
    cls = getattr(geometry, cls)
    objs = objects(h, kinds)
    n = sum(o[2] for o in objs)
    t, r, tx, rx = ends(h, as_points)
    thetas = [list(h.reals(f"theta{k}", max(n, 1))) for k in (0, 1)]
    key = jax.random.PRNGKey(11)
    kw = dict(many=3, steps=7, optimizer="mine") if opts else {}
    calls = []
    with optimiser(h, thetas, calls), jax.disable_jit():
        path = h.run(lambda: cls.from_tx_objects_rx(tx, [o[0] for o in objs], rx, key=key, **kw))
    h.check("path class", type(path) is cls)
    if not objs:
        h.eqs("direct segment", h.out(path.xys), [t, r])
        h.eqs("no loss", h.out(path.loss), F(0))
        return
    h.check("optimised once", len(calls) == 1)
    if len(calls) != 1:
        return
    (c,) = calls
    h.check("number of unknowns", int(c["n"]) == n)
    h.check("key passed on", np.array_equal(np.asarray(c["key"]), np.asarray(key)))
    h.check("number of starts", c["many"] == (3 if opts else 1))
    rest = {k: v for k, v in c.items() if k not in ("fun", "key", "n", "many", "values")}
    h.check("settings passed on", rest == (dict(steps=7, optimizer="mine") if opts else {}))
    if int(c["n"]) != n:
        return
    pts = place(objs, thetas[0], t, r)
    h.eqs("points", h.out(path.xys), pts)
    for k, th in enumerate(thetas):
        p = place(objs, th, t, r)
        want = length(h, p) if cls is geometry.FermatPath else interaction(h, objs, p)
        h.eqs(f"objective {k}", h.out(c["values"][k]), want)
    h.eqs("loss of the returned path", h.out(path.loss), interaction(h, objs, pts))


def real(h, cls, kinds, many):
    """The real optimiser without steps: the path goes through the best draw."""
    import jax
    from differt2d import geometry
    cls = getattr(geometry, cls)
    objs = objects(h, kinds)
    n = sum(o[2] for o in objs)
    t, r, tx, rx = ends(h, True)
    kw = dict(many=many) if many is not None else {}
    with rnd.draws(h) as log:
        path = h.run(lambda: cls.from_tx_objects_rx(tx, [o[0] for o in objs], rx, key=jax.random.PRNGKey(2), steps=0, **kw))
    many = many or 1
    ok = len(log.values) == n * many
    h.check("one draw per start and parameter", ok)
    if not ok:
        return
    starts = [log.values[n * k:][:n] for k in range(many)]
    places = [place(objs, s, t, r) for s in starts]
    if many == 1:
        h.eqs("through the start", h.out(path.xys), places[0])
        h.eqs("loss", h.out(path.loss), interaction(h, objs, places[0]))
        return
    cost = [length(h, p) if cls is geometry.FermatPath else interaction(h, objs, p) for p in places]
    got = h.fin("finite points", h.out(path.xys))
    T = F(1, 1000)
    same = lambda a, b, eps: h.And(*[h.And(x - y <= eps, y - x <= eps) for p, q in zip(a, b) for x, y in zip(p, q)])
    which = [same(got, p, 0) for p in places]
    h.check("through one of the starts", h.Or(*which), loose=h.Or(*[same(got, p, T) for p in places]))
    for k, p in enumerate(places):
        better = [V.cmp("lt", cost[k], cost[j]) for j in range(many) if j != k]
        lots = [V.cmp("lt", V.add(cost[k], F(1, 100)), cost[j]) for j in range(many) if j != k]
        h.check(f"the best start wins ({k})", h.Or(h.Not(h.And(*better)), which[k]),
                loose=h.Or(h.Not(h.And(*lots)), same(got, p, T)))
    if set(kinds) <= set("PV"):
        h.eqs("loss of the returned path", h.out(path.loss), interaction(h, objs, [list(p) for p in got]))


def stepped(h, cls, kinds, steps):
    """The real optimiser: gradient steps down the stated objective."""
    import jax
    import jax.numpy as jnp
    import optax
    from differt2d import geometry
    name, cls = cls, getattr(geometry, cls)
    objs = objects(h, kinds)
    n = sum(o[2] for o in objs)
    t, r, tx, rx = ends(h, False)
    with rnd.draws(h) as log:
        path = h.run(lambda: cls.from_tx_objects_rx(tx, [o[0] for o in objs], rx, key=jax.random.PRNGKey(4), steps=steps,
                                                    optimizer=optax.sgd(0.125)))
    h.check("one draw per parameter", len(log.values) == n)
    if len(log.values) != n:
        return

    def objective(th):
        pts, j = [tx], 0
        for o, _, k in objs:
            pts.append(o.parametric_to_cartesian(th[j:j + k]))
            j += k
        pts = jnp.stack(pts + [rx])
        if name == "FermatPath":
            return geometry.path_length(pts)
        return sum(o.evaluate_cartesian(pts[i:i + 3]) for i, (o, _, _) in enumerate(objs))

    def go():
        th = h.arr(log.values)
        for _ in range(steps):
            th = th - 0.125 * jax.grad(objective)(th)
        return th
    if name == "FermatPath":
        # the length has no gradient where a segment cancels the epsilon shift (C09)
        p = place(objs, log.values, t, r)
        for a, b in zip(p, p[1:]):
            h.assume(h.Or(*[h.Or(b[i] - a[i] >= F(1, 16), a[i] - b[i] >= F(1, 16)) for i in (0, 1)]))
    th = h.fin("finite", h.out(h.run(go)))
    pts = place(objs, list(th), t, r)
    h.eqs("points", h.out(path.xys), pts)
    if name == "MinPath":
        h.eqs("loss of the returned path", h.out(path.loss), interaction(h, objs, [list(p) for p in h.out(path.xys)]))


def main(R):
    q = R.tier == "quick"
    for cls in ("FermatPath", "MinPath"):
        for kinds in ("", "W", "P", "V", "WP", "PW", "VPR", "P=", "WVW", "RPW", "PWVPRW", *(() if q else ("WPVP", "PP=W", "VVPW"))):
            R.run(f"{cls}/{kinds}", arbitrary, cls=cls, kinds=kinds, as_points=kinds != "WP", opts=kinds in ("W", "PW", "VPR"))
        for kinds, many in (("W", None), ("PW", None), ("P", 1), ("W", 2), ("P", 2), *(() if q else (("PW", 2), ("P", 3)))):
            R.run(f"{cls}/{kinds} best of {many}", real, cls=cls, kinds=kinds, many=many)
        for kinds, steps in (("P", 1), *((("PP", 1), ("P", 3)) if cls == "MinPath" else ())):
            R.run(f"{cls}/{kinds} {steps} steps", stepped, cls=cls, kinds=kinds, steps=steps)
