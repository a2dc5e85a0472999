"""C10: path validity."""
from fractions import Fraction as F

import numpy as np

from vf import values as V

from . import stubs

BOUNDS = [
    "paths with 0-2 (thorough 3) interactions among 1-3 objects, 3 among 5 and 1 among 7; symbolic points, candidate indices, loss, tolerance, patch and slope; object answers are arbitrary affine functions (stand-in class), plus real walls, RIS and vertices",
    "NaN / infinite losses and NaN interaction points included",
]
ASSUMPTIONS = ["objects judge through the library's comparison, with the settings they are handed (as walls do)"]
SPECIAL = [None, V.NAN, V.PINF]


def setup(h, order, m):
    objs = [stubs.probe(h, f"o{k}") for k in range(m)]
    inter = [stubs.probe(h, f"i{k}") for k in range(order)]
    pts = [[h.real(f"x{k}_0"), h.real(f"x{k}_1")] for k in range(order + 2)]
    cand = []
    for k in range(order):
        if h.sym:
            v = h.ctx.int(f"c{k}")
            h.ctx.assume(v >= 0, v < m)
        else:
            v = int(h.vals.get(f"c{k}", 0))
            h.used[f"c{k}"] = v
        cand.append(v)
    return objs, inter, pts, cand


def idx(h, cand):
    a = np.empty((len(cand),), dtype=object)
    for i, c in enumerate(cand):
        a[i] = c
    if h.sym:
        from vf import symjax as S
        if cand:
            return S.symbolic(a, np.int32)
    import jax.numpy as jnp
    return jnp.array([int(c) for c in cand], dtype=jnp.int32)


def ieq(h, a, b):
    return a == b


def spec_exact(h, objs, inter, pts, cand, loss, tol, patch):
    ok = V.cmp("lt", loss, tol)
    for k, (d, _) in enumerate(inter):
        ok = h.And(ok, h.gt(stubs.holds(d, pts[k + 1]), F(0)))
    ends = [-1, *cand, -1]
    for s in range(len(pts) - 1):
        for j, (d, _) in enumerate(objs):
            skip = h.Or(ieq(h, ends[s], j), ieq(h, ends[s + 1], j))
            hit = h.gt(stubs.blocks(d, pts[s], pts[s + 1], patch), F(0))
            ok = h.And(ok, h.Or(skip, h.Not(hit)))
    return ok


def call(h, objs, inter, pts, cand, loss, tol, patch, **kw):
    from differt2d.geometry import Path
    if tol is not None:
        kw["tol"] = h.arr(tol)
    if patch is not None:
        kw["patch"] = h.arr(patch)
    return h.run(lambda: Path(xys=h.arr(pts), loss=h.arr(loss)).is_valid(
        [o for _, o in objs], idx(h, cand), [o for _, o in inter], **kw))


def losses(h, special):
    s = h.pick("loss_kind", SPECIAL) if special else None
    return h.real("loss") if s is None else s


def exact(h, order, m, approx):
    objs, inter, pts, cand = setup(h, order, m)
    loss = losses(h, order == 1)
    default = h.pick("defaults", [False, True]) if order < 2 else False
    tol = F(float(np.float32(0.01))) if default else h.real("tol")
    patch = F(0) if default else h.real("patch")
    kw = {} if approx is None else dict(approx=approx)
    r = call(h, objs, inter, pts, cand, loss, None if default else tol, None if default else patch, **kw)
    h.observe("valid", r)
    v = h.elem(r)
    h.check("a truth value", isinstance(v, bool) or V.is_bool(v))
    h.check("valid iff on its objects, unobstructed and low-loss",
            h.Iff(v, spec_exact(h, objs, inter, pts, cand, loss, tol, patch)))


def soft(h, x, a, fn):
    """Activation value of x > 0, via the library (C01)."""
    from differt2d import logic
    kw = {} if a is None else dict(alpha=h.arr(a))
    if fn == "sigmoid":
        kw["function"] = logic.sigmoid
    return h.elem(h.run(lambda: logic.greater(h.arr(x), h.arr(F(0)), approx=True, **kw)))


def approx(h, order, m, fn, ambient=False):
    from differt2d import logic
    objs, inter, pts, cand = setup(h, order, m)
    loss = losses(h, order == 0)
    tol, patch = h.real("tol"), h.real("patch")
    a = h.real("alpha", F(1, 10), 1000, box=(1, 200)) if fn != "default" else None
    kw = {} if a is None else dict(alpha=h.arr(a))
    if fn == "sigmoid":
        kw["function"] = logic.sigmoid
    if ambient:
        import jax
        jax.clear_caches()
        with logic.enable_approx():
            r = call(h, objs, inter, pts, cand, loss, tol, patch, **kw)
        jax.clear_caches()
    else:
        r = call(h, objs, inter, pts, cand, loss, tol, patch, approx=True, **kw)
    if fn != "sigmoid":
        h.observe("valid", r)
    h.notnan("never NaN", r)
    v = h.fin("finite", h.out(r))[()]
    h.check("in [0, 1]", h.between(F(0), v, F(1)))
    # (value, truth) of every requirement, with the same settings
    if isinstance(loss, V.Ext):
        ok = spec_exact(h, objs, inter, pts, cand, loss, tol, patch)
        h.check("above 1/2 only if the exact test passes", h.Or(v <= F(1, 2), ok))
        h.check("below 1/2 only if the exact test fails", h.Or(v >= F(1, 2), h.Not(ok)))
        return
    parts = [(soft(h, tol - loss, a, fn), loss < tol)]
    for k, (d, _) in enumerate(inter):
        q = stubs.holds(d, pts[k + 1])
        parts.append((soft(h, q, a, fn), q > 0))
    ends = [-1, *cand, -1]
    for s in range(len(pts) - 1):
        for j, (d, _) in enumerate(objs):
            skip = h.Or(ieq(h, ends[s], j), ieq(h, ends[s + 1], j))
            q = stubs.blocks(d, pts[s], pts[s + 1], patch)
            parts.append((V.f_ite(skip, F(1), V.sub(F(1), soft(h, q, a, fn))), h.Or(skip, q <= 0)))
    T = F(1, 100)
    x = h.let(v)
    names, truths, ps = [], [], []
    for k, (p, t) in enumerate(parts):
        p = p.v if isinstance(p, V.Ext) else p
        P, t_ = h.let(p), h.let(t)
        truths.append(t_)
        ps.append(P)
        fact = lambda p, t: h.And(h.Or(p <= F(1, 2), t), h.Or(p >= F(1, 2), h.Not(t)))
        h.lemma(f"requirement {k}", fact(p, t), use=fact(P, t_))
        h.lemma(f"at most {k}", v <= p, use=x <= P)
        names += [f"requirement {k}", f"at most {k}"]
        h.check(f"not above requirement {k}", v <= p, loose=v <= p + T)
    h.check("reaches one of the requirements", h.Or(*[v >= (p.v if isinstance(p, V.Ext) else p) for p, _ in parts]),
            loose=h.Or(*[v + T >= (p.v if isinstance(p, V.Ext) else p) for p, _ in parts]))
    h.lemma("one reached", h.Or(*[v >= (p.v if isinstance(p, V.Ext) else p) for p, _ in parts]), use=h.Or(*[x >= P for P in ps]))
    ok = h.And(*truths)
    h.check("above 1/2 only if the exact test passes", h.Or(x <= F(1, 2), ok))
    h.check("below 1/2 only if the exact test fails", h.Or(x >= F(1, 2), h.Not(ok)))


def nan_point(h, approx):
    objs, inter, pts, cand = setup(h, 1, 1)
    h.assume(h.Or(inter[0][0]["cp"][1] != 0, inter[0][0]["cp"][2] != 0))
    pts[1] = [V.NAN, V.NAN]
    tol, patch = h.real("tol"), h.real("patch")
    r = call(h, objs, inter, pts, cand, h.real("loss"), tol, patch, approx=approx)
    if approx:
        h.eqs("a path through NaN is invalid", h.out(r), F(0))
    else:
        h.check("a path through NaN is invalid", h.Not(h.elem(r)))


def pieces(h, order, m, approx):
    """on_objects / intersects_with_objects on their own."""
    from differt2d.geometry import Path
    objs, inter, pts, cand = setup(h, order, m)
    patch = h.real("patch")
    P = h.run(lambda: Path(xys=h.arr(pts)))
    on = h.elem(h.run(lambda p: p.on_objects([o for _, o in inter], approx=approx), P))
    ob = h.elem(h.run(lambda p: p.intersects_with_objects([o for _, o in objs], idx(h, cand), patch=h.arr(patch), approx=approx), P))
    son, sob = True, False
    for k, (d, _) in enumerate(inter):
        son = h.And(son, stubs.holds(d, pts[k + 1]) > 0)
    ends = [-1, *cand, -1]
    for s in range(len(pts) - 1):
        for j, (d, _) in enumerate(objs):
            skip = h.Or(ieq(h, ends[s], j), ieq(h, ends[s + 1], j))
            sob = h.Or(sob, h.And(h.Not(skip), stubs.blocks(d, pts[s], pts[s + 1], patch) > 0))
    if not approx:
        h.check("on its objects", h.Iff(on, son))
        h.check("obstructed", h.Iff(ob, sob))
        return
    for nm, v, s in (("on its objects", on, son), ("obstructed", ob, sob)):
        v = v.v if isinstance(v, V.Ext) else v
        h.check(f"{nm}: above 1/2 only if true", h.Or(v <= F(1, 2), s))
        h.check(f"{nm}: below 1/2 only if false", h.Or(v >= F(1, 2), h.Not(s)))


def real_objects(h, kinds, cand, approx):
    """Walls, RIS and vertices are judged by their own tests."""
    import jax.numpy as jnp
    from differt2d import logic
    from differt2d.geometry import RIS, Path, Vertex, Wall
    objs = []
    for k, kind in enumerate(kinds):
        if kind == "V":
            objs.append(h.run(lambda k=k: Vertex(xy=h.arr(h.reals(f"v{k}", 2)))))
        elif kind == "R":
            objs.append(h.run(lambda k=k: RIS(xys=h.arr(h.reals(f"w{k}", 2, 2)), phi=h.arr(h.real(f"phi{k}")))))
        else:
            objs.append(h.run(lambda k=k: Wall(xys=h.arr(h.reals(f"w{k}", 2, 2)))))
    n = len(cand)
    pts = [[h.real(f"x{k}_0"), h.real(f"x{k}_1")] for k in range(n + 2)]
    loss, tol, patch = h.real("loss"), h.real("tol"), h.real("patch", 0, 1)
    inter = [objs[c] for c in cand]
    r = h.run(lambda: Path(xys=h.arr(pts), loss=h.arr(loss)).is_valid(
        objs, jnp.array(cand, dtype=int), inter, tol=h.arr(tol), patch=h.arr(patch), approx=approx))

    def own():
        x = h.arr(pts)
        on = [o.contains_parametric(o.cartesian_to_parametric(x[k + 1]), approx=approx) for k, o in enumerate(inter)]
        ends = [-1, *cand, -1]
        hit = [o.intersects_cartesian(x[s:s + 2], patch=h.arr(patch), approx=approx)
               for s in range(n + 1) for j, o in enumerate(objs) if j not in (ends[s], ends[s + 1])]
        return on, hit
    on, hit = h.run(own)
    on, hit = [h.elem(x) for x in on], [h.elem(x) for x in hit]
    v = h.elem(r)
    if not approx:
        h.check("valid iff the objects' own tests say so",
                h.Iff(v, h.And(loss < tol, *on, *[h.Not(x) for x in hit])))
        return
    low = h.elem(h.run(lambda: logic.less(h.arr(loss), h.arr(tol), approx=True)))
    e = low
    for x in on:
        e = V.minimum(e, x)
    for x in hit:
        e = V.minimum(e, V.sub(F(1), x))
    h.notnan("never NaN", r)
    h.eq("minimum of the objects' own answers", v, e)


def main(R):
    q = R.tier == "quick"
    for ap in (False, None):
        for order in range(3 if q else 4):
            for m in range(1, 4):
                R.run(f"exact/{ap}/{order} of {m}", exact, order=order, m=m, approx=ap)
    for fn in ("default", "hard", "sigmoid"):
        for order in range(3 if q else 4):
            for m in (1, 2) if q else (1, 2, 3):
                R.run(f"approx/{fn}/{order} of {m}", approx, order=order, m=m, fn=fn)
    R.run("exact/False/3 of 5", exact, order=3, m=5, approx=False)
    R.run("exact/False/1 of 7", exact, order=1, m=7, approx=False)
    R.run("approx/default/1 of 4", approx, order=1, m=4, fn="default")
    R.run("approx/ambient", approx, order=1, m=1, fn="hard", ambient=True)
    for ap in (False, True):
        R.run(f"NaN point/{ap}", nan_point, approx=ap)
        for order, m in ((1, 2), (2, 2)):
            R.run(f"parts/{ap}/{order} of {m}", pieces, order=order, m=m, approx=ap)
        for kinds, cand in (("W", []), ("WR", [0]), ("WV", [1]), ("RVW", [2, 1]), ("WWW", [0, 1])):
            R.run(f"objects/{ap}/{kinds}{cand}", real_objects, kinds=kinds, cand=cand, approx=ap)
