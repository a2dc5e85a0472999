"""Stand-in objects, paths and functions with arbitrary (symbolic) behaviour.

They implement the library's abstract interfaces; what they answer is an affine
function of what they are given, with symbolic coefficients, so that any
mix-up of arguments, objects, order or settings is visible to the solver.
"""
from fractions import Fraction as F

import equinox as eqx
import jax.numpy as jnp
import numpy as np

from vf import symjax as S  # noqa: F401


def make_classes():
    """Defined lazily: differt2d must be importable first."""
    from differt2d.abc import Object
    from differt2d.geometry import Path, Point
    from differt2d.logic import greater

    class Probe(eqx.Module, Object):
        """cp . [1, x, y] > 0: contains; ci . [1, patch, ray] > 0: obstructs."""

        cp: jnp.ndarray
        ci: jnp.ndarray
        ce: jnp.ndarray

        @staticmethod
        def parameters_count():
            return 2

        def parametric_to_cartesian(self, param_coords):
            return param_coords

        def cartesian_to_parametric(self, carte_coords):
            return carte_coords

        def contains_parametric(self, param_coords, approx=None, **kwargs):
            return greater(self.cp[0] + self.cp[1] * param_coords[0] + self.cp[2] * param_coords[1],
                           jnp.array(0.0), approx=approx, **kwargs)

        def intersects_cartesian(self, ray, patch=0.0, approx=None, **kwargs):
            c = self.ci
            v = c[0] + c[1] * patch + c[2] * ray[0, 0] + c[3] * ray[0, 1] + c[4] * ray[1, 0] + c[5] * ray[1, 1]
            return greater(v, jnp.array(0.0), approx=approx, **kwargs)

        def evaluate_cartesian(self, ray_path):
            return jnp.sum(self.ce * ray_path)

        def plot(self, ax, *args, **kwargs):
            return [ax.probe(self, *args, **kwargs)]

        def bounding_box(self):
            return jnp.stack([self.cp[1:], self.cp[1:]])

        def sample(self, key):
            return jnp.zeros(2)

    class ProbePath(Path):
        """A path whose points and loss are affine in what it was built from."""

        seen: tuple = eqx.field(default=(), static=True)

        @classmethod
        def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, gain=1.0, **kwargs):
            LOG.append(("path", tx, tuple(objects), rx, key, dict(kwargs, gain=gain)))
            t = tx.xy if isinstance(tx, Point) else tx
            r = rx.xy if isinstance(rx, Point) else rx
            xys = jnp.stack([t, *[o.cp[1:] * gain + 0.5 * t for o in objects], r])
            loss = jnp.array(0.0)
            for k, o in enumerate(objects):
                loss = loss + (k + 1) * o.ce[0, 0]
            return cls(xys=xys, loss=loss + 0.25 * t[0] + 0.125 * r[1])

        def is_valid(self, *args, **kwargs):
            return named("valid", super().is_valid(*args, **kwargs))

    return Probe, ProbePath


LOG = []
NAMING = []
_C = None


def make_namer():
    """An identity primitive: while NAMING holds a handle, the scalars it meets
    get a name (so that sums of such scalars stay short) and are recorded."""
    from jax._src import core
    from jax.interpreters import ad, batching
    p = core.Primitive("vf_name")
    p.def_impl(lambda x, **_: x)
    p.def_abstract_eval(lambda x, **_: x)
    batching.defvectorized(p)
    ad.primitive_jvps[p] = lambda primals, tangents, **k: (p.bind(*primals, **k), tangents[0])

    def hook(trace, prim, args, params):
        (x,) = args
        if not NAMING:
            return x
        a = S.getarr(x)
        n = S.objarr(a.shape, [NAMING[0].let(e) for e in S.flatten(a)])
        LOG.append((params["kind"], n))
        return S.wrap(trace, n, x.dtype) if S.is_sym(x) else x
    S.HOOKS["vf_name"] = hook
    return p


NAMER = []


def named(kind, x):
    if not NAMING:
        return x
    if not NAMER:
        NAMER.append(make_namer())
    return NAMER[0].bind(x, kind=kind)


def named_calls(n, shape=()):
    """(validity names, function value names) of n paths, if that is what happened."""
    v = [e[1] for e in LOG if e[0] == "valid"]
    f = [e[1] for e in LOG if e[0] == "value"]
    if len(v) != n or len(f) != n or any(x.shape not in ((), shape) for x in v + f):
        return None
    if shape == ():
        return [(a[()], b[()]) for a, b in zip(v, f)]
    return [(np.broadcast_to(a, shape), np.broadcast_to(b, shape)) for a, b in zip(v, f)]


def classes():
    global _C
    if _C is None:
        _C = make_classes()
    return _C


def probe(h, name):
    Probe, _ = classes()
    d = dict(cp=h.reals(f"{name}p", 3), ci=h.reals(f"{name}i", 6), ce=h.reals(f"{name}e", 3, 2))
    return d, h.run(lambda: Probe(cp=h.arr(d["cp"]), ci=h.arr(d["ci"]), ce=h.arr(d["ce"])))


def holds(d, q):
    return d["cp"][0] + d["cp"][1] * q[0] + d["cp"][2] * q[1]


def blocks(d, a, b, patch):
    c = d["ci"]
    return c[0] + c[1] * patch + c[2] * a[0] + c[3] * a[1] + c[4] * b[0] + c[5] * b[1]


def evaluate(d, pts):
    e = F(0)
    for i in range(3):
        for j in range(2):
            e = e + d["ce"][i][j] * pts[i][j]
    return e


NAMES_TX = ["ab", "a", "tx_10"]
NAMES_RX = ["c", "bc", "a"]


def points(h, names, box=4):
    from differt2d.geometry import Point
    out, spec = {}, {}
    for n in names:
        spec[n] = list(h.reals(n, 2, box=box))
        out[n] = h.run(lambda n=n: Point(xy=h.arr(spec[n])))
    return spec, out


def scene(h, ntx, nrx, m):
    """A scene of stand-in objects."""
    from differt2d.scene import Scene
    stx, tx = points(h, NAMES_TX[:ntx])
    srx, rx = points(h, NAMES_RX[:nrx])
    objs = [probe(h, f"o{k}") for k in range(m)]
    sc = h.run(lambda: Scene(transmitters=tx, receivers=rx, objects=[o for _, o in objs]))
    return stx, srx, [d for d, _ in objs], sc


def candidates(m, lo, hi):
    """All sequences of object indices without immediate repetition."""
    level, out = [[]], []
    for n in range(hi + 1):
        if n >= lo:
            out += level
        level = [c + [j] for c in level for j in range(m) if not c or c[-1] != j]
    return out


def probe_path(d, cand, t, r, gain=F(1)):
    """Points and loss of ProbePath.from_tx_objects_rx."""
    pts = [list(t)]
    for c in cand:
        pts.append([d[c]["cp"][1 + i] * gain + t[i] / 2 for i in (0, 1)])
    pts.append(list(r))
    loss = F(0)
    for k, c in enumerate(cand):
        loss = loss + (k + 1) * d[c]["ce"][0][0]
    return pts, loss + t[0] / 4 + r[1] / 8


def valid_exact(h, d, cand, pts, loss, tol, patch):
    ok = loss < tol
    for k, c in enumerate(cand):
        ok = h.And(ok, holds(d[c], pts[k + 1]) > 0)
    ends = [-1, *cand, -1]
    for s in range(len(pts) - 1):
        for j in range(len(d)):
            if j not in (ends[s], ends[s + 1]):
                ok = h.And(ok, blocks(d[j], pts[s], pts[s + 1], patch) <= 0)
    return ok


def valid_by_library(h, sc, cand, pts, loss, kw):
    """The library's own verdict (C10) for the expected path."""
    import jax.numpy as jnp
    from differt2d.geometry import Path
    return h.elem(h.run(lambda: Path(xys=h.arr(pts), loss=h.arr(loss)).is_valid(
        sc.objects, jnp.array(cand, dtype=int), [sc.objects[c] for c in cand], **kw)))


def tolist(x):
    return [int(v) for v in np.asarray(x).reshape(-1)]


WT = [F(1, 2), F(-3, 4), F(5, 4), F(1, 4)]


def fun(tx, rx, path, objects, a=1.0, *, b=0.0, **extra):
    """The accumulated function: linear in everything it is given."""
    LOG.append(("fun", tx, rx, path, tuple(objects), a, b, extra))
    v = 0.5 * tx.xy[0] - 0.75 * tx.xy[1] + 1.25 * rx.xy[0] + 0.25 * rx.xy[1] + path.loss
    for k in range(path.xys.shape[0]):
        v = v + (k + 1) * path.xys[k, 0] - (k + 2) * path.xys[k, 1]
    for k, o in enumerate(objects):
        v = v + (k + 3) * o.cp[0]
    return named("value", a * v + b)


def fun_spec(d, cand, t, r, pts, loss, a=F(1), b=F(0)):
    v = WT[0] * t[0] + WT[1] * t[1] + WT[2] * r[0] + WT[3] * r[1] + loss
    for k, p in enumerate(pts):
        v = v + (k + 1) * p[0] - (k + 2) * p[1]
    for k, c in enumerate(cand):
        v = v + (k + 3) * d[c]["cp"][0]
    return a * v + b


def total_spec(h, sc, d, cands, t, r, tol, patch, kw, gain=F(1), a=F(1), b=F(0), approx=False, calls=None):
    """Sum over candidates of validity * function. `calls`: the names of the
    code's own validities and function values, proved equal to ours first."""
    from vf import values as V
    tot = F(0)
    for k, c in enumerate(cands):
        pts, loss = probe_path(d, c, t, r, gain)
        f = fun_spec(d, c, t, r, pts, loss, a, b)
        v = valid_by_library(h, sc, c, pts, loss, kw) if approx else valid_exact(h, d, c, pts, loss, tol, patch)
        if calls is not None:
            cv, cf = calls[k]
            h.eqs("named function value", [cf], [f])
            if approx:
                h.eqs("named validity", [cv], [v])
            else:
                h.check("named validity", h.Iff(cv, v))
            v, f = cv, cf
        tot = V.add(tot, V.mul(v, f) if approx else V.f_ite(v, f, F(0)))
    return tot
