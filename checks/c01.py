"""C01: soft comparisons never contradict the exact ones."""
from fractions import Fraction as F

from vf import ctx as C
from vf import values as V

BOUNDS = ["operands: all reals; slopes: all reals > 0; array shapes up to (2, 3)",
          "activations: default, hard_sigmoid, sigmoid, and an affine user-supplied one"]
OPS = {"greater": "gt", "greater_equal": "ge", "less": "lt", "less_equal": "le"}
M = F(1, 10 ** 5)


def _op(name):
    from differt2d import logic
    return getattr(logic, name)


def _fn(which):
    from differt2d import logic
    return {"hard": logic.hard_sigmoid, "sigmoid": logic.sigmoid, "default": None}[which]


def soft(h, *, op, fn, alpha):
    f = _op(op)
    kw = {}
    if _fn(fn) is not None:
        kw["function"] = _fn(fn)
    if alpha == "default":
        a = F(100)
    else:
        a = _alpha(h)
        kw["alpha"] = h.arr(a)
    x, y, z = h.real("x"), h.real("y"), h.real("z")
    call = lambda p, q: h.elem(h.run(f, h.arr(p), h.arr(q), approx=True, **kw))  # noqa: E731
    v = call(x, y)
    h.observe("v", h.run(f, h.arr(x), h.arr(y), approx=True, **kw))
    h.finite("finite", h.out(h.run(f, h.arr(x), h.arr(y), approx=True, **kw)))
    v = v.v if isinstance(v, V.Ext) else v
    h.check("in [0,1]", h.between(F(0), v, F(1)))
    exact = V.cmp(OPS[op], x, y)
    d = (x - y) if op.startswith("g") else (y - x)
    # float32 guard band: |alpha d| >= 1e-5
    h.implies("above 1/2 only if the comparison holds", h.And(v > F(1, 2)), exact,
              loose=h.Or(exact, h.abs(a * d) <= M))
    h.implies("below 1/2 only if the comparison fails", h.And(v < F(1, 2)), h.Not(exact),
              loose=h.Or(h.Not(exact), h.abs(a * d) <= M))
    h.implies("1/2 exactly at equality", d == 0, v == F(1, 2))
    h.implies("decided away from equality", a * d > M, v > F(1, 2), loose=h.Or(v > F(1, 2), a * d < F(1, 1000)))
    h.implies("decided away from equality (false side)", a * d < -M, v < F(1, 2), loose=h.Or(v < F(1, 2), a * d > -F(1, 1000)))
    w = call(z, y)
    w = w.v if isinstance(w, V.Ext) else w
    dz = (z - y) if op.startswith("g") else (y - z)
    h.implies("monotone", dz >= d, h.ge(w, v), loose=h.ge(w, v - M))
    u = call(y, x)
    u = u.v if isinstance(u, V.Ext) else u
    h.eq("complementary", u + v, F(1), tol=1e-4)
    if fn != "sigmoid":
        h.implies("saturates at 1", a * d >= 3 + M, v == 1, loose=h.abs(v - 1) <= M)
        h.implies("saturates at 0", a * d <= -3 - M, v == 0, loose=h.abs(v) <= M)
        h.implies("linear in between", h.abs(a * d) <= 3, 6 * v == 3 + a * d, loose=h.abs(6 * v - 3 - a * d) <= F(1, 500))
    else:
        ref = C.unary_fn("logistic", a * d) if h.sym else _logistic(a * d)
        h.eq("is the sigmoid of slope times difference", v, ref, tol=1e-3)


def _logistic(x):
    import math
    x = max(-80, min(80, float(x)))
    return F(1 / (1 + math.exp(-x)))


def activations(h):
    from differt2d import logic
    a = _alpha(h)
    x = h.real("x")
    d = a * x
    v = h.elem(h.run(logic.hard_sigmoid, h.arr(x), h.arr(a)))
    clip = h.ite(d >= 3, F(1), h.ite(d <= -3, F(0), F(1, 2) + d / 6))
    h.eq("hard_sigmoid", v, clip)
    v = h.elem(h.run(logic.activation, h.arr(x), h.arr(a)))
    h.eq("activation default is the hard sigmoid", v, clip)
    v = h.elem(h.run(logic.activation, h.arr(x)))
    d = 100 * x
    h.eq("activation default slope", v, h.ite(d >= 3, F(1), h.ite(d <= -3, F(0), F(1, 2) + d / 6)))
    v = h.elem(h.run(logic.sigmoid, h.arr(x), h.arr(a)))
    h.eq("sigmoid", v, C.unary_fn("logistic", a * x) if h.sym else _logistic(a * x))
    v2 = h.elem(h.run(logic.activation, h.arr(x), h.arr(a), function=logic.sigmoid))
    h.eq("activation honours function", v2, v)


def user_fn(x, alpha):
    return 3.0 * x + 0.25 * alpha


def custom(h, *, op):
    """A user supplied activation receives the difference and the slope."""
    f = _op(op)
    a, x, y = h.real("alpha", 0, None), h.real("x"), h.real("y")
    v = h.elem(h.run(f, h.arr(x), h.arr(y), approx=True, alpha=h.arr(a), function=user_fn))
    d = (x - y) if op.startswith("g") else (y - x)
    h.eq("user activation gets (difference, slope)", v, 3 * d + a / 4)
    v = h.elem(h.run(f, h.arr(x), h.arr(y), approx=True, function=user_fn))
    h.eq("user activation gets the default slope", v, 3 * d + 25)


def exact(h, *, op):
    import numpy as np
    f = _op(op)
    x, y = h.reals("x", 2, 3), h.reals("y", 2, 3)
    r = h.run(f, h.arr(x), h.arr(y), approx=False)
    h.observe("r", r)
    h.check("boolean dtype", str(r.dtype) == "bool")
    ref = np.empty((2, 3), dtype=object)
    for i in np.ndindex(2, 3):
        ref[i] = V.cmp(OPS[op], x[i], y[i])
    h.eqs("exact comparison", h.out(r), ref)
    # default mode (approximation is off unless requested)
    r = h.run(f, h.arr(y), h.arr(x))
    for i in np.ndindex(2, 3):
        ref[i] = V.cmp(OPS[op], y[i], x[i])
    h.eqs("exact comparison, default mode", h.out(r), ref)


def arrays(h, *, op):
    import numpy as np
    f = _op(op)
    x, y = h.reals("x", 2, 3), h.reals("y", 2, 3)
    r = h.out(h.run(f, h.arr(x), h.arr(y), approx=True, alpha=2.0))
    ref = np.empty((2, 3), dtype=object)
    for i in np.ndindex(2, 3):
        d = (x[i] - y[i]) if op.startswith("g") else (y[i] - x[i])
        d = 2 * d
        ref[i] = h.ite(d >= 3, F(1), h.ite(d <= -3, F(0), F(1, 2) + d / 6))
    h.eqs("element-wise", r, ref)


def main(R):
    R.run("activations", activations)
    for op in OPS:
        for fn in ("default", "hard", "sigmoid"):
            for al in ("default", "symbolic"):
                R.run(f"soft/{op}/{fn}/{al} slope", soft, op=op, fn=fn, alpha=al, validate=1)
        R.run(f"custom/{op}", custom, op=op)
        R.run(f"exact/{op}", exact, op=op)
        R.run(f"arrays/{op}", arrays, op=op)


def _alpha(h):
    a = h.real("alpha", 0, None, box=(0, 200))
    h.assume(a > 0)
    return a
