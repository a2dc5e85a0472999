"""C20: minimisers."""
from fractions import Fraction as F

import numpy as np

from vf import rnd
from vf import values as V

BOUNDS = [
    "objectives: quadratics with symbolic coefficients (and extra arguments) in 1-3 unknowns; 0-3 steps symbolically (0-5 with momentum), the default 100 and others with concrete curvature; optimisers: SGD, SGD with momentum, one with a step-dependent rate, the default Adam (0-2 steps)",
    "1-3, 10 (the default) and 13 (thorough 4) starts; every random draw is a free symbol in [0, 1)",
]
ASSUMPTIONS = ["jax.random.uniform is replaced by arbitrary draws in [0, 1), a function of the key and the position"]


def objective(h, n, concrete=False):
    """(code objective, value spec, gradient spec): sum of a x^2 + b x plus extras."""
    import jax.numpy as jnp
    a = [F(1, 4)] * n if concrete else [h.real(f"a{i}", -2, 2) for i in range(n)]
    b = [h.real(f"b{i}") for i in range(n)]
    A, B = h.arr(a), h.arr(b)

    def fun(x, *args):
        v = jnp.sum(A * x * x + B * x)
        for k, p in enumerate(args):
            v = v + (k + 1) * p * jnp.sum(x) + p
        return v

    def value(x, args=()):
        v = F(0)
        for i in range(n):
            v = v + a[i] * x[i] * x[i] + b[i] * x[i]
        for k, p in enumerate(args):
            s = F(0)
            for xi in x:
                s = s + xi
            v = v + (k + 1) * p * s + p
        return v

    def gradient(x, args=()):
        e = F(0)
        for k, p in enumerate(args):
            e = e + (k + 1) * p
        return [2 * a[i] * x[i] + b[i] + e for i in range(n)]
    return fun, value, gradient


def counting():
    """A stateful optimiser: step k uses the rate 1 / (k + 2)."""
    import jax.numpy as jnp
    import optax

    def update(g, state, params=None):
        return -g / (state + 2.0), state + 1.0
    return optax.GradientTransformation(lambda p: jnp.array(0.0), update)


def optimisers():
    import optax
    def sgd(x, g, s):
        return [xi - gi / 4 for xi, gi in zip(x, g)], s

    def momentum(x, g, s):
        s = [gi + si / 2 for gi, si in zip(g, s or [F(0)] * len(g))]
        return [xi - si / 4 for xi, si in zip(x, s)], s

    def count(x, g, s):
        s = s or 0
        return [xi - gi / (s + 2) for xi, gi in zip(x, g)], s + 1
    return dict(sgd=(optax.sgd(0.25), sgd), momentum=(optax.sgd(0.25, momentum=0.5), momentum), counting=(counting(), count))


def descend(opt, x, gradient, steps, args=()):
    s = None
    for _ in range(steps):
        x, s = opt(x, gradient(x, args), s)
    return x


def single(h, n, steps, opt, nargs, concrete=False, default_steps=False):
    from differt2d.optimize import minimize
    fun, value, gradient = objective(h, n, concrete)
    o, spec = optimisers()[opt]
    x0 = [h.real(f"s{i}") for i in range(n)]
    args = [h.real(f"p{k}") for k in range(nargs)]
    kw = dict(args=tuple(h.arr(p) for p in args)) if nargs else {}
    if not default_steps:
        kw["steps"] = steps
    x, y = h.run(lambda: minimize(fun, h.arr(x0), optimizer=o, **kw))
    want = descend(spec, x0, gradient, steps, args)
    h.eqs("point after the requested steps", h.out(x), want)
    h.eqs("value at that point", h.out(y), value(want, args))


def adam(h, n, steps):
    """The default optimiser is Adam with rate 0.1 (its own code as reference)."""
    import jax
    import optax
    from differt2d.optimize import minimize
    fun, _, _ = objective(h, n)
    x0 = [h.real(f"s{i}") for i in range(n)]
    x, y = h.run(lambda: minimize(fun, h.arr(x0), steps=steps))

    def ref():
        o = optax.adam(learning_rate=0.1)
        z = h.arr(x0)
        s = o.init(z)
        for _ in range(steps):
            u, s = o.update(jax.grad(fun)(z), s)
            z = z + u
        return z, fun(z)
    z, v = h.run(ref)
    h.eqs("default optimiser", h.out(x), h.out(z), tol=1e-4)
    h.eqs("value at that point", h.out(y), h.out(v))


def starts(h, log, n, many):
    ok = len(log.values) == n * many
    h.check("one independent draw per start and unknown", ok)
    if not ok:
        return None
    xs = [log.values[n * k:][:n] for k in range(many)]
    for x in log.values:
        h.check("start in the unit cube", h.And(x >= 0, x < 1))
    return xs


def random_start(h, n, steps, opt, nargs):
    import jax
    from differt2d.optimize import minimize_random_uniform
    fun, value, gradient = objective(h, n)
    o, spec = optimisers()[opt]
    args = [h.real(f"p{k}") for k in range(nargs)]
    kw = dict(args=tuple(h.arr(p) for p in args)) if nargs else {}
    with rnd.draws(h) as log:
        x, y = h.run(lambda: minimize_random_uniform(fun, jax.random.PRNGKey(5), n, steps=steps, optimizer=o, **kw))
    xs = starts(h, log, n, 1)
    if xs is None:
        return
    want = descend(spec, xs[0], gradient, steps, args)
    h.eqs("point after the requested steps from the random start", h.out(x), want)
    h.eqs("value at that point", h.out(y), value(want, args))


def best(h, n, steps, opt, nargs, many):
    import jax
    from differt2d.optimize import minimize_many_random_uniform
    fun, value, gradient = objective(h, n)
    o, spec = optimisers()[opt]
    args = [h.real(f"p{k}") for k in range(nargs)]
    kw = dict(args=tuple(h.arr(p) for p in args)) if nargs else {}
    if many is not None:
        kw["many"] = many
    many = 10 if many is None else many
    with rnd.draws(h) as log:
        x, y = h.run(lambda: minimize_many_random_uniform(fun, jax.random.PRNGKey(8), n, steps=steps, optimizer=o, **kw))
    xs = starts(h, log, n, many)
    if xs is None:
        return
    x, y = h.fin("finite solution", h.out(x)), h.fin("finite value", h.out(y))[()]
    if x.shape != (n,):
        h.check("solution shape", False)
        return
    T = F(1, 100)
    finals = [descend(spec, s, gradient, steps, args) for s in xs]
    vals = [value(f, args) for f in finals]
    Vs = [h.let(v) for v in vals]
    Y = h.let(y)
    for k, v in enumerate(vals):
        h.check(f"no start does better ({k})", y <= v, loose=y <= v + T)
    near = lambda a, b: h.And(a <= b + T, b <= a + T)
    h.check("solution and value of one of the starts",
            h.Or(*[h.And(y == v, *[x[i] == f[i] for i in range(n)]) for f, v in zip(finals, vals)]),
            loose=h.Or(*[h.And(near(y, v), *[near(x[i], f[i]) for i in range(n)]) for f, v in zip(finals, vals)]))


def keys(h, many):
    """Different keys, different draws; the same key, the same ones."""
    import jax
    from differt2d.optimize import minimize_many_random_uniform
    fun, _, _ = objective(h, 1)
    got = []
    for k in (1, 2, 1):
        with rnd.draws(h) as log:
            h.run(lambda: minimize_many_random_uniform(fun, jax.random.PRNGKey(k), 1, many=many, steps=0))
        got.append([str(v) for v in log.values] if h.sym else list(log.values))
    h.check("draws are a function of the key", got[0] == got[2])
    if h.sym:
        h.check("every key and start has its own draws", len(set(got[0] + got[1])) == 2 * many)


def main(R):
    q = R.tier == "quick"
    for n, steps, opt, nargs in ((1, 0, "sgd", 0), (1, 1, "sgd", 0), (1, 3, "sgd", 1), (2, 2, "sgd", 2), (3, 1, "counting", 1),
                                 (2, 3, "counting", 0), (2, 2, "momentum", 1), (1, 3, "momentum", 0),
                                 *(() if q else ((1, 5, "momentum", 2), (3, 4, "counting", 2)))):
        R.run(f"minimize/{opt} n={n} steps={steps} args={nargs}", single, n=n, steps=steps, opt=opt, nargs=nargs)
    R.run("minimize/default steps", single, n=1, steps=100, opt="sgd", nargs=0, concrete=True, default_steps=True)
    R.run("minimize/17 steps", single, n=2, steps=17, opt="counting", nargs=1, concrete=True)
    for n, steps in ((1, 0), (1, 1), (1, 2), (2, 2)):
        R.run(f"adam/n={n} steps={steps}", adam, n=n, steps=steps)
    for n, steps, opt, nargs in ((1, 0, "sgd", 0), (2, 1, "sgd", 1), (3, 2, "counting", 0)):
        R.run(f"random start/{opt} n={n} steps={steps}", random_start, n=n, steps=steps, opt=opt, nargs=nargs)
    for n, steps, opt, nargs, many in ((1, 0, "sgd", 0, 1), (1, 0, "sgd", 0, 2), (2, 0, "sgd", 1, 3), (1, 1, "counting", 1, 2), (2, 1, "sgd", 0, 2),
                                       (1, 0, "sgd", 0, None), (1, 0, "sgd", 0, 13), *(() if q else ((2, 1, "counting", 1, 4), (1, 2, "sgd", 0, 3)))):
        R.run(f"best of {many}/{opt} n={n} steps={steps}", best, n=n, steps=steps, opt=opt, nargs=nargs, many=many)
    for many in (1, 3):
        R.run(f"keys/{many}", keys, many=many)
