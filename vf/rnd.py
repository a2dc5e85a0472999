"""Stand-in for the pseudo random generator: every draw is a free symbol.

``jax.random.uniform(key, shape)`` is replaced, while the harness runs, by a
function of (key bytes, element index) whose values are arbitrary reals in
[0, 1): equal keys and positions give equal values (as JAX's partitionable
threefry does), everything else is unconstrained.
"""

from __future__ import annotations

import hashlib
import sys
from contextlib import contextmanager
from fractions import Fraction
from functools import partial

import jax
import jax.numpy as jnp
import numpy as np

from . import symjax as S

STATE = {}


def _names(row, n):
    tag = bytes(np.asarray(row, dtype=np.uint32).tobytes()).hex()
    return [f"u_{tag}_{i}" for i in range(n)]


def _value(name):
    h = STATE["h"]
    if h.sym:
        v = h.real(name, 0, 1)
        if name not in STATE["seen"]:
            h.assume(v < 1)
    else:
        if name not in h.vals:
            h.vals[name] = Fraction(int(hashlib.sha256(name.encode()).hexdigest()[:4], 16), 2 ** 16)
        v = h.real(name, 0, 1)
    if name not in STATE["seen"]:
        STATE["seen"][name] = v
        STATE["log"].values.append(v)
    return v


def _lookup(data, shape):
    rows = np.asarray(data, dtype=np.uint32).reshape(-1, np.shape(data)[-1])
    n = int(np.prod(shape, dtype=int))
    out = [[float(_value(nm)) for nm in _names(r, n)] for r in rows]
    return np.array(out, dtype=np.float32).reshape((*np.shape(data)[:-1], *shape))


@partial(jax.jit, static_argnums=(1,))
def vf_uniform(data, shape):
    return jax.pure_callback(partial(_lookup, shape=shape), jax.ShapeDtypeStruct(shape, jnp.float32),
                             data, vmap_method="sequential")


def _hook(args, params):
    (aval,) = params["jaxpr"].out_avals
    data = args[0]
    if S.is_sym(data):
        return NotImplemented
    data = np.asarray(data)
    shape = tuple(aval.shape)
    rows = data.reshape(-1, data.shape[-1])
    n = int(np.prod(shape, dtype=int)) // max(1, len(rows))
    elems = [_value(nm) for r in rows for nm in _names(r, n)]
    return [S.wrap(S.TRACE, S.objarr(shape, elems), aval.dtype)] if elems else [
        jnp.zeros(shape, aval.dtype)]


S.PJIT_HOOKS["vf_uniform"] = _hook


class Log:
    def __init__(self):
        self.values = []


def uniform(key, shape=(), dtype=float, minval=0.0, maxval=1.0):
    data = key
    if jnp.issubdtype(key.dtype, jax.dtypes.prng_key):
        data = jax.random.key_data(key)
    if not isinstance(shape, tuple):
        shape = tuple(int(x) for x in shape) if np.ndim(shape) else (int(shape),)
    u = vf_uniform(data, tuple(int(x) for x in shape))
    if isinstance(minval, (int, float)) and isinstance(maxval, (int, float)) and (minval, maxval) == (0, 1):
        return u
    return u * (maxval - minval) + minval


@contextmanager
def draws(h):
    log = Log()
    jax.clear_caches()
    orig = jax.random.uniform
    STATE.update(h=h, log=log, seen={})
    jax.random.uniform = uniform
    mods = [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "differt2d" and m is not None]
    named = [(m, k) for m in mods for k, v in list(vars(m).items()) if v is orig]
    for m, k in named:
        setattr(m, k, uniform)
    try:
        yield log
    finally:
        jax.random.uniform = orig
        for m, k in named:
            setattr(m, k, orig)
        jax.clear_caches()
