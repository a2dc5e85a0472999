"""A JAX interpreter that executes the real program on symbolic arrays.

JAX's own tracing machinery runs the code under test; every primitive that
reaches the base level is evaluated over arrays whose elements are SMT terms.
``jit``-ed functions arrive here as jaxprs (JAX's compiler IR) and are
interpreted equation by equation; ``vmap`` and ``grad`` are performed by JAX on
top of this interpreter.
"""

from __future__ import annotations

import itertools
import math
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
import z3
from jax._src import core
from jax._src import custom_derivatives  # noqa: F401
from jax._src import dtypes
from jax._src.lax import lax as lax_internal
from jax._src.lax import slicing

from . import values as V
from .ctx import STATS, Unsupported, ctx, div, sqrt, unary_fn

BOOL, INT, FLOAT = "b", "i", "f"


def kind_of(dtype):
    dtype = np.dtype(dtype) if not dtypes.issubdtype(dtype, dtypes.extended) else dtype
    if dtype == np.bool_:
        return BOOL
    if np.issubdtype(dtype, np.integer):
        return INT
    if np.issubdtype(dtype, np.floating):
        return FLOAT
    if str(dtype) == "float0":
        return BOOL
    raise Unsupported(f"dtype {dtype}")


def elem(kind, x):
    if kind == BOOL:
        return bool(x)
    if kind == INT:
        return int(x)
    return V.from_float(x)


def to_obj(x):
    """Concrete array -> object ndarray of elements."""
    x = np.asarray(x)
    k = kind_of(x.dtype)
    out = np.empty(x.shape, dtype=object)
    for idx in np.ndindex(*x.shape):
        out[idx] = elem(k, x[idx])
    return out


def objarr(shape, items):
    out = np.empty(shape, dtype=object)
    flat = out.reshape(-1) if out.shape else None
    items = list(items)
    if out.shape == ():
        out[()] = items[0]
    else:
        for i, it in enumerate(items):
            flat[i] = it
    return out


def flatten(a):
    return [a[i] for i in np.ndindex(*a.shape)]


class SymTracer(core.Tracer):
    __slots__ = ["_aval", "arr"]

    def __init__(self, trace, arr, dtype, weak_type=False):
        super().__init__(trace)
        self.arr = arr
        self._aval = core.ShapedArray(arr.shape, np.dtype(dtype), weak_type=weak_type)

    @property
    def aval(self):
        return self._aval

    def _contents(self):
        return ()

    def __repr__(self):
        return f"Sym{self._aval.str_short()}"

    def _pretty_print(self):
        from jax._src import pretty_printer as pp
        return pp.text(repr(self))

    # concretisation = path forking
    def __bool__(self):
        if self.size != 1:
            raise TypeError("truth value of non scalar")
        e = flatten(self.arr)[0]
        k = kind_of(self.dtype)
        if k == BOOL:
            return ctx().branch(e)
        if k == INT:
            return e != 0 if isinstance(e, int) else ctx().branch(e != 0)
        return ctx().branch(V.b_or(V.isnan(e), V.cmp("ne", e, V.F0)))

    def __index__(self):
        e = flatten(self.arr)[0]
        return ctx().choose_int(e)

    def __int__(self):
        if kind_of(self.dtype) == INT:
            return self.__index__()
        raise Unsupported("int() of a symbolic float")

    def __float__(self):
        e = flatten(self.arr)[0]
        if isinstance(e, Fraction):
            return float(e)
        raise Unsupported("float() of a symbolic value")

    def __array__(self, *a, **k):
        if all(V.is_const(e) for e in flatten(self.arr)):
            return to_concrete(self)
        raise Unsupported("numpy conversion of a symbolic array")

    def __format__(self, spec):
        return repr(self)


def to_concrete(t):
    k = kind_of(t.dtype)
    out = np.empty(t.shape, dtype=t.dtype)
    for i in np.ndindex(*t.shape):
        e = t.arr[i]
        if isinstance(e, V.Ext):
            e = float("nan") if e is V.NAN else float("inf") if e is V.PINF else float("-inf")
        out[i] = e if k != FLOAT else float(e)
    return out


def getarr(x):
    if isinstance(x, SymTracer):
        return x.arr
    if isinstance(x, core.Tracer):
        raise Unsupported(f"foreign tracer {type(x)}")
    return to_obj(np.asarray(x))


def is_sym(x):
    return isinstance(x, SymTracer)


def avalof(x):
    return core.get_aval(x)


class SymTrace(core.Trace):
    __slots__ = ()

    # ------------------------------------------------------------ dispatch
    def process_primitive(self, prim, args, params):
        STATS.prims += 1
        STATS.prim_names[prim.name] = STATS.prim_names.get(prim.name, 0) + 1
        hook = HOOKS.get(prim.name)
        if hook is not None:
            r = hook(self, prim, args, params)
            if r is not NotImplemented:
                return r
        if prim.name in CALLS:
            return CALLS[prim.name](self, prim, args, params)
        if not any(is_sym(a) for a in args):
            with core.set_current_trace(core.eval_trace):
                return prim.bind_with_trace(core.eval_trace, args, params)
        if prim.name in RULES:
            rule = RULES[prim.name]
        elif prim.name in STRUCT:
            rule = structural
        elif prim.name in LINEAR:
            rule = linear_rule
        else:
            raise Unsupported(f"primitive {prim.name}")
        out_avals, _ = prim.abstract_eval(*[avalof(a) for a in args], **params)
        out = rule(self, prim, args, params, out_avals)
        if prim.multiple_results:
            return [self.box(o, a) for o, a in zip(out, out_avals)]
        return self.box(out, out_avals)

    def box(self, arr, aval):
        if isinstance(arr, (SymTracer, jax.Array)):
            return arr
        if arr.shape != tuple(aval.shape):
            raise Unsupported(f"shape mismatch {arr.shape} {aval}")
        return wrap(self, arr, aval.dtype, getattr(aval, "weak_type", False))

    def process_call(self, primitive, f, tracers, params):
        return f.call_wrapped(*tracers)

    def process_custom_jvp_call(self, primitive, fun, jvp, tracers, **_):
        with core.set_current_trace(self):
            return fun.call_wrapped(*tracers)

    def process_custom_vjp_call(self, primitive, fun, fwd, bwd, tracers, **_):
        with core.set_current_trace(self):
            return fun.call_wrapped(*tracers)

    def process_custom_transpose(self, prim, call, tracers, **_):
        with core.set_current_trace(self):
            return call.call_wrapped(*tracers)


def wrap(trace, arr, dtype, weak_type=False):
    """Box; fully concrete bool/int arrays become ordinary JAX arrays."""
    dtype = np.dtype(dtype) if str(dtype) != "float0" else dtype
    k = kind_of(dtype)
    if k in (BOOL, INT) and all(isinstance(e, (bool, int)) for e in flatten(arr)):
        c = np.empty(arr.shape, dtype=dtype)
        for i in np.ndindex(*arr.shape):
            c[i] = arr[i]
        with core.set_current_trace(core.eval_trace):
            return jnp.asarray(c)
    return SymTracer(trace, arr, dtype, weak_type)


TRACE = SymTrace()
HOOKS = {}


def symbolic(arr, dtype=np.float32):
    """Make a symbolic array out of nested lists / ndarray of elements."""
    a = np.empty(np.shape(arr), dtype=object) if not isinstance(arr, np.ndarray) else arr
    if not isinstance(arr, np.ndarray):
        def fill(x, pre):
            if isinstance(x, (list, tuple)):
                for i, y in enumerate(x):
                    fill(y, (*pre, i))
            else:
                a[pre] = x
        fill(arr, ())
    return SymTracer(TRACE, a, dtype)


def run(f, *args, **kwargs):
    """Execute f with the symbolic interpreter as JAX's base level."""
    with core.set_current_trace(TRACE):
        return f(*args, **kwargs)


def out(x):
    """Result -> object ndarray of elements."""
    return getarr(x)


def scalar(x):
    a = getarr(x)
    return flatten(a)[0]


# ------------------------------------------------------------ jaxpr evaluation
def eval_jaxpr(jaxpr, consts, *args):
    env = {}

    def read(v):
        return v.val if isinstance(v, core.Literal) else env[v]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    with core.set_current_trace(TRACE):
        for eqn in jaxpr.eqns:
            subfuns, bp = eqn.primitive.get_bind_params(eqn.params)
            ans = eqn.primitive.bind(*subfuns, *[read(v) for v in eqn.invars], **bp)
            if eqn.primitive.multiple_results:
                for v, a in zip(eqn.outvars, ans):
                    env[v] = a
            else:
                env[eqn.outvars[0]] = ans
    res = []
    for v in jaxpr.outvars:
        r = read(v)
        if not isinstance(r, core.Tracer):
            with core.set_current_trace(core.eval_trace):
                if isinstance(v, core.Literal) and not dtypes.issubdtype(
                        v.aval.dtype, dtypes.extended):
                    r = jnp.asarray(r, dtype=v.aval.dtype)
        res.append(r)
    return res


CALLS = {}


def call(name):
    def deco(f):
        CALLS[name] = f
        return f
    return deco


PJIT_HOOKS = {}


@call("pjit")
def _pjit(trace, prim, args, params):
    h = PJIT_HOOKS.get(params.get("name"))
    if h is not None:
        r = h(args, params)
        if r is not NotImplemented:
            return r
    cj = params["jaxpr"]
    return eval_jaxpr(cj.jaxpr, cj.consts, *args)


def _hypot(args, params):
    """jnp.hypot (rescaled against overflow) is sqrt(x^2 + y^2) over the reals."""
    eqns = params["jaxpr"].jaxpr.eqns
    names = [e.primitive.name for e in eqns]
    if len(args) != 2 or len(params["jaxpr"].out_avals) != 1 or "max" not in names or "sqrt" not in names:
        return NotImplemented
    x, y = args
    if any(kind_of(avalof(a).dtype) != FLOAT for a in args):
        return NotImplemented
    (av,) = params["jaxpr"].out_avals
    a, b = bcast(args, tuple(av.shape))
    r = [sqrt(V.add(V.mul(p, p), V.mul(q, q))) for p, q in zip(flatten(a), flatten(b))]
    return [wrap(TRACE, objarr(tuple(av.shape), r), av.dtype)]


PJIT_HOOKS["hypot"] = _hypot


def _negative(x):
    """Sign bit (the sign of a zero or NaN is not modelled)."""
    return V.b_and(V.b_not(V.isnan(x)), V.cmp("lt", x, V.F0))


def _signbit(args, params):
    if len(args) != 1 or kind_of(avalof(args[0]).dtype) != FLOAT:
        return NotImplemented
    (av,) = params["jaxpr"].out_avals
    a = getarr(args[0])
    return [wrap(TRACE, objarr(a.shape, [_negative(x) for x in flatten(a)]), av.dtype)]


def _copysign(args, params):
    if len(args) != 2 or any(kind_of(avalof(a).dtype) != FLOAT for a in args):
        return NotImplemented
    (av,) = params["jaxpr"].out_avals
    a, b = bcast(args, tuple(av.shape))
    r = [V.f_ite(_negative(y), V.neg(V.absv(x)), V.absv(x)) for x, y in zip(flatten(a), flatten(b))]
    return [wrap(TRACE, objarr(tuple(av.shape), r), av.dtype)]


def _det(m):
    if len(m) == 1:
        return m[0][0]
    r = V.F0
    for j, x in enumerate(m[0]):
        t = V.mul(x, _det([row[:j] + row[j + 1:] for row in m[1:]]))
        r = V.add(r, t) if j % 2 == 0 else V.sub(r, t)
    return r


def _cramer(args, params):
    """Small linear systems by Cramer's rule (a singular matrix gives NaN/inf)."""
    if len(args) != 2 or any(kind_of(avalof(a).dtype) != FLOAT for a in args):
        return NotImplemented
    a, b = map(getarr, args)
    if a.ndim != 2 or a.shape[0] > 3 or b.ndim not in (1, 2) or b.shape[0] != a.shape[0]:
        return NotImplemented
    (av,) = params["jaxpr"].out_avals
    n, m = a.shape[0], a.tolist()
    d, B = _det(m), b.reshape(n, -1)
    out = np.empty(B.shape, dtype=object)
    for c in range(B.shape[1]):
        for i in range(n):
            out[i, c] = div(_det([row[:i] + [B[k, c]] + row[i + 1:] for k, row in enumerate(m)]), d)
    return [wrap(TRACE, out.reshape(b.shape), av.dtype)]


PJIT_HOOKS["signbit"] = _signbit
PJIT_HOOKS["copysign"] = _copysign
PJIT_HOOKS["solve"] = _cramer


@call("closed_call")
@call("core_closed_call")
@call("remat2")
@call("checkpoint")
def _closed(trace, prim, args, params):
    cj = params.get("call_jaxpr", params.get("jaxpr"))
    if isinstance(cj, core.ClosedJaxpr):
        return eval_jaxpr(cj.jaxpr, cj.consts, *args)
    return eval_jaxpr(cj, (), *args)


@call("custom_jvp_call")
def _cjvp(trace, prim, args, params):
    cj = params["call_jaxpr"]
    return eval_jaxpr(cj.jaxpr, cj.consts, *args)


@call("custom_vjp_call_jaxpr")
def _cvjp(trace, prim, args, params):
    cj = params["fun_jaxpr"]
    return eval_jaxpr(cj.jaxpr, cj.consts, *args)


@call("custom_vjp_call")
def _cvjp2(trace, prim, args, params):
    cj = params["call_jaxpr"]
    return eval_jaxpr(cj.jaxpr, cj.consts, *args)


@call("scan")
def _scan(trace, prim, args, params):
    nc, ncar = params["num_consts"], params["num_carry"]
    length, reverse, cj = params["length"], params["reverse"], params["jaxpr"]
    consts, carry, xs = args[:nc], list(args[nc:nc + ncar]), args[nc + ncar:]
    ys = []
    order = range(length - 1, -1, -1) if reverse else range(length)
    nys = len(cj.out_avals) - ncar
    rows = [None] * length
    for i in order:
        xi = [take0(x, i) for x in xs]
        res = eval_jaxpr(cj.jaxpr, cj.consts, *consts, *carry, *xi)
        carry = list(res[:ncar])
        rows[i] = res[ncar:]
    for j in range(nys):
        aval = cj.out_avals[ncar + j]
        arr = np.empty((length, *aval.shape), dtype=object)
        for i in range(length):
            v = getarr(rows[i][j])
            arr[i] = v if v.ndim else v[()]
        ys.append(wrap(trace, arr, aval.dtype))
    return carry + ys


def take0(x, i):
    if is_sym(x):
        a = x.arr[i]
        if not isinstance(a, np.ndarray):
            b = np.empty((), dtype=object)
            b[()] = a
            a = b
        return wrap(TRACE, a, x.dtype)
    with core.set_current_trace(core.eval_trace):
        return jnp.asarray(x)[i]


def merge(c, a, b, aval):
    """Element-wise ite of two results."""
    aa, bb = getarr(a), getarr(b)
    f = {BOOL: V.b_ite, INT: i_ite, FLOAT: V.f_ite}[kind_of(aval.dtype)]
    return wrap(TRACE, objarr(aa.shape, [f(c, x, y) for x, y in zip(flatten(aa), flatten(bb))]), aval.dtype)


@call("cond")
def _cond(trace, prim, args, params):
    branches = params["branches"]
    idx, ops = args[0], args[1:]
    e = flatten(getarr(idx))[0]
    if isinstance(e, bool):
        e = int(e)
    if isinstance(e, int):
        e = min(max(e, 0), len(branches) - 1)
        b = branches[e]
        return eval_jaxpr(b.jaxpr, b.consts, *ops)
    results = [eval_jaxpr(b.jaxpr, b.consts, *ops) for b in branches]
    res = results[-1]
    for k in range(len(branches) - 2, -1, -1):
        if z3.is_bool(e):
            c = V.b_not(e) if k == 0 else False
        else:
            c = e <= k if k == 0 else e == k
        res = [merge(c, x, y, av) for x, y, av in zip(results[k], res, branches[k].out_avals)]
    return res


@call("while")
def _while(trace, prim, args, params):
    cn, bn = params["cond_nconsts"], params["body_nconsts"]
    cj, bj = params["cond_jaxpr"], params["body_jaxpr"]
    cc, bc, carry = args[:cn], args[cn:cn + bn], list(args[cn + bn:])
    for _ in range(4096):
        p = eval_jaxpr(cj.jaxpr, cj.consts, *cc, *carry)[0]
        e = flatten(getarr(p))[0]
        if not ctx().branch(e):
            return carry
        carry = eval_jaxpr(bj.jaxpr, bj.consts, *bc, *carry)
    raise Unsupported("while: unrolling bound reached")


# ------------------------------------------------------------ element-wise
RULES = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f
    return deco


def i_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    return z3.If(c, iz(a), iz(b))


def iz(a):
    return z3.IntVal(a) if isinstance(a, int) else a


def i_cmp(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op]
    a, b = iz(a), iz(b)
    return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op]


def bcast(args, shape):
    arrs = [getarr(a) for a in args]
    return [np.broadcast_to(a, shape) if a.shape != shape else a for a in arrs]


def elementwise(f):
    def r(trace, prim, args, params, aval):
        k = kind_of(avalof(args[0]).dtype)
        arrs = bcast(args, tuple(aval.shape))
        return objarr(tuple(aval.shape), [f(k, *xs) for xs in zip(*map(flatten, arrs))])
    return r


def ew(*names):
    def deco(f):
        for n in names:
            RULES[n] = elementwise(f)
        return f
    return deco


@ew("add", "add_any")
def _add(k, a, b):
    return V.add(a, b) if k == FLOAT else a + b


@ew("sub")
def _sub(k, a, b):
    return V.sub(a, b) if k == FLOAT else a - b


@ew("mul")
def _mul(k, a, b):
    if k == BOOL:
        return V.b_and(a, b)
    return V.mul(a, b) if k == FLOAT else a * b


@ew("div")
def _div(k, a, b):
    if k == FLOAT:
        return div(a, b)
    if isinstance(b, int) and b > 0:
        if isinstance(a, int):
            return int(a / b)
        return z3.If(a >= 0, a / b, -((-a) / b))
    raise Unsupported("int division")


@ew("rem")
def _rem(k, a, b):
    if k == INT and isinstance(a, int) and isinstance(b, int):
        return int(np.fmod(a, b))
    if k == INT and isinstance(b, int) and b > 0:
        return z3.If(iz(a) >= 0, iz(a) % b, -((-iz(a)) % b))
    if k == FLOAT and isinstance(b, Fraction) and b != 0:
        q = _trunc(div(a, b))
        return V.sub(a, V.mul(b, q))
    raise Unsupported("rem")


def _integer(kind, a):
    if isinstance(a, V.Ext):
        return V.f_ite(V.special(a), a, _integer(kind, a.v))
    if isinstance(a, (Fraction, int)):
        a = Fraction(a)
        return Fraction(math.floor(a) if kind == "floor" else round(a))
    return unary_fn(kind, a)


def _trunc(a):
    return V.f_ite(V.cmp("lt", a, V.F0), V.neg(_integer("floor", V.neg(a))), _integer("floor", a))


@ew("floor")
def _floor(k, a):
    return _integer("floor", a)


@ew("ceil")
def _ceil(k, a):
    return V.neg(_integer("floor", V.neg(a)))


@rule("round")
def _round(trace, prim, args, params, aval):
    a = getarr(args[0])
    if int(params["rounding_method"]) == 1:
        f = lambda x: _integer("rint", x)
    else:
        f = lambda x: V.mul(V.sign(x), _integer("floor", V.add(V.absv(x), Fraction(1, 2))))
    return objarr(a.shape, [f(x) for x in flatten(a)])


@ew("neg")
def _neg(k, a):
    return V.neg(a) if k == FLOAT else -a


@ew("abs")
def _abs(k, a):
    if k == FLOAT:
        return V.absv(a)
    return abs(a) if isinstance(a, int) else z3.If(a >= 0, a, -a)


@ew("sign")
def _sign(k, a):
    if k == FLOAT:
        return V.sign(a)
    return i_ite(i_cmp("gt", a, 0), 1, i_ite(i_cmp("lt", a, 0), -1, 0))


@ew("max")
def _max(k, a, b):
    if k == BOOL:
        return V.b_or(a, b)
    if k == INT:
        return i_ite(i_cmp("ge", a, b), a, b)
    return V.maximum(a, b)


@ew("min")
def _min(k, a, b):
    if k == BOOL:
        return V.b_and(a, b)
    if k == INT:
        return i_ite(i_cmp("le", a, b), a, b)
    return V.minimum(a, b)


def _mkcmp(op):
    def f(k, a, b):
        if k == BOOL:
            if op == "eq":
                return V.b_eq(a, b)
            if op == "ne":
                return V.b_xor(a, b)
            na, nb = V.b_not(a), V.b_not(b)
            return {"lt": V.b_and(na, b), "gt": V.b_and(a, nb),
                    "le": V.b_or(na, b), "ge": V.b_or(a, nb)}[op]
        if k == INT:
            return i_cmp(op, a, b)
        return V.cmp(op, a, b)
    return f


for _op in ("lt", "le", "gt", "ge", "eq", "ne"):
    RULES[_op] = elementwise(_mkcmp(_op))


def _total(op):
    """Total order: NaN above everything (the zeros are the same)."""
    def f(k, a, b):
        if k != FLOAT:
            return _mkcmp(op)(k, a, b)
        na, nb = V.isnan(a), V.isnan(b)
        r = V.b_or(V.b_and(V.b_not(na), nb), V.b_and(V.b_not(na), V.b_not(nb), V.cmp(op, a, b)))
        return V.b_or(r, V.b_and(na, nb)) if op == "le" else r
    return f


RULES["lt_to"], RULES["le_to"] = elementwise(_total("lt")), elementwise(_total("le"))


@ew("and")
def _and(k, a, b):
    if k == BOOL:
        return V.b_and(a, b)
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    raise Unsupported("bitwise and")


@ew("or")
def _or(k, a, b):
    if k == BOOL:
        return V.b_or(a, b)
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    raise Unsupported("bitwise or")


@ew("xor")
def _xor(k, a, b):
    if k == BOOL:
        return V.b_xor(a, b)
    raise Unsupported("bitwise xor")


@ew("not")
def _not(k, a):
    if k == BOOL:
        return V.b_not(a)
    raise Unsupported("bitwise not")


@ew("sqrt")
def _sqrt(k, a):
    return sqrt(a)


@ew("rsqrt")
def _rsqrt(k, a):
    return div(V.F1, sqrt(a))


@ew("square")
def _square(k, a):
    return V.mul(a, a) if k == FLOAT else a * a


@ew("sin")
def _sin(k, a):
    return unary_fn("sin", a)


@ew("cos")
def _cos(k, a):
    return unary_fn("cos", a)


@ew("logistic")
def _logistic(k, a):
    return unary_fn("logistic", a)


@ew("exp")
def _exp(k, a):
    return unary_fn("exp", a)


@ew("tanh")
def _tanh(k, a):
    return unary_fn("tanh", a)


@ew("is_finite")
def _is_finite(k, a):
    return V.finite(a)


@ew("copy", "copy_p", "stop_gradient", "real", "conj", "optimization_barrier1")
def _copy(k, a):
    return a


@ew("nextafter")
def _nextafter(k, a, b):
    return a


def _integer_pow(a, y):
    if y == 0:
        return V.F1
    if y < 0:
        return div(V.F1, _integer_pow(a, -y))
    r = a
    for _ in range(y - 1):
        r = V.mul(r, a)
    return r


@rule("integer_pow")
def _ipow(trace, prim, args, params, aval):
    a = getarr(args[0])
    return objarr(a.shape, [_integer_pow(x, params["y"]) for x in flatten(a)])


@rule("pow")
def _pow(trace, prim, args, params, aval):
    a, b = bcast(args, tuple(aval.shape))
    res = []
    for x, y in zip(flatten(a), flatten(b)):
        if isinstance(y, int):
            res.append(_integer_pow(x, y))
        elif isinstance(y, Fraction) and y.denominator == 1:
            res.append(_integer_pow(x, int(y)))
        elif isinstance(y, Fraction) and y == Fraction(1, 2):
            res.append(sqrt(x))
        elif isinstance(y, Fraction) and y == Fraction(-1, 2):
            res.append(div(V.F1, sqrt(x)))
        elif isinstance(x, Fraction) and isinstance(y, Fraction):
            res.append(V.from_float(np.float32(float(x) ** float(y))))
        else:
            raise Unsupported("pow with symbolic exponent")
    return objarr(tuple(aval.shape), res)


@rule("clamp")
def _clamp(trace, prim, args, params, aval):
    k = kind_of(aval.dtype)
    lo, x, hi = bcast(args, tuple(aval.shape))
    if k == INT:
        f = lambda l, v, h: i_ite(i_cmp("lt", v, l), l, i_ite(i_cmp("gt", v, h), h, v))
    else:
        f = lambda l, v, h: V.minimum(V.maximum(v, l), h)
    return objarr(tuple(aval.shape), [f(*t) for t in zip(flatten(lo), flatten(x), flatten(hi))])


@rule("select_n")
def _select_n(trace, prim, args, params, aval):
    which, cases = args[0], args[1:]
    w = np.broadcast_to(getarr(which), tuple(aval.shape))
    arrs = bcast(cases, tuple(aval.shape))
    k = kind_of(aval.dtype)
    f = {BOOL: V.b_ite, INT: i_ite, FLOAT: V.f_ite}[k]
    res = []
    for i, ws in enumerate(flatten(w)):
        xs = [flatten(a)[i] for a in arrs] if i == 0 else None
        break
    cols = list(zip(*[flatten(a) for a in arrs]))
    for ws, xs in zip(flatten(w), cols):
        if isinstance(ws, z3.BoolRef):
            kn = ctx().known(ws)
            ws = ws if kn is None else kn
        if isinstance(ws, bool):
            res.append(xs[int(ws)])
        elif isinstance(ws, int):
            res.append(xs[ws])
        elif z3.is_bool(ws):
            if len(xs) == 1:
                res.append(xs[0])
            else:
                res.append(f(ws, xs[1], xs[0]))
        else:
            r = xs[-1]
            for j in range(len(xs) - 2, -1, -1):
                r = f(ws == j, xs[j], r)
            res.append(r)
    if k == FLOAT:
        res = [tidy(x) for x in res]
    return objarr(tuple(aval.shape), res)


def tidy(x):
    """Drop special-value flags that are propositionally impossible."""
    if isinstance(x, V.Ext) and not V.is_const(x):
        if ctx().definitely(V.finite(x), 400):
            return x.v
    return x


@rule("convert_element_type")
def _convert(trace, prim, args, params, aval):
    src = kind_of(avalof(args[0]).dtype)
    dst = kind_of(params["new_dtype"])
    a = getarr(args[0])

    def f(x):
        if src == dst:
            return x
        if src == BOOL:
            if dst == INT:
                return int(x) if isinstance(x, bool) else z3.If(x, z3.IntVal(1), z3.IntVal(0))
            return V.f_ite(x, V.F1, V.F0)
        if src == INT:
            if dst == BOOL:
                return i_cmp("ne", x, 0)
            return Fraction(x) if isinstance(x, int) else z3.ToReal(x)
        if dst == BOOL:
            return V.b_or(V.isnan(x), V.cmp("ne", x, V.F0))
        if isinstance(x, Fraction):
            return int(x)
        if isinstance(x, V.Ext):
            raise Unsupported("float->int of special")
        return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))

    return objarr(a.shape, [f(x) for x in flatten(a)])


def reducer(op):
    def r(trace, prim, args, params, aval):
        a = getarr(args[0])
        k = kind_of(avalof(args[0]).dtype)
        axes = tuple(params["axes"])
        keep = [i for i in range(a.ndim) if i not in axes]
        res = np.empty(tuple(a.shape[i] for i in keep), dtype=object)
        moved = np.transpose(a, keep + list(axes))
        for idx in np.ndindex(*res.shape):
            sub = moved[idx]
            items = flatten(sub) if isinstance(sub, np.ndarray) else [sub]
            acc = None
            for it in items:
                acc = it if acc is None else op(k, acc, it)
            if acc is None:
                acc = _ident(prim.name, k)
            res[idx] = acc
        return res
    return r


def _ident(name, k):
    if name == "reduce_sum":
        return V.F0 if k == FLOAT else 0
    if name == "reduce_prod":
        return V.F1 if k == FLOAT else 1
    if name == "reduce_and":
        return True
    if name == "reduce_or":
        return False
    if name == "reduce_max" and k == FLOAT:
        return V.NINF
    if name == "reduce_min" and k == FLOAT:
        return V.PINF
    raise Unsupported("empty reduction")


RULES["reduce_sum"] = reducer(_add)
RULES["reduce_prod"] = reducer(_mul)
RULES["reduce_max"] = reducer(_max)
RULES["reduce_min"] = reducer(_min)
RULES["reduce_and"] = reducer(_and)
RULES["reduce_or"] = reducer(_or)
RULES["reduce_xor"] = reducer(_xor)


def _argred(is_min):
    def r(trace, prim, args, params, aval):
        a = getarr(args[0])
        k = kind_of(avalof(args[0]).dtype)
        (ax,) = params["axes"]
        keep = [i for i in range(a.ndim) if i != ax]
        moved = np.transpose(a, keep + [ax])
        res = np.empty(tuple(a.shape[i] for i in keep), dtype=object)
        for idx in np.ndindex(*res.shape):
            items = list(moved[idx])
            best, bi = items[0], 0
            for j in range(1, len(items)):
                x = items[j]
                if k == FLOAT:
                    better = V.cmp("lt" if is_min else "gt", x, best)
                    better = V.b_or(better, V.b_and(V.isnan(x), V.b_not(V.isnan(best))))
                    better = V.b_and(better, V.b_not(V.isnan(best)))
                    best = V.f_ite(better, x, best)
                else:
                    better = i_cmp("lt" if is_min else "gt", x, best)
                    best = i_ite(better, x, best)
                bi = i_ite(better, j, bi)
            res[idx] = bi
        return res
    return r


RULES["argmin"] = _argred(True)
RULES["argmax"] = _argred(False)


@rule("dot_general")
def _dot(trace, prim, args, params, aval):
    (lc, rc), (lb, rb) = params["dimension_numbers"]
    a, b = getarr(args[0]), getarr(args[1])
    k = kind_of(aval.dtype)
    lfree = [i for i in range(a.ndim) if i not in lc and i not in lb]
    rfree = [i for i in range(b.ndim) if i not in rc and i not in rb]
    A = np.transpose(a, list(lb) + lfree + list(lc))
    B = np.transpose(b, list(rb) + rfree + list(rc))
    bs = tuple(a.shape[i] for i in lb)
    ls = tuple(a.shape[i] for i in lfree)
    rs = tuple(b.shape[i] for i in rfree)
    res = np.empty(bs + ls + rs, dtype=object)
    for bi in np.ndindex(*bs):
        for li in np.ndindex(*ls):
            for ri in np.ndindex(*rs):
                x, y = A[bi + li], B[bi + ri]
                xs = flatten(x) if isinstance(x, np.ndarray) else [x]
                ys = flatten(y) if isinstance(y, np.ndarray) else [y]
                acc = V.F0 if k == FLOAT else 0
                for p, q in zip(xs, ys):
                    acc = _add(k, acc, _mul(k, p, q))
                res[bi + li + ri] = acc
    return res


def _cumulative(step):
    def f(trace, prim, args, params, aval):
        k = kind_of(aval.dtype)
        a = np.moveaxis(getarr(args[0]).copy(), params["axis"], 0)
        idx = list(range(a.shape[0]))
        if params["reverse"]:
            idx.reverse()
        for p, i in zip(idx, idx[1:]):
            for j in np.ndindex(*a.shape[1:]):
                a[(i, *j)] = step(k, a[(p, *j)], a[(i, *j)])
        return np.moveaxis(a, 0, params["axis"])
    return f


RULES["cumsum"], RULES["cumprod"] = _cumulative(_add), _cumulative(_mul)
RULES["cummax"], RULES["cummin"] = _cumulative(_max), _cumulative(_min)


@rule("top_k")
def _top_k(trace, prim, args, params, avals):
    a, kind, k = getarr(args[0]), kind_of(avalof(args[0]).dtype), params["k"]
    gt = (lambda x, y: i_cmp("gt", x, y)) if kind == INT else (
        lambda x, y: V.b_or(V.b_and(V.isnan(x), V.b_not(V.isnan(y))), V.cmp("gt", x, y)))
    ite = i_ite if kind == INT else V.f_ite
    vals, idx = [np.empty((*a.shape[:-1], k), dtype=object) for _ in range(2)]
    for j in np.ndindex(*a.shape[:-1]):
        rows = [(a[(*j, i)], i) for i in range(a.shape[-1])]
        for n in range(k):
            for m in range(len(rows) - 1, n, -1):
                (x, ix), (y, iy) = rows[m - 1], rows[m]
                c = gt(y, x)
                rows[m - 1], rows[m] = (ite(c, y, x), i_ite(c, iy, ix)), (ite(c, x, y), i_ite(c, ix, iy))
            vals[(*j, n)], idx[(*j, n)] = rows[n]
    return [vals, idx]


@rule("optimization_barrier")
def _ob(trace, prim, args, params, avals):
    return [getarr(a) for a in args]


@rule("sort")
def _sort(trace, prim, args, params, avals):
    """Stable sorting network on the first num_keys operands (NaN last)."""
    ops = [getarr(a) for a in args]
    ks = [kind_of(avalof(a).dtype) for a in args]
    nk, ax = params["num_keys"], params["dimension"]
    if ks.count(BOOL):
        raise Unsupported("sort of booleans")

    def lt(k, a, b):
        if k == INT:
            return i_cmp("lt", a, b)
        return V.b_and(V.b_not(V.isnan(a)), V.b_or(V.isnan(b), V.cmp("lt", a, b)))

    def less(x, y):
        r = False
        for k, a, b in reversed(list(zip(ks[:nk], x, y))):
            r = V.b_or(lt(k, a, b), V.b_and(V.b_not(lt(k, b, a)), r))
        return r
    out = [np.moveaxis(a.copy(), ax, -1) for a in ops]
    n = out[0].shape[-1]
    for idx in np.ndindex(*out[0].shape[:-1]):
        rows = [[o[idx + (i,)] for o in out] for i in range(n)]
        for i in range(n):
            for j in range(n - 1 - i):
                x, y = rows[j], rows[j + 1]
                s = less(y, x)
                ite = [i_ite if k == INT else V.f_ite for k in ks]
                rows[j] = [f(s, b, a) for f, a, b in zip(ite, x, y)]
                rows[j + 1] = [f(s, a, b) for f, a, b in zip(ite, x, y)]
        for i in range(n):
            for o, v in zip(out, rows[i]):
                o[idx + (i,)] = v
    return [np.moveaxis(o, -1, ax) for o in out]


# ------------------------------------------------------------ structural ops
STRUCT = {
    "broadcast_in_dim", "reshape", "squeeze", "expand_dims", "transpose", "slice", "rev",
    "concatenate", "pad", "gather", "dynamic_slice", "dynamic_update_slice",
    "scatter", "device_put", "copy_p", "split", "reduce_precision", "select_and_gather_add",
    "broadcast", "squeeze", "mul_dummy",
}
# index operands: position -> must be concrete (or enumerated)
INDEX_ARGS = {
    "gather": lambda n: [1],
    "dynamic_slice": lambda n: list(range(1, n)),
    "dynamic_update_slice": lambda n: list(range(2, n)),
    "scatter": lambda n: [1],
    "scatter-add": lambda n: [1],
    "scatter_add": lambda n: [1],
}
LINEAR = {"scatter-add", "scatter_add", "reduce_window_sum", "cumlogsumexp_no"}


def structural(trace, prim, args, params, aval):
    idxpos = INDEX_ARGS.get(prim.name, lambda n: [])(len(args))
    for p in idxpos:
        if is_sym(args[p]):
            return enumerate_index(trace, prim, args, params, aval, p)
    pool = []
    new = []
    for p, a in enumerate(args):
        if p in idxpos:
            new.append(np.asarray(a))
            continue
        arr = getarr(a)
        base = len(pool)
        pool.extend(flatten(arr))
        new.append(np.arange(base, base + arr.size, dtype=np.int32).reshape(arr.shape))
    params = dict(params)
    k = kind_of(avalof(args[0]).dtype)
    fill = None
    if prim.name == "gather":
        params["fill_value"] = -1
        fill = {FLOAT: V.NAN, INT: -(2 ** 31), BOOL: True}[k]
    if prim.name in ("device_put", "reduce_precision"):
        if prim.name == "device_put":
            return [getarr(a) for a in args]
        return getarr(args[0])
    with core.set_current_trace(core.eval_trace):
        r = prim.bind_with_trace(core.eval_trace, [jnp.asarray(x) for x in new], params)
    if prim.multiple_results:
        return [objarr(x.shape, [pool[j] for j in np.asarray(x).reshape(-1)]) for x in r]
    r = np.asarray(r)
    return objarr(r.shape, [fill if j < 0 else pool[j] for j in r.reshape(-1)])


def enumerate_index(trace, prim, args, params, aval, p):
    """Symbolic index operand: case split over its feasible values."""
    arr = getarr(args[p])
    flat = flatten(arr)
    dtype = avalof(args[p]).dtype
    opshape = avalof(args[0]).shape
    bound = max(opshape) if opshape else 1
    symi = [i for i, e in enumerate(flat) if not isinstance(e, int)]
    if len(symi) > 3:
        raise Unsupported("too many symbolic indices")
    lo, hi = -bound, bound
    result = None
    k = kind_of(aval.dtype)
    f = {BOOL: V.b_ite, INT: i_ite, FLOAT: V.f_ite}[k]
    combos = []
    for combo in itertools.product(range(lo, hi + 1), repeat=len(symi)):
        cond = V.b_and(*[flat[i] == v for i, v in zip(symi, combo)])
        if ctx().definitely(V.b_not(cond)):
            continue
        combos.append((cond, combo))
    # completeness of the case split
    if not ctx().definitely(V.b_or(*[c for c, _ in combos])):
        raise Unsupported("symbolic index may leave the enumerated range")
    for cond, combo in combos:
        cur = list(flat)
        for i, v in zip(symi, combo):
            cur[i] = v
        na = list(args)
        with core.set_current_trace(core.eval_trace):
            na[p] = jnp.asarray(np.array(cur, dtype=np.int64).reshape(arr.shape).astype(dtype))
        r = RULES_or_struct(prim)(trace, prim, na, params, aval)
        if result is None:
            result = r
        else:
            result = objarr(r.shape, [f(cond, x, y) for x, y in zip(flatten(r), flatten(result))])
    return result


def RULES_or_struct(prim):
    return structural if prim.name in STRUCT else linear_rule


def linear_rule(trace, prim, args, params, aval):
    """A primitive that is linear in its float operands (scatter-add ...)."""
    idxpos = INDEX_ARGS.get(prim.name, lambda n: [])(len(args))
    for p in idxpos:
        if is_sym(args[p]):
            return enumerate_index(trace, prim, args, params, aval, p)
    shape = tuple(aval.shape)
    integer = kind_of(aval.dtype) == INT
    acc = [0 if integer else V.F0] * int(np.prod(shape, dtype=int))
    zeros = []
    for p, a in enumerate(args):
        if p in idxpos:
            zeros.append(jnp.asarray(np.asarray(a)))
        else:
            zeros.append(np.zeros(avalof(a).shape, dtype=avalof(a).dtype))
    with core.set_current_trace(core.eval_trace):
        for p, a in enumerate(args):
            if p in idxpos:
                continue
            arr = getarr(a)
            for idx in np.ndindex(*arr.shape):
                e = arr[idx]
                if isinstance(e, Fraction) and e == 0:
                    continue
                basis = zeros[p].copy()
                basis[idx] = 1
                cur = list(zeros)
                cur[p] = basis
                r = np.asarray(prim.bind_with_trace(
                    core.eval_trace, [jnp.asarray(c) for c in cur], params)).reshape(-1)
                for j in np.nonzero(r)[0]:
                    acc[j] = acc[j] + int(r[j]) * e if integer else V.add(acc[j], V.mul(Fraction(float(r[j])), e))
    return objarr(shape, acc)


@rule("iota")
def _iota(trace, prim, args, params, aval):
    raise Unsupported("iota with symbolic args")


@rule("split")
def _split(trace, prim, args, params, avals):
    return structural(trace, prim, args, params, avals)


@rule("random_wrap", "random_unwrap", "random_bits", "threefry2x32")
def _rand(trace, prim, args, params, avals):
    raise Unsupported("random bits of a symbolic key")
