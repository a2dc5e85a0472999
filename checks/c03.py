"""C03: the approximation mode is scoped."""
import jax
import numpy as np

from vf import threads as T

BOUNDS = [
    "histories of up to 4 operations (5 in thorough) out of: explicit set, entering the enabling or disabling context with or without argument, leaving normally, leaving through an exception; symbolic initial mode and requested modes",
    "every comparison, connective and truth test, segment and wall obstruction, containment, path and scene validity, each called for the first time in its mode; symbolic operands",
    "2-3 threads, nesting up to 2, explicit sets inside a context, exceptions; all interleavings of the reads and writes of the mode and of the lock operations, symbolic initial and requested modes",
]
ASSUMPTIONS = [
    "each recorded operation on the mode or on a lock is atomic (true of CPython's bytecodes); the operations a thread performs do not depend on the values of the modes (checked when recording: values are opaque tokens)",
]


class Boom(Exception):
    pass


class Mode:
    """A symbolic truth value given to the real code."""

    def __init__(self, h, term):
        self.h, self.term = h, term

    def __bool__(self):
        return self.h.fork(self.term)


def mode(h, name):
    b = h.bool(name)
    return Mode(h, b) if h.sym else b


def term(v):
    return v.term if isinstance(v, Mode) else v if not isinstance(v, np.bool_) else bool(v)


def history(h, depth):
    from differt2d import logic as L
    was = L.ENABLE_APPROX
    stack = []
    try:
        init = mode(h, "initial")
        L.set_approx(init)
        cur = term(init)
        h.check("explicit set", h.Iff(term(L.ENABLE_APPROX), cur))
        for k in range(depth):
            ops = ["stop", "set", "enable", "enable()", "disable", "disable()"] + (["exit", "raise"] if stack else [])
            op = h.pick(f"op{k}", ops)
            if op == "stop":
                break
            if op == "set":
                m = mode(h, f"m{k}")
                L.set_approx(m)
                cur = term(m)
            elif op in ("exit", "raise"):
                cm, saved = stack.pop()
                if op == "exit":
                    cm.__exit__(None, None, None)
                else:
                    e = Boom()
                    try:
                        swallowed = bool(cm.__exit__(Boom, e, None))
                    except Boom as f:
                        swallowed = f is not e
                    h.check("exceptions pass through", not swallowed)
                cur = saved
            else:
                m = None if op.endswith(")") else mode(h, f"m{k}")
                f = L.enable_approx if op.startswith("enable") else L.disable_approx
                cm = f() if m is None else f(m)
                before = L.ENABLE_APPROX
                h.check("nothing happens before entering", h.Iff(term(before), cur))
                cm.__enter__()
                stack.append((cm, cur))
                want = True if m is None else term(m)
                cur = want if op.startswith("enable") else h.Not(want)
            h.check(f"after {op}", h.Iff(term(L.ENABLE_APPROX), cur))
        while stack:
            cm, saved = stack.pop()
            cm.__exit__(None, None, None)
            h.check("restored on the way out", h.Iff(term(L.ENABLE_APPROX), saved))
    finally:
        while stack:
            stack.pop()[0].__exit__(None, None, None)
        L.ENABLE_APPROX = was


def kind(r):
    return "soft" if np.dtype(r.dtype).kind == "f" else "exact" if np.dtype(r.dtype) == bool else str(r.dtype)


def calls(h):
    """name -> function of the approx keyword (or none)."""
    from differt2d import geometry as G
    from differt2d import logic as L
    from differt2d.scene import Scene
    x, y = h.arr(h.real("x")), h.arr(h.real("y"))
    t = [h.arr(h.real(n, 0, 1)) for n in ("t0", "t1", "t2")]
    b = [h.arr(h.bool(n), bool) for n in ("b0", "b1", "b2")]
    seg = [h.arr(h.reals(f"p{i}", 2)) for i in range(2)]
    w = h.run(lambda: G.Wall(xys=h.arr([[0, 0], [1, 0]])))
    v = h.run(lambda: G.Vertex(xy=h.arr([0, 1])))
    ray = h.arr(h.reals("r", 2, 2))
    pts = h.arr(h.reals("q", 3, 2))
    p = h.run(lambda: G.Path(xys=pts, loss=h.arr(h.real("loss", 0))))
    cand = np.array([0], dtype=np.int32)
    import jax.numpy as jnp
    cand = jnp.asarray(cand)
    sc = h.run(lambda: Scene(transmitters=dict(a=G.Point(xy=h.arr(h.reals("tx", 2)))),
                             receivers=dict(b=G.Point(xy=h.arr(h.reals("rx", 2)))), objects=[w]))

    def ops(**k):
        return t if is_soft(k) else b

    def is_soft(k):
        return L.ENABLE_APPROX if k.get("approx") is None else k["approx"]
    r = {f.__name__: (lambda f=f, **k: f(x, y, **k)) for f in (L.greater, L.greater_equal, L.less, L.less_equal)}
    r |= {f.__name__: (lambda f=f, **k: f(*ops(**k)[:2], **k)) for f in (L.logical_or, L.logical_and, L.logical_all, L.logical_any)}
    r |= {f.__name__: (lambda f=f, **k: f(ops(**k)[0], **k)) for f in (L.logical_not, L.is_true, L.is_false)}
    r |= {f.__name__: f for f in (L.true_value, L.false_value)}
    z = jnp.zeros(2)
    r |= {
        "segments_intersect": lambda **k: G.segments_intersect(seg[0], seg[1], z, z + 1.0, **k),
        "wall contains": lambda **k: w.contains_parametric(x.reshape(1), **k),
        "wall intersects": lambda **k: w.intersects_cartesian(ray, **k),
        "vertex contains": lambda **k: v.contains_parametric(jnp.zeros(0), **k),
        "vertex intersects": lambda **k: v.intersects_cartesian(ray, **k),
        "on objects": lambda **k: p.on_objects([w], **k),
        "intersects with objects": lambda **k: p.intersects_with_objects([w, w], cand, **k),
        "path valid": lambda **k: p.is_valid([w, w], cand, [w], **k),
        "scene": lambda **k: next(sc.all_paths(order=0, **k))[2],
    }
    return r


def used(h, name):
    """The ambient mode applies exactly when none is given."""
    from differt2d import logic as L
    f = calls(h)[name]
    amb = h.fork(h.bool("ambient"))

    def fresh(**k):
        jax.clear_caches()
        return h.run(lambda: f(**k))
    with L.enable_approx(amb):
        got = fresh()
        same = fresh(approx=amb)
        other = fresh(approx=not amb)
    with L.enable_approx(not amb):
        flipped = fresh()
        again = fresh(approx=amb)
    logical = name in ("is_true", "is_false")
    for what, r, m in (("no mode given", got, amb), ("same mode given", same, amb), ("other mode given", other, not amb),
                       ("no mode given, other ambient mode", flipped, not amb), ("mode given, other ambient mode", again, amb)):
        h.check(f"{what}: kind of result", kind(r) == ("soft" if m and not logical else "exact"))
    if kind(got) == kind(same) == kind(again) and kind(other) == kind(flipped):
        eq(h, "ambient mode used when none is given", got, same)
        eq(h, "given mode used whatever the ambient one", same, again)
        eq(h, "given mode overrides the ambient one", other, flipped)


def eq(h, name, a, b):
    a, b = h.elem(a), h.elem(b)
    if isinstance(a, (bool, np.bool_)) or (h.sym and hasattr(a, "sort") and str(a.sort()) == "Bool"):
        h.check(name, h.Iff(a, b))
    else:
        h.eqs(name, [a], [b])


def valid_paths(h):
    """The listing of valid paths follows the ambient mode when none is given."""
    from differt2d import geometry as G
    from differt2d import logic as L
    from differt2d.scene import Scene
    amb = h.fork(h.bool("ambient"))
    sc = h.run(lambda: Scene(transmitters=dict(a=G.Point(xy=h.arr([0, 0]))),
                             receivers=dict(b=G.Point(xy=h.arr([0, 2]))),
                             objects=[G.Wall(xys=h.arr([[h.real("u", -2, 2), 1], [3, 1]]))]))
    # obstructed iff u <= 0 or so; the decisions of both modes agree off the edge
    u = h.real("u", -2, 2)
    h.assume(h.Or(u <= -1, u >= 1))

    def n(**k):
        jax.clear_caches()
        return len(h.run(lambda: list(sc.all_valid_paths(order=0, **k))))
    with L.enable_approx(amb):
        got = n()
    want = h.ite(u <= -1, 0, 1)
    h.check("valid paths listed", want == got)


# ---------------------------------------------------------------- threads
def program(L, items, value):
    def run(observe):
        def go(items):
            for it in items:
                if it[0] == "see":
                    observe()
                elif it[0] == "set":
                    L.set_approx(value(it[1]))
                else:
                    f = L.enable_approx if it[0] == "on" else L.disable_approx
                    try:
                        with f(value(it[1])):
                            go(it[2])
                            if len(it) > 3:
                                raise Boom
                    except Boom:
                        pass
        go(items)
    return run


def expected(items, value, cur=None):
    """Modes to be observed, per observation."""
    out = []
    for it in items:
        if it[0] == "see":
            out.append(cur)
        elif it[0] == "set":
            cur = value(it[1])
        else:
            inner = value(it[1])
            if it[0] == "off":
                inner = not inner
            out += expected(it[2], value, inner)
    return out


SEE = ("see",)
A = [("on", "a", [SEE])]
B = [("on", "a", [SEE, ("on", "b", [SEE]), SEE])]
X = [("on", "a", [SEE, ("on", "b", [SEE], "raise"), SEE], "raise")]
D = [("off", True, [SEE, ("off", False, [SEE]), SEE])]
E = [("on", "a", [("set", "b"), SEE, ("on", "a", [SEE]), SEE])]
S = [("on", "a", [SEE]), ("on", "b", [SEE])]
P = [("set", "a")]
PROGRAMS = dict(once=A, nested=B, raising=X, disabling=D, setting=E, twice=S, plain=P)


def schedules(h, names):
    from differt2d import logic as L
    items = [PROGRAMS[n] for n in names]
    toks = {}

    def value(t):
        """Function giving the mode of a name in thread t."""
        def get(n):
            if isinstance(n, bool):
                return n
            if (t, n) not in toks:
                b = h.bool(f"thread{t}_{n}")
                toks[t, n] = (T.Token(b), b)
            return toks[t, n]
        return get

    def tok(t):
        return lambda n: n if isinstance(n, bool) else value(t)(n)[0]

    def val(t):
        return lambda n: n if isinstance(n, bool) else value(t)(n)[1]
    with T.Shared(L, "ENABLE_APPROX") as sh:
        init = h.bool("initial")
        evs = [T.record(sh, program(L, it, tok(t))) for t, it in enumerate(items)]
        if h.sym:
            seen, end = T.encode(h, evs, init, lambda v: v.term if isinstance(v, T.Token) else bool(v))
        else:
            def times(t, i):
                return h.vals.get(f"time_{t}_{i}", 0)
            progs = [program(L, it, val(t)) for t, it in enumerate(items)]
            seen, end = T.replay(sh, evs, progs, times, init)
    for t, it in enumerate(items):
        want = expected(it, val(t))
        h.check(f"thread {t}: observations", len(want) == len(seen[t]))
        for k, (g, w) in enumerate(zip(seen[t], want)):
            h.check(f"thread {t}: its own mode at observation {k}", h.Iff(g, w))
    if "plain" not in names:
        h.check("the initial mode after all contexts are closed", h.Iff(end, init))
    h.observe("modes", h.arr([end, *sum(seen, [])], bool))


def main(R):
    q = R.tier == "quick"
    R.run("histories", history, depth=4 if q else 5, max_paths=10 ** 6)
    for name in ("greater", "greater_equal", "less", "less_equal", "logical_or", "logical_and", "logical_all", "logical_any",
                 "logical_not", "is_true", "is_false", "true_value", "false_value", "segments_intersect", "wall contains",
                 "wall intersects", "vertex contains", "vertex intersects", "on objects", "intersects with objects", "path valid", "scene"):
        R.run(f"mode of {name}", used, name=name)
    R.run("valid paths", valid_paths)
    for names in (("once", "once"), ("nested", "once"), ("nested", "nested"), ("raising", "nested"), ("disabling", "once"),
                  ("setting", "nested"), ("twice", "once"), ("once", "once", "once"), ("nested", "disabling", "once"),
                  ("nested", "plain"), ("once", "disabling", "plain"),
                  *(() if q else (("nested", "nested", "nested"), ("setting", "plain", "plain"), ("setting", "raising", "twice"), ("twice", "twice", "nested")))):
        R.run("threads/" + "+".join(names), schedules, names=names)
