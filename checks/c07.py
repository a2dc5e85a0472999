"""C07: interaction losses."""
from fractions import Fraction as F

from .geo import add, other, cross, dot, scale, sqn, sub

M = F(1, 1000)
BOUNDS = ["walls/RIS with arbitrary real end points, ray triplets with arbitrary real points (zero-length segments included), any RIS angle (sin, cos axiomatised by sin^2+cos^2=1)"]


def make(h, kind, w, name=""):
    from differt2d.geometry import RIS, Vertex, Wall
    if kind == "RIS":
        return h.run(lambda: RIS(xys=h.arr(w), phi=h.arr(h.real("phi"))))
    if kind == "Vertex":
        return h.run(lambda: Vertex(xy=h.arr(w[0])))
    return h.run(lambda: Wall(xys=h.arr(w)))


def setup(h, kind):
    w0 = [h.real("w0_0"), h.real("w0_1")]
    w = [w0, other(h, "w1", w0)]
    b = [h.real("b_0"), h.real("b_1")]
    R = [other(h, "a", b), b, other(h, "c", b)]
    return w, R, sub(R[1], R[0]), sub(R[2], R[1]), sub(w[1], w[0]), make(h, kind, w)


def ev(h, o, R):
    return h.run(lambda o, q: o.evaluate_cartesian(q), o, h.arr(R))


def named(h, v, e, f, total):
    """v = |e|^2 and |e|^2 + |f|^2 = total, as lemmas over short names."""
    V, E, Q = h.let(v, "loss"), [h.let(x, "dev") for x in e], [h.let(x, "opp") for x in f]
    h.lemma("the loss is the squared deviation", v == sqn(e), use=V == sqn(E))
    h.lemma("parallelogram", sqn(e) + sqn(f) == total, use=sqn(E) + sqn(Q) == total)
    return V, E


def degen(w, R):
    return w[0] is w[1], R[0] is R[1], R[2] is R[1]


def wall(h):
    w, R, i, r, d, o = setup(h, "Wall")
    x = ev(h, o, R)
    h.observe("loss", x)
    dz, iz, rz = degen(w, R)
    v = h.fin("finite", x)[()]
    iu = [F(0), F(0)] if iz else h.unit(i, "incoming")
    ru = [F(0), F(0)] if rz else h.unit(r, "outgoing")
    # mirror: the tangential component is kept, the normal one flips
    if dz:
        m = iu
    else:
        du = h.unit(d, "wall")
        m = sub(scale(2 * dot(iu, du), du), iu)
    e = sub(ru, m)
    v, e = named(h, v, e, add(ru, m), 2 * (1 - int(iz)) + 2 * (1 - int(rz)))
    h.check("non-negative", v >= 0, loose=v >= -M)
    h.check("at most 4", v <= 4, loose=v <= 4 + M)
    spec = h.And(e[0] == 0, e[1] == 0)
    h.check("specular reflections cost nothing", h.Or(h.Not(spec), v == 0), loose=h.Or(h.Not(spec), v <= M))
    h.check("only specular reflections cost nothing", h.Or(v > 0, spec), loose=h.Or(v > 0, sqn(e) <= M))
    h.check("loss detects deviations", h.Or(v > F(1, 10 ** 4), sqn(e) <= F(1, 10 ** 4)),
            loose=h.Or(v > F(1, 10 ** 4), sqn(e) <= M))


def scaled(h, *, kind):
    w, R, i, r, d, o = setup(h, kind)
    k, l = h.real("k", F(1, 16)), h.real("l", F(1, 16))
    dz, iz, rz = degen(w, R)
    b = R[1]
    # everything relative to the interaction point
    o0 = make(h, kind, w)
    x = h.out(ev(h, o0, R))
    S = [sub(b, scale(k, i)) if not iz else b, b, add(b, scale(l, r)) if not rz else b]
    y = h.out(ev(h, o, S))
    h.eqs("independent of the segment lengths", x, y)


def ris(h):
    w, R, i, r, d, o = setup(h, "RIS")
    dz, iz, rz = degen(w, R)
    x = ev(h, o, R)
    v = h.fin("finite", x)[()]
    a2 = h.reals("other", 2)
    h.eqs("only the outgoing direction matters", h.out(ev(h, o, [a2, R[1], R[2]])), h.out(x))
    s, c = h.trig(h.real("phi"))
    ru = [F(0), F(0)] if rz else h.unit(r, "outgoing")
    du = [F(0), F(0)] if dz else h.unit(d, "wall")
    if h.sym:
        h.lemma("angle", s * s + c * c == 1)
        h.obls[-1].raw = True
        h.circle(s, c)
    # wall normal (on the right of the wall) and reversed outgoing direction
    n, b = [du[1], -du[0]], [-ru[0], -ru[1]]
    # the angle from b to n is phi
    e = [dot(b, n) - c, cross(b, n) - s]
    f = [dot(b, n) + c, cross(b, n) + s]
    v, e = named(h, v, e, f, 2 + 2 * (1 - int(rz)) * (1 - int(dz)))
    h.check("non-negative", v >= 0, loose=v >= -M)
    h.check("at most 4", v <= 4, loose=v <= 4 + M)
    if rz or dz:
        h.check("no direction: one", v == 1, loose=h.And(v <= 1 + M, v >= 1 - M))
        return
    spec = h.And(e[0] == 0, e[1] == 0)
    h.check("configured angle costs nothing", h.Or(h.Not(spec), v == 0), loose=h.Or(h.Not(spec), v <= M))
    h.check("only the configured angle costs nothing", h.Or(v > 0, spec), loose=h.Or(v > 0, sqn(e) <= M))
    h.check("loss detects deviations", h.Or(v > F(1, 10 ** 4), sqn(e) <= F(1, 10 ** 4)),
            loose=h.Or(v > F(1, 10 ** 4), sqn(e) <= M))


def vertex(h):
    w, R, i, r, d, o = setup(h, "Vertex")
    h.eqs("always zero", h.out(ev(h, o, R)), F(0))


def main(R):
    R.run("Wall", wall)
    R.run("Wall/scaling", scaled, kind="Wall")
    R.run("RIS", ris)
    R.run("RIS/scaling", scaled, kind="RIS")
    R.run("Vertex", vertex)
