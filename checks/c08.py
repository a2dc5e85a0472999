"""C08: image-method paths."""
from fractions import Fraction as F

from vf import values as V

from .geo import add, cross, dot, other, scale, sqn, sub

M = F(1, 1000)
BOUNDS = [
    "0, 1 and 2 walls with arbitrary real end points (3 in thorough for the specular law), any transmitter and receiver",
    "3 and 4 (thorough up to 6) walls at fixed positions, repeated walls included, any transmitter and receiver",
    "the specular law, zero loss and image distance are decided for chains in which every bounce lies strictly between the image and the next point (the physical side)",
]


def mirror(o, n, p):
    return sub(p, scale(2 * dot(sub(p, o), n), n))


def trace(h, walls, tx, rx):
    """Spec: images forward, intersections backward (None where parallel)."""
    ns = []
    for k, w in enumerate(walls):
        if w[0] is w[1]:
            ns.append([F(0), F(0)])
        else:
            e = sub(w[1], w[0])
            d = h.unit(e, None if isinstance(e[0], F) else f"wall {k}")
            ns.append([d[1], -d[0]])
    imgs, p = [], tx
    for w, n in zip(walls, ns):
        p = mirror(w[0], n, p)
        imgs.append(p)
    pts, p, regular, us, ts = [], rx, [], [], []
    for w, n, im in reversed(list(zip(walls, ns, imgs))):
        u = sub(p, im)
        un = dot(u, n)
        if h.zero(un):
            regular.append(False)
            us.append(u)
            ts.append(None)
        else:
            regular.append(True)
            vn = dot(sub(w[0], p), n)
            us.append(u)
            # p = image + s u
            ts.append(1 + h.div(vn, un))
            p = add(p, [h.div(vn * u[0], un), h.div(vn * u[1], un)])
        pts.append(p)
    for a in (pts, regular, us, ts):
        a.reverse()
    return ns, imgs, pts, regular, us, ts


# walls at fixed positions, all normals rational
ROOM = [[(0, 0), (4, 0)], [(4, -1), (4, 5)], [(3, 4), (-1, 4)], [(-1, 3), (-1, 0)], [(0, 1), (3, 5)], [(6, 2), (2, 5)]]


def inputs(h, n, degenerate=False, fixed=None, box=40):
    from differt2d.geometry import Wall
    ws = []
    for k in range(n):
        if fixed is not None:
            ws.append([[F(c) for c in e] for e in ROOM[fixed[k]]])
            continue
        w0 = [h.real(f"w{k}_00"), h.real(f"w{k}_01")]
        if degenerate:
            ws.append([w0, w0])
        else:
            w1 = [h.real(f"w{k}_10"), h.real(f"w{k}_11")]
            h.assume(sqn(sub(w1, w0)) != 0)
            h.prefer(sqn(sub(w1, w0)) >= 1)
            ws.append([w0, w1])
    kw = {} if fixed is None else dict(box=(-box, box))
    tx, rx = list(h.reals("tx", 2, **kw)), list(h.reals("rx", 2, **kw))
    objs = [h.run(lambda w=w: Wall(xys=h.arr(w))) for w in ws]
    return ws, objs, tx, rx


def build(h, objs, tx, rx, points=False):
    from differt2d.geometry import ImagePath, Point
    if points:
        return h.run(lambda t, r: ImagePath.from_tx_objects_rx(Point(xy=t), objs, Point(xy=r)), h.arr(tx), h.arr(rx))
    return h.run(lambda t, r: ImagePath.from_tx_objects_rx(t, objs, r), h.arr(tx), h.arr(rx))


def direct(h, points=False):
    ws, objs, tx, rx = inputs(h, 0)
    p = build(h, objs, tx, rx, h.pick("wrapped", [False, True]))
    h.eqs("the segment", h.out(p.xys), [tx, rx])
    h.eqs("no loss", h.out(p.loss), F(0))


def losses(h, objs, xys):
    t = F(0)
    for k, o in enumerate(objs):
        t = V.add(t, h.elem(h.run(lambda o, q: o.evaluate_cartesian(q), o, h.arr(xys[k:k + 3]))))
    return t


def shape(h, x, n):
    h.check("one point per wall", x.shape == (n + 2, 2))
    return x.shape == (n + 2, 2)


def geometry(h, n, degenerate=False, fixed=None):
    ws, objs, tx, rx = inputs(h, n, degenerate, fixed)
    ns, imgs, pts, regular, us, ts = trace(h, ws, tx, rx)
    for k in range(n):
        a, b = ([tx] + pts)[k], pts[k]
        h.fork(sqn(sub(b, a)) == 0)
    if n:
        h.fork(sqn(sub(rx, pts[-1])) == 0)
    p = build(h, objs, tx, rx, points=bool(n % 2))
    x = h.fin("finite points", h.out(p.xys))
    if not shape(h, x, n):
        return
    h.observe("xys", p.xys)
    h.eqs("starts at the transmitter", x[0], tx)
    h.eqs("ends at the receiver", x[-1], rx)
    h.finite("finite loss", h.out(p.loss))
    for k in range(n):
        if regular[k]:
            dev = dot(sub(list(x[k + 1]), ws[k][0]), ns[k])
            h.check(f"bounce {k} lies on its wall", dev == 0, loose=h.And(dev <= M, dev >= -M))
    if all(regular):
        for k in range(n):
            h.eqs(f"bounce {k} is the image point", x[k + 1], pts[k])
    h.eqs("loss is the sum of the interaction losses", h.out(p.loss), losses(h, objs, h.out(p.xys)))


def reverse(h, n, fixed=None):
    ws, objs, tx, rx = inputs(h, n, fixed=fixed)
    fw = trace(h, ws, tx, rx)
    bw = trace(h, ws[::-1], rx, tx)
    h.assume(all(fw[3]) and all(bw[3]))
    x = h.out(build(h, objs, tx, rx).xys)
    y = h.out(build(h, objs[::-1], rx, tx).xys)
    h.eqs("swapping the ends reverses the path", y[::-1], x)


def specular(h, n, fixed=None):
    ws, objs, tx, rx = inputs(h, n, fixed=fixed, box=4)
    ns, imgs, pts, regular, us, ts = trace(h, ws, tx, rx)
    h.assume(all(regular))
    for k in range(n):
        h.assume(ts[k] > 0, ts[k] < 1)
        h.prefer(ts[k] > F(1, 8), ts[k] < F(7, 8))
    pp = [tx, *pts, rx]
    for k in range(n + 1):
        # physical side: no zero-length segment unless the image distance is 0
        h.assume(sqn(sub(pp[k + 1], pp[k])) != 0)
    p = build(h, objs, tx, rx)
    x = h.fin("finite points", h.out(p.xys))
    if not shape(h, x, n):
        return
    seg = [sub(list(x[k + 1]), list(x[k])) for k in range(n + 1)]
    A = [h.sqrt(sqn(s)) for s in seg]
    if h.sym:
        lets = lambda v, nm: [h.let(c, nm) for c in v]
        U = [seg[0], *us]                      # U[k + 1] belongs to bounce k
        L = [A[0]] + [h.sqrt(sqn(u)) for u in us]
        # short names and the facts that link them to the code's terms
        U_, seg_, n_ = [lets(u, "u") for u in U], [lets(s, "s") for s in seg], [lets(v, "n") for v in ns]
        t_ = lets(ts, "t")
        A_, L_ = lets(A, "A"), lets(L, "L")
        h.lemma("A0 is L0", A[0] == L[0], use=A_[0] == L_[0])
        for j in (0, 1):
            h.lemma(f"segment 0.{j}", seg[0][j] == U[0][j], use=seg_[0][j] == U_[0][j])
        for k in range(n):
            h.lemma(f"physical side {k}", h.And(ts[k] > 0, ts[k] < 1), use=h.And(t_[k] > 0, t_[k] < 1))
            h.lemma(f"normal {k}", sqn(ns[k]) == 1, use=sqn(n_[k]) == 1)
        for k in range(n + 1):
            h.lemma(f"A{k}", h.And(A[k] > 0, A[k] * A[k] == sqn(seg[k])), use=h.And(A_[k] > 0, A_[k] * A_[k] == sqn(seg_[k])))
            h.lemma(f"L{k}", h.And(L[k] >= 0, L[k] * L[k] == sqn(U[k])), use=h.And(L_[k] >= 0, L_[k] * L_[k] == sqn(U_[k])))
        for k in range(n):
            for j in (0, 1):
                mir = lambda v, m: sub(v, scale(2 * dot(v, m), m))
                h.lemma(f"mirror {k}.{j}", mir(U[k], ns[k])[j] == ts[k] * U[k + 1][j],
                        use=mir(U_[k], n_[k])[j] == t_[k] * U_[k + 1][j])
                h.lemma(f"segment {k + 1}.{j}", seg[k + 1][j] == (1 - ts[k]) * U[k + 1][j],
                        use=seg_[k + 1][j] == (1 - t_[k]) * U_[k + 1][j])
            # consequences, over the short names only
            h.lemma(f"square {k}", sqn(U_[k]) == t_[k] * t_[k] * sqn(U_[k + 1]), by=[f"normal {k}", f"mirror {k}.0", f"mirror {k}.1"])
            h.lemma(f"image length {k}", L_[k] == t_[k] * L_[k + 1],
                    by=[f"L{k}", f"L{k + 1}", f"square {k}", f"physical side {k}"])
            h.lemma(f"square after {k}", sqn(seg_[k + 1]) == (1 - t_[k]) * (1 - t_[k]) * sqn(U_[k + 1]),
                    by=[f"segment {k + 1}.0", f"segment {k + 1}.1"])
            h.lemma(f"length {k + 1}", A_[k + 1] == (1 - t_[k]) * L_[k + 1],
                    by=[f"A{k + 1}", f"L{k + 1}", f"square after {k}", f"physical side {k}"])
            h.lemma(f"L{k + 1} positive", L_[k + 1] > 0, by=[f"A{k + 1}", f"length {k + 1}", f"physical side {k}"])
        h.check("total length is the image distance", sum(A_) == L_[-1])
        dirs = [[h.div(c, a) for c in s] for s, a in zip(seg, A)]
        d_ = [lets(d, "d") for d in dirs]
        for k in range(n + 1):
            for j in (0, 1):
                h.lemma(f"direction {k}.{j}", dirs[k][j] * A[k] == seg[k][j], use=d_[k][j] * A_[k] == seg_[k][j])
                h.lemma(f"ray {k}.{j}", d_[k][j] * L_[k] == U_[k][j],
                        by=[f"direction {k}.{j}", f"segment {k}.{j}"] + (["A0 is L0"] if k == 0 else
                            [f"length {k}", f"physical side {k - 1}"]) + [f"A{k}"])
        loss = F(0)
        devs = []
        for k in range(n):
            loss = loss + sqn(sub(dirs[k + 1], mir(dirs[k], ns[k])))
            mk = mir(d_[k], n_[k])
            md = lets(mk, "m")
            e_ = sub(d_[k + 1], md)
            for j in (0, 1):
                h.lemma(f"mirrored ray {k}.{j}", mir(d_[k], n_[k])[j] * L_[k] == t_[k] * U_[k + 1][j],
                        use=md[j] * L_[k] == t_[k] * U_[k + 1][j],
                        by=[f"ray {k}.0", f"ray {k}.1", f"mirror {k}.{j}"])
                h.lemma(f"mirrored direction {k}.{j}", md[j] * L_[k + 1] == U_[k + 1][j],
                        by=[f"mirrored ray {k}.{j}", f"image length {k}", f"physical side {k}"])
                h.lemma(f"same direction {k}.{j}", d_[k + 1][j] == md[j],
                        by=[f"mirrored direction {k}.{j}", f"ray {k + 1}.{j}", f"L{k + 1} positive"])
            devs += e_
        W = h.fin("finite loss", h.out(p.loss))[()]
        v_ = h.let(W, "loss")
        h.lemma("loss is the squared deviations", W == loss, use=v_ == sum(e * e for e in devs))
        h.check("specular", h.And(*[e == 0 for e in devs]))
        h.check("no loss", v_ == 0)
    else:
        tot = sum(A)
        L = h.sqrt(sqn(us[-1]))
        h.check("total length is the image distance", h.abs(tot - L) <= M * (1 + L))
        v = h.elem(p.loss)
        h.check("no loss", v <= M)
        h.check("specular", v <= M)


def main(R):
    R.run("0 walls", direct)
    R.run("1 wall", geometry, n=1)
    R.run("1 degenerate wall", geometry, n=1, degenerate=True)
    R.run("1 wall/specular", specular, n=1)
    R.run("1 wall/reversed", reverse, n=1)
    R.run("2 walls", geometry, n=2, side_ms=600)
    R.run("2 walls/specular", specular, n=2)
    R.run("2 walls/reversed", reverse, n=2, side_ms=600)
    q = R.tier == "quick"
    for f in ([0, 1, 2], [0, 1, 2, 3]) if q else ([0, 1, 2], [4, 0, 5], [0, 2, 0, 1], [0, 1, 2, 3], [0, 2, 0, 2, 1, 3]):
        s = "".join(map(str, f))
        R.run(f"fixed walls {s}", geometry, n=len(f), fixed=f)
        R.run(f"fixed walls {s}/specular", specular, n=len(f), fixed=f)
        R.run(f"fixed walls {s}/reversed", reverse, n=len(f), fixed=f)
    if not q:
        R.run("3 walls/specular", specular, n=3)
