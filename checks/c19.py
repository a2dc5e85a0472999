"""C19: received power."""
from fractions import Fraction as F

import numpy as np

BOUNDS = [
    "0-3 and 7 (thorough 0-4, 7 and 12) interactions, symbolic points (coincident ones included), symbolic coefficient in [0, 1] (and beyond for the law itself) and non-zero height; the path length is the code's own (C09)",
]
ASSUMPTIONS = ["the coefficient's power is over the number of interactions (an integer)"]
F01 = F(float(np.float32(0.1)))


def power(h, path, **kw):
    from differt2d.geometry import Point
    from differt2d.utils import received_power
    p, q = h.run(lambda: Point(xy=h.arr([h.real("ignored"), F(0)]))), h.run(lambda: Point(xy=h.arr([F(3), F(-2)])))
    return h.run(lambda: received_power(p, q, path, [], **{k: h.arr(v) for k, v in kw.items()}))


def make(h, n, name="p"):
    from differt2d.geometry import Path
    pts = [[h.real(f"{name}{i}_0"), h.real(f"{name}{i}_1")] for i in range(n + 2)]
    path = h.run(lambda: Path(xys=h.arr(pts), loss=h.arr(h.real(f"{name}loss"))))
    r = h.fin("finite length", h.out(h.run(lambda: path.length())))[()]
    return path, r


def pw(c, n):
    r = F(1)
    for _ in range(n):
        r = r * c
    return r


def law(h, n, mode):
    path, r = make(h, n)
    kw, c, H = {}, F(1, 2), F01
    if mode in ("coefficient", "both"):
        c = kw["r_coef"] = h.real("c")
    if mode in ("height", "both"):
        H = kw["height"] = h.real("height")
        h.assume(h.Or(H >= F(1, 10), H <= -F(1, 10)))
    R = h.let(r)
    h.lemma("length is not negative", r >= 0, use=R >= 0)
    p = power(h, path, **kw)
    v = h.fin("finite", h.out(p))[()]
    den = H * H + r * r
    h.check("follows the law", v * den == pw(c, n),
            loose=h.And(v * den <= pw(c, n) + F(1, 1000) * (1 + h.abs(pw(c, n))), v * den >= pw(c, n) - F(1, 1000) * (1 + h.abs(pw(c, n)))))
    if mode == "default":
        h.check("not negative", v >= 0)
    else:
        h.check("not negative", v >= 0, pre=c >= 0)


def monotone(h, n, k):
    """Never increases with the length or (coefficient at most 1) with the number of interactions."""
    p1, r1 = make(h, n)
    p2, r2 = make(h, n + k, "q")
    c, H = h.real("c", 0, 1), h.real("height", F(1, 10), 10)
    v1 = h.fin("finite", h.out(power(h, p1, r_coef=c, height=H)))[()]
    v2 = h.fin("finite", h.out(power(h, p2, r_coef=c, height=H)))[()]
    # over names: v * (H^2 + r^2) = c^n
    a, b, x, y = h.let(v1), h.let(v2), h.let(r1), h.let(r2)
    h.lemma("law 1", v1 * (H * H + r1 * r1) == pw(c, n), use=a * (H * H + x * x) == pw(c, n))
    h.lemma("law 2", v2 * (H * H + r2 * r2) == pw(c, n + k), use=b * (H * H + y * y) == pw(c, n + k))
    h.lemma("lengths", h.And(r1 >= 0, r2 >= 0), use=h.And(x >= 0, y >= 0))
    h.check("longer or more interactions: not more power", h.Or(x > y, b <= a),
            loose=h.Or(x > y, b <= a * F(1001, 1000) + F(1, 100000)))


def zero_length(h, n):
    from differt2d.geometry import Path
    x, y = h.real("x"), h.real("y")
    path = h.run(lambda: Path(xys=h.arr([[x, y]] * (n + 2))))
    v = h.fin("finite", h.out(power(h, path)))[()]
    h.eqs("power at zero distance", [v], [pw(F(1, 2), n) / (F01 * F01)])


def main(R):
    q = R.tier == "quick"
    for n in (0, 1, 2, 3, 7) if q else (0, 1, 2, 3, 4, 7, 12):
        for mode in ("default", "coefficient", "height", "both"):
            R.run(f"law/{n} {mode}", law, n=n, mode=mode)
    for n, k in ((0, 0), (0, 1), (1, 0), (1, 1), (0, 2)) if q else ((0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0), (1, 2), (2, 1)):
        R.run(f"monotone/{n}+{k}", monotone, n=n, k=k)
    for n in (0, 1, 2):
        R.run(f"zero length/{n}", zero_length, n=n)
