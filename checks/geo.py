"""Shared geometric specification helpers (written independently of the code)."""
from fractions import Fraction as F


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def sub(a, b):
    return [a[0] - b[0], a[1] - b[1]]


def add(a, b):
    return [a[0] + b[0], a[1] + b[1]]


def scale(k, a):
    return [k * a[0], k * a[1]]


def sqn(a):
    return dot(a, a)


def nonzero(h, v):
    return h.Or(v[0] != 0, v[1] != 0)


def other(h, name, p, box=None):
    """A second point: p itself or any point different from it (forks)."""
    if h.fork(h.bool(name + "_same")):
        return p
    q = [h.real(f"{name}_0"), h.real(f"{name}_1")]
    h.assume(sqn(sub(q, p)) != 0)
    h.prefer(sqn(sub(q, p)) >= 1)
    return q
