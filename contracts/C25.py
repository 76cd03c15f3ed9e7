"""Voxel number conversions are inverse bijections (pypeec/utils/voxel.py)."""
from vc.prove import *  # noqa
from vc.prove import spec
from vc import arr as A

M = "pypeec.utils.voxel"
LIN, TEN = M + ":get_idx_linear", M + ":get_idx_tensor"


def grid(v):
    return tuple(v.int(x, lo=1) for x in ("nx", "ny", "nz"))


def number(n, x, y, z):
    return s_add(s_add(x, s_mul(n[0], y)), s_mul(s_mul(n[0], n[1]), z))


def inside(n, t):
    return b_and(*[b_and(s_cmp("<=", 0, u), s_cmp("<", u, d)) for u, d in zip(t, n)])


@spec("get_idx_linear", [LIN])
def linear(v):
    n = grid(v)
    m = v.int("m", lo=0)
    f = v.fun("t", 2)
    t = v.array("t", (m, 3), "int", f)
    r = v.call(M, "get_idx_linear", n, t)
    ok = A.forall(Range(m), lambda i: inside(n, [f(i, k) for k in range(3)]))
    if v.raised:
        v.prove("an error is raised only for coordinates outside of the grid", b_not(ok))
        v.prove("the error is a ValueError", v.raised.cls is ValueError)
        return
    v.prove("coordinates outside of the grid are rejected", ok)
    v.equal_arr("result", r, [Range(m)], lambda i: number(n, f(i, 0), f(i, 1), f(i, 2)))
    v.prove("the result is an integer array", r.kind == "int")


@spec("get_idx_tensor", [TEN])
def tensor(v):
    n = grid(v)
    m = v.int("m", lo=0)
    f = v.fun("w", 1)
    w = v.array("w", m, "int", f)
    r = v.call(M, "get_idx_tensor", n, w)
    nv = s_mul(s_mul(n[0], n[1]), n[2])
    ok = A.forall(Range(m), lambda i: b_and(s_cmp("<=", 0, f(i)), s_cmp("<", f(i), nv)))
    if v.raised:
        v.prove("an error is raised only for numbers outside of the grid", b_not(ok))
        v.prove("the error is a ValueError", v.raised.cls is ValueError)
        return
    v.prove("numbers outside of the grid are rejected", ok)
    v.prove("result: shape", b_and(r.ndim == 2, s_eq(A.ax_len(r.axes[0]), m), s_eq(A.ax_len(r.axes[1]), 3)))
    v.prove("the result is an integer array", r.kind == "int")
    for i in v.each(Range(m)):
        x, y, z = (r.fn(i, k) for k in range(3))
        v.prove("the coordinates are inside of the grid", inside(n, (x, y, z)))
        v.prove("the coordinates have the given number", s_eq(number(n, x, y, z), f(i)))


@spec("linear after tensor", [LIN, TEN])
def round_trip_1(v):
    n = grid(v)
    m = v.int("m", lo=0)
    f = v.fun("w", 1)
    w = v.array("w", m, "int", f)
    t = v.call(M, "get_idx_tensor", n, w)
    if v.raised:
        raise Skip
    r = v.call(M, "get_idx_linear", n, t)
    v.prove("coordinates of valid numbers are accepted", v.raised is None)
    if not v.raised:
        v.equal_arr("the numbers come back in order", r, [Range(m)], lambda i: f(i))


@spec("tensor after linear", [LIN, TEN])
def round_trip_2(v):
    n = grid(v)
    m = v.int("m", lo=0)
    f = v.fun("t", 2)
    t = v.array("t", (m, 3), "int", f)
    w = v.call(M, "get_idx_linear", n, t)
    if v.raised:
        raise Skip
    r = v.call(M, "get_idx_tensor", n, w)
    v.prove("numbers of valid coordinates are accepted", v.raised is None)
    if not v.raised:
        v.equal_arr("the coordinates come back in order", r, [Range(m), Range(3)], lambda i, k: f(i, k))
