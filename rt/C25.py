import itertools
from rt.common import *  # noqa
from rt import gen

MODS = "utils.voxel"


@contract("utils.voxel.get_idx_linear", "coordinates inside the grid give x+nx*y+nx*ny*z", 150)
def linear(c):
    n = [c.i(1, 7) for _ in range(3)]
    pts = [[c.i(0, n[a] - 1) for a in range(3)] for _ in range(c.i(1, 12))]
    if c.p(0.3):
        pts.append([n[0] - 1, n[1] - 1, n[2] - 1])
    c.note(n=n, idx_tensor=pts)
    arg = np.array(pts) if c.p() else pts
    snap = freeze(arg)
    r = call(MODS, "get_idx_linear", n, arg)
    same(r, [x + n[0] * y + n[0] * n[1] * z for x, y, z in pts])
    need(equal_data(snap, arg), "input modified")
    same(call(MODS, "get_idx_tensor", n, r), pts, "round trip")


@contract("utils.voxel.get_idx_tensor", "numbers inside the grid give their coordinates", 150)
def tensor(c):
    n = [c.i(1, 7) for _ in range(3)]
    nv = n[0] * n[1] * n[2]
    idx = [c.i(0, nv - 1) for _ in range(c.i(1, 12))] + ([nv - 1] if c.p(0.3) else [])
    c.note(n=n, idx_linear=idx)
    r = call(MODS, "get_idx_tensor", n, np.array(idx) if c.p() else idx)
    same(r, gen.coord(n, idx))
    same(call(MODS, "get_idx_linear", n, r), idx, "round trip")


@contract("utils.voxel.get_idx_linear", "coordinates outside the grid are rejected", 150)
def linear_bad(c):
    n = [c.i(1, 7) for _ in range(3)]
    pts = [[c.i(0, n[a] - 1) for a in range(3)] for _ in range(c.i(1, 6))]
    a = c.i(0, 2)
    pts[c.i(0, len(pts) - 1)][a] = c.pick([-1, -c.i(1, 9), n[a], n[a] + c.i(0, 9)])
    c.note(n=n, idx_tensor=pts)
    raises(MODS, "get_idx_linear", n, pts)


@contract("utils.voxel.get_idx_tensor", "numbers outside the grid are rejected", 100)
def tensor_bad(c):
    n = [c.i(1, 7) for _ in range(3)]
    nv = n[0] * n[1] * n[2]
    idx = [c.i(0, nv - 1) for _ in range(c.i(0, 6))]
    idx.insert(c.i(0, len(idx)), c.pick([-1, -c.i(1, nv), nv, nv + c.i(0, 9)]))
    c.note(n=n, idx_linear=idx)
    raises(MODS, "get_idx_tensor", n, idx)


@contract("utils.voxel", "whole grids are bijections", 20)
def whole(c):
    n = [c.i(1, 6) for _ in range(3)]
    nv = n[0] * n[1] * n[2]
    c.note(n=n)
    t = call(MODS, "get_idx_tensor", n, list(range(nv)))
    same(t, [(x, y, z) for z, y, x in itertools.product(range(n[2]), range(n[1]), range(n[0]))])
    same(call(MODS, "get_idx_linear", n, t), np.arange(nv))
