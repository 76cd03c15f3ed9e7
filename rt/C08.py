from rt.common import *  # noqa
from rt import gen

VG = "lib_solver.voxel_geometry"
PG = "lib_solver.problem_geometry"


def _grid(c):
    n, d, ctr = gen.grid(c, 5)
    if c.p(0.3):
        n = [[c.i(2, 8), 1, 1][int(j)] for j in c.rng.permutation(3)]
    return n, d, ctr


def _dense(A):
    return np.asarray(A.todense() if hasattr(A, "todense") else A)


@contract("voxel_geometry.get_voxel_coordinate", "voxel centres of the whole grid", 80)
def coords(c):
    n, d, ctr = _grid(c)
    c.note(n=n, d=d, c=ctr)
    p = call(VG, "get_voxel_coordinate", n, d, ctr)
    close(p, gen.center(n, d, ctr, range(n[0] * n[1] * n[2])), 1e-12, 1e-12)


@contract("problem_geometry.get_reduce_matrix", "faces, signs and coordinates of a voxel selection", 150)
def reduce(c):
    n, d, ctr = _grid(c)
    nv = n[0] * n[1] * n[2]
    idx = c.subset(nv, 0 if c.p(0.1) else 1)
    c.note(n=n, idx_v=idx)
    pts = call(VG, "get_voxel_coordinate", n, d, ctr)
    A = call(VG, "get_incidence_matrix", n)
    P, An, f = call(PG, "get_reduce_matrix", pts, A, idx)
    fc = gen.faces(n, idx)
    row = {int(v): k for k, v in enumerate(idx)}
    same(f, [a * nv + v for a, v, w in fc], "face numbers")
    spec = np.zeros((len(idx), len(fc)))
    for k, (a, v, w) in enumerate(fc):
        spec[row[v], k] = 1
        spec[row[w], k] = -1
    same(_dense(An), spec, "incidence matrix")
    close(P, gen.center(n, d, ctr, idx), 1e-12, 1e-12, "voxel coordinates")


@contract("voxel_geometry.get_incidence_matrix", "incidence matrix of the complete grid", 60)
def full(c):
    n, d, ctr = _grid(c)
    nv = n[0] * n[1] * n[2]
    c.note(n=n)
    A = _dense(call(VG, "get_incidence_matrix", n))
    need(A.shape == (nv, 3 * nv), "shape")
    for a, v, w in gen.faces(n, range(nv)):
        col = np.zeros(nv)
        col[v], col[w] = 1, -1
        same(A[:, a * nv + v], col, "column of face (%d, %d)" % (a, v))
