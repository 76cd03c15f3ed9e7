"""Generators of valid input data (inside the preconditions of the contracts)."""
import numpy as np


def grid(c, m=4):
    n = [c.i(1, m), c.i(1, m), c.i(1, m)]
    d = [c.f(0.1, 2.0), c.f(0.1, 2.0), c.f(0.1, 2.0)]
    ctr = [c.f(-3, 3), c.f(-3, 3), c.f(-3, 3)]
    if c.p(0.3):                      # other units: microns to hundreds of meters
        s = 10.0 ** c.f(-6, 2)
        d = [s * v for v in d]
        ctr = [s * v for v in ctr]
    return n, d, ctr


def domains(c, nv, k=None, overlap=False, empty=True):
    """domain name -> list of distinct voxels; disjoint unless overlap"""
    k = k or c.i(1, 4)
    names = ["dom_%s" % ch for ch in "zyxabw"[:k]]
    if overlap:
        return {t: [int(v) for v in c.subset(nv, 0 if empty else 1, max(1, nv // 2))] for t in names}
    perm = [int(v) for v in c.rng.permutation(nv)]
    out = {}
    lo = 0
    for j, t in enumerate(names):
        left = len(names) - j - 1
        mx = len(perm) - lo - (0 if empty else left)
        m = c.i(0 if empty else 1, max(0 if empty else 1, min(mx, nv // 2 + 1)))
        out[t] = perm[lo:lo + m]
        lo += m
    return out


def data_geometry(n, d, ctr, dom, cloud=(), reduce=False, resample=False, factor=(1, 1, 1), rules=(), use_rules=False,
                  rand=False, connected=None, adjacent=None, check_cloud=False, full_cloud=False):
    return {
        "mesh_type": "voxel",
        "data_voxelize": {"param": {"n": n, "d": d, "c": ctr}, "domain_index": dom},
        "data_point": {"check_cloud": check_cloud, "full_cloud": full_cloud, "pts_cloud": [list(map(float, p)) for p in cloud]},
        "data_resampling": {"use_reduce": reduce, "use_resample": resample, "resampling_factor": list(factor)},
        "data_conflict": {"resolve_rules": use_rules, "resolve_random": rand, "conflict_rules": list(rules)},
        "data_integrity": {"domain_connected": connected or {}, "domain_adjacent": adjacent or {}},
    }


def coord(n, idx):
    """grid coordinates of linear voxel numbers (independent of the code under test)"""
    nx, ny, nz = n
    return [(int(v) % nx, (int(v) // nx) % ny, int(v) // (nx * ny)) for v in idx]


def center(n, d, c, idx):
    out = []
    for p in coord(n, idx):
        out.append([c[a] + (p[a] + 0.5 - n[a] / 2) * d[a] for a in range(3)])
    return np.array(out, dtype=float).reshape(-1, 3)


def neighbours(n, a, b):
    """face adjacency of two voxel numbers"""
    (p,), (q,) = coord(n, [a]), coord(n, [b])
    return sum(abs(u - v) for u, v in zip(p, q)) == 1


def components(n, idx):
    """partition of the voxels into face-connected components (list of frozensets)"""
    nx, ny, nz = n
    left = set(int(v) for v in idx)
    out = []
    while left:
        stack = [left.pop()]
        comp = set(stack)
        while stack:
            v = stack.pop()
            x, y, z = v % nx, (v // nx) % ny, v // (nx * ny)
            for dx, dy, dz in ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)):
                X, Y, Z = x + dx, y + dy, z + dz
                if 0 <= X < nx and 0 <= Y < ny and 0 <= Z < nz:
                    w = X + nx * Y + nx * ny * Z
                    if w in left:
                        left.remove(w)
                        comp.add(w)
                        stack.append(w)
        out.append(frozenset(comp))
    return out


def faces(n, idx):
    """all interfaces between two selected voxels: list of (axis, low voxel, high voxel)
    sorted by axis and low voxel"""
    s = set(int(v) for v in idx)
    nx, ny, nz = n
    out = []
    for a, (dx, dy, dz) in enumerate(((1, 0, 0), (0, 1, 0), (0, 0, 1))):
        for v in sorted(s):
            x, y, z = v % nx, (v // nx) % ny, v // (nx * ny)
            X, Y, Z = x + dx, y + dy, z + dz
            if X < nx and Y < ny and Z < nz:
                w = X + nx * Y + nx * ny * Z
                if w in s:
                    out.append((a, v, w))
    return out
