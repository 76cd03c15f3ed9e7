from rt.common import *  # noqa
from rt import gen

MODS = "lib_mesher.voxel_resampling"


def _desc(c):
    n, d, ctr = gen.grid(c, 5)
    if c.p(0.15):
        ctr = [float(c.i(-2, 2)) for _ in range(3)]
    nv = n[0] * n[1] * n[2]
    dom = {t: np.array(v, dtype=np.int64) for t, v in gen.domains(c, nv, overlap=c.p(0.3), empty=True).items()}
    if not any(len(v) for v in dom.values()):
        dom[list(dom)[0]] = np.array([c.i(0, nv - 1)], dtype=np.int64)
    return n, d, ctr, dom


def _bounds(n, dom):
    pts = np.array(gen.coord(n, np.concatenate(list(dom.values()))))
    return pts.min(axis=0), pts.max(axis=0)


def _check_reduce(n, d, ctr, dom, rn, rd, rc, rdom):
    lo, hi = _bounds(n, dom)
    same(rn, hi - lo + 1, "grid size is the bounding box of the used voxels")
    need(list(rdom) == list(dom), "domain names")
    same(rd, d, "voxel size is kept")
    for t in dom:
        need(len(rdom[t]) == len(dom[t]), "voxel count of domain " + t)
        if len(dom[t]):
            need(np.all(np.asarray(rdom[t]) >= 0) and np.all(np.asarray(rdom[t]) < np.prod(rn)), "index range")
        close(gen.center(rn, rd, rc, rdom[t]), gen.center(n, d, ctr, dom[t]), 1e-9, 1e-9, "physical positions of domain " + t)


def _check_resample(n, d, ctr, dom, f, rn, rd, rc, rdom):
    same(rn, [n[a] * f[a] for a in range(3)], "grid size")
    close(rd, [d[a] / f[a] for a in range(3)], 1e-12, None, "voxel size")
    close([rn[a] * rd[a] for a in range(3)], [n[a] * d[a] for a in range(3)], 1e-12, None, "domain extent")
    close(rc, ctr, 1e-12, 1e-12, "centre is kept")
    need(list(rdom) == list(dom), "domain names")
    for t in dom:
        spec = []
        for (x, y, z) in gen.coord(n, dom[t]):
            for i in range(f[0]):
                for j in range(f[1]):
                    for k in range(f[2]):
                        X, Y, Z = x * f[0] + i, y * f[1] + j, z * f[2] + k
                        spec.append(X + rn[0] * Y + rn[0] * rn[1] * Z)
        same(np.sort(rdom[t]), np.array(sorted(spec), dtype=np.int64), "children of domain " + t)


@contract("voxel_resampling.get_resampling", "reduce and resample keep the geometry", 150)
def resampling(c):
    n, d, ctr, dom = _desc(c)
    f = [c.i(1, 3), c.i(1, 3), c.i(1, 3)]
    red, res = c.p(), c.p()
    c.note(n=n, d=d, c=ctr, domain_def=dom, use_reduce=red, use_resample=res, factor=f)
    if c.p(0.2):
        ctr_in = np.array(ctr)
    else:
        ctr_in = list(ctr)
    rn, rd, rc, rs, rdom = call(MODS, "get_resampling", freeze(n), freeze(d), ctr_in, freeze(dom),
                                {"use_reduce": red, "use_resample": res, "resampling_factor": f})
    close(rs, [rn[a] * rd[a] for a in range(3)], 1e-12, None, "physical size is count times voxel size")
    if not red and not res:
        same(rn, n)
        same(rd, d)
        same(rc, ctr)
        need(list(rdom) == list(dom), "domain names")
        for t in dom:
            same(rdom[t], dom[t], "unchanged domain " + t)
    elif red and not res:
        _check_reduce(n, d, ctr, dom, rn, rd, rc, rdom)
    elif res and not red:
        _check_resample(n, d, ctr, dom, f, rn, rd, rc, rdom)
    else:
        # specification of the reduced grid, then resampling
        lo, hi = _bounds(n, dom)
        n1 = [int(v) for v in hi - lo + 1]
        c1 = [ctr[a] + (lo[a] + hi[a] + 1 - n[a]) / 2 * d[a] for a in range(3)]
        dom1 = {t: np.array([(x - lo[0]) + n1[0] * (y - lo[1]) + n1[0] * n1[1] * (z - lo[2]) for x, y, z in gen.coord(n, v)], dtype=np.int64) for t, v in dom.items()}
        _check_resample(n1, d, c1, dom1, f, rn, rd, rc, rdom)


@contract("run.mesher.run", "reduced and resampled mesh covers the same region", 25)
def whole(c):
    n, d, ctr = gen.grid(c, 4)
    nv = n[0] * n[1] * n[2]
    dom = gen.domains(c, nv)
    if not any(dom.values()):
        dom[list(dom)[0]] = [c.i(0, nv - 1)]
    f = [c.i(1, 2), c.i(1, 3), c.i(1, 2)]
    c.note(n=n, d=d, c=ctr, domain_index=dom, factor=f)
    red = c.p(0.7)
    r = call("run.mesher", "run", gen.data_geometry(n, d, ctr, dom, reduce=red, resample=True, factor=f))["data_geom"]
    for t in dom:
        got = gen.center(r["n"], r["d"], r["c"], r["domain_def"][t])
        spec = []
        for p in gen.center(n, d, ctr, dom[t]):
            for i in range(f[0]):
                for j in range(f[1]):
                    for k in range(f[2]):
                        spec.append([p[a] - d[a] / 2 + (q + 0.5) * d[a] / f[a] for a, q in enumerate((i, j, k))])
        spec = np.array(spec).reshape(-1, 3)
        need(len(got) == len(spec), "number of child voxels", len(got), len(spec))
        for arr in (got, spec):
            arr[:] = np.round(arr, 9)
        g = got[np.lexsort(got.T)]
        s = spec[np.lexsort(spec.T)]
        close(g, s, 0, 1e-6, "child voxel centres of domain " + t)
    close(r["s"], [r["n"][a] * r["d"][a] for a in range(3)], 1e-12)
    if red:
        pts = np.concatenate([gen.coord(r["n"], v) for v in r["domain_def"].values() if len(v)])
        need(np.all(pts.min(axis=0) == 0) and np.all(pts.max(axis=0) == np.array(r["n"]) - 1), "grid is the bounding box")
