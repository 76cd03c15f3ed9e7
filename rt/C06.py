from rt.common import *  # noqa
from rt import gen

MODS = "lib_mesher.voxel_point"


def _case(c):
    n, d, ctr = gen.grid(c, 4)
    nv = n[0] * n[1] * n[2]
    if c.p(0.3):
        # exactly representable geometry: distances equal to one voxel size occur
        d = [float(2.0 ** c.i(-2, 1)) for _ in range(3)]
        ctr = [0.5 * c.i(-3, 3) for _ in range(3)]
    dom = {t: np.array(v, dtype=np.int64) for t, v in gen.domains(c, nv, k=c.i(1, 3)).items()}
    used = np.concatenate(list(dom.values())).astype(int)
    vox = gen.center(n, d, ctr, used)
    pts = []
    for _ in range(c.i(0, 12)):
        if len(vox) and c.p(0.7):
            base = vox[c.i(0, len(vox) - 1)]
            off = [c.pick([-2, -1.5, -1, -0.9, 0, 0.5, 1, 1.1, 2]) * d[a] for a in range(3)]
            pts.append([base[a] + off[a] for a in range(3)])
        else:
            pts.append([ctr[a] + c.f(-1.5, 1.5) * (n[a] + 2) * d[a] / 2 for a in range(3)])
    exact = all(float(v).hex() == (round(v * 64) / 64).hex() for v in d + ctr)
    return n, d, ctr, dom, vox, pts, exact


def _keep(d, vox, p, exact):
    """True / False / None (too close to decide in floating point)"""
    keep = True
    for v in vox:
        m = [abs(v[a] - p[a]) - d[a] for a in range(3)]
        tol = 0 if exact else 1e-9
        if any(x > tol for x in m):
            continue
        if all(x <= -tol for x in m) or exact:
            keep = False
        else:
            return None
    return keep


@contract("voxel_point.get_point", "a point is kept iff it is farther than one voxel along some axis from every used voxel", 200)
def filt(c):
    n, d, ctr, dom, vox, pts, exact = _case(c)
    ks = [_keep(d, vox, p, exact) for p in pts]
    pts = [p for p, k in zip(pts, ks) if k is not None]
    ks = [k for k in ks if k is not None]
    full = c.p(0.3)
    c.note(n=n, d=d, c=ctr, domain_def=dom, pts_cloud=pts, full_cloud=full, keep=ks)
    c.nontrivial = len(pts) > 0
    arg = (n, d, ctr, freeze(dom), {"check_cloud": True, "full_cloud": full, "pts_cloud": freeze(pts)})
    if full and not all(ks):
        raises(MODS, "get_point", *arg)
        return
    r = call(MODS, "get_point", *arg)
    spec = np.array([p for p, k in zip(pts, ks) if k], dtype=float).reshape(-1, 3)
    need(len(r) == len(spec), "number of kept points", len(r), len(spec))
    if len(spec):
        same(r, spec, "kept points")


@contract("voxel_point.get_point", "no filter without the check", 60)
def off(c):
    n, d, ctr, dom, vox, pts, exact = _case(c)
    c.note(n=n, d=d, c=ctr, domain_def=dom, pts_cloud=pts)
    r = call(MODS, "get_point", n, d, ctr, dom, {"check_cloud": False, "full_cloud": c.p(), "pts_cloud": freeze(pts)})
    need(len(r) == len(pts), "number of points")
    if pts:
        same(r, np.array(pts, dtype=float), "points")


@contract("run.mesher.run", "cloud points of the mesh", 40)
def whole(c):
    n, d, ctr, dom, vox, pts, exact = _case(c)
    ks = [_keep(d, vox, p, exact) for p in pts]
    pts = [p for p, k in zip(pts, ks) if k is not None]
    ks = [k for k in ks if k is not None]
    full = c.p(0.2)
    red = c.p(0.3) and len(vox) > 0
    f = [c.i(1, 2), 1, c.i(1, 2)]
    c.note(n=n, d=d, c=ctr, domain_def=dom, pts_cloud=pts, full_cloud=full, reduce=red, factor=f)
    g = gen.data_geometry(n, d, ctr, {t: [int(x) for x in v] for t, v in dom.items()}, cloud=pts, check_cloud=True, full_cloud=full,
                          reduce=red, resample=c.p(0.3), factor=f)
    if full and not all(ks):
        raises("run.mesher", "run", g)
        return
    r = call("run.mesher", "run", g)["data_geom"]
    spec = [p for p, k in zip(pts, ks) if k]
    need(len(r["pts_cloud"]) == len(spec), "number of kept points")
    if spec:
        same(r["pts_cloud"], np.array(spec), "kept points")
