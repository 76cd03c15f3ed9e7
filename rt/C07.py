import tempfile
import os
import shutil
from rt.common import *  # noqa
from rt import gen


# ------------------------------------------------------------------ independent planar geometry
def _seg_dist(p, a, b):
    p, a, b = np.array(p, float), np.array(a, float), np.array(b, float)
    ab = b - a
    L = ab @ ab
    t = 0.0 if L == 0 else min(1.0, max(0.0, (p - a) @ ab / L))
    return float(np.linalg.norm(p - a - t * ab))


def _ring_dist(p, ring):
    return min(_seg_dist(p, ring[k], ring[(k + 1) % len(ring)]) for k in range(len(ring)))


def _in_ring(p, ring):
    x, y = p
    inside = False
    for k in range(len(ring)):
        (x1, y1), (x2, y2) = ring[k], ring[(k + 1) % len(ring)]
        if (y1 > y) != (y2 > y):
            if x < x1 + (y - y1) * (x2 - x1) / (y2 - y1):
                inside = not inside
    return inside


def _inside(shape, p):
    """(inside, distance to the boundary) of one shape"""
    typ, dat = shape["shape_type"], shape["shape_data"]
    if typ == "pad":
        r = 0.5 * dat["diameter"]
        dist = min(float(np.linalg.norm(np.subtract(p, q))) for q in dat["coord"])
        return dist <= r, abs(dist - r), 0.01 * r
    if typ == "trace":
        r = 0.5 * dat["width"]
        co = dat["coord"]
        dist = min(_seg_dist(p, co[k], co[k + 1]) for k in range(len(co) - 1))
        return dist <= r, abs(dist - r), 0.01 * r
    inside = _in_ring(p, dat["coord_shell"]) and not any(_in_ring(p, h) for h in dat["coord_holes"])
    dist = min([_ring_dist(p, dat["coord_shell"])] + [_ring_dist(p, h) for h in dat["coord_holes"]])
    buf = dat["buffer"]
    if buf is None:
        return inside, dist, 0.0
    return inside or dist <= buf, (dist + buf) if inside else abs(dist - buf), 0.01 * buf


def _rect(c, lim):
    x0, y0 = c.f(-lim, lim * 0.6), c.f(-lim, lim * 0.6)
    w, h = c.f(0.2 * lim, lim), c.f(0.2 * lim, lim)
    return [[x0, y0], [x0 + w, y0], [x0 + w, y0 + h], [x0, y0 + h]]


def _shape(c, layers, op, lim):
    typ = c.pick(["pad", "trace", "polygon", "polygon"])
    if typ == "pad":
        dat = {"diameter": c.f(0.2, lim), "coord": [[c.f(-lim, lim), c.f(-lim, lim)] for _ in range(c.i(1, 2))]}
    elif typ == "trace":
        dat = {"width": c.f(0.2, lim / 2), "coord": [[c.f(-lim, lim), c.f(-lim, lim)] for _ in range(c.i(2, 3))]}
    else:
        ring = _rect(c, lim)
        if c.p(0.3):
            ring = [ring[0], ring[1], ring[2]]
        holes = []
        if c.p(0.3) and len(ring) == 4:
            (x0, y0), (x1, y1) = ring[0], ring[2]
            u = lambda t: x0 + t * (x1 - x0)  # noqa
            v = lambda t: y0 + t * (y1 - y0)  # noqa
            holes = [[[u(.3), v(.3)], [u(.6), v(.3)], [u(.6), v(.7)], [u(.3), v(.7)]]]
        dat = {"buffer": None if (c.p(0.6) or holes) else c.f(0.05, 0.3), "coord_shell": ring, "coord_holes": holes}
    lay = [t for t in layers if c.p(0.6)] or [c.pick(layers)]
    return {"shape_layer": lay, "shape_operation": op, "shape_type": typ, "shape_data": dat}


def _extent(shape):
    typ, dat = shape["shape_type"], shape["shape_data"]
    co = np.array(dat["coord"] if typ != "polygon" else dat["coord_shell"])
    r = {"pad": 0.5 * dat.get("diameter", 0), "trace": 0.5 * dat.get("width", 0), "polygon": dat.get("buffer") or 0.0}[typ]
    return co.min(axis=0) - r, co.max(axis=0) + r


def _param(c, auto):
    lim = 2.0
    p = {"dx": c.f(.15, .7), "dy": c.f(.15, .7), "dz": c.f(.1, 1.0), "cz": c.pick([None, c.f(-3, 3), 0.0]), "simplify": None,
         "construct": None, "xy_min": None, "xy_max": None}
    if not auto or c.p(0.3):
        p["xy_min"] = [c.f(-3, -1), c.f(-3, -1)]
    if not auto or c.p(0.3):
        p["xy_max"] = [c.f(1, 3), c.f(1, 3)]
    return p, lim


def _stack(c):
    names = ["top", "mid", "bot", "a"]
    perm = [names[int(j)] for j in c.rng.permutation(4)][:c.i(1, 3)]
    return [{"n_layer": c.i(1, 3), "tag_layer": t} for t in perm]


def _grid_ok(lo, hi, dreq, tol=0.0):
    q = (np.array(hi) - np.array(lo)) / np.array(dreq)
    return np.all(np.abs(q - np.floor(q) - 0.5) > 1e-6 + 2 * tol / min(dreq)) and np.all(np.rint(q) > 0)


def _check_grid(lo, hi, dreq, n, d, c, tol=1e-9):
    lo, hi = np.array(lo, float), np.array(hi, float)
    spec = np.rint((hi - lo) / np.array(dreq))
    same(np.array(n), spec.astype(int), "voxel count is the rounded extent over the requested size")
    close(np.array(n) * np.array(d), hi - lo, 1e-9, 1e-9 + tol, "count times size is the extent")
    close(c, (hi + lo) / 2, 1e-9, 1e-9 + tol, "centre is the middle of the box")


def _shape_case(c, auto):
    stack = _stack(c)
    layers = [s["tag_layer"] for s in stack]
    p, lim = _param(c, auto)
    geo = {}
    for t in ["zed", "abc"][:c.i(1, 2)]:
        shapes = [_shape(c, layers + (["unused"] if c.p(0.2) else []), "add", lim) for _ in range(c.i(1, 2))]
        if not auto and c.p(0.5):
            shapes.insert(c.i(0, len(shapes)), _shape(c, layers, "sub", lim * 0.7))
        geo[t] = shapes
    return stack, p, geo


def _run_shape(c, auto):
    stack, p, geo = _shape_case(c, auto)
    layers = [s["tag_layer"] for s in stack]
    used = [s for v in geo.values() for s in v if s["shape_operation"] == "add" and any(t in layers for t in s["shape_layer"])]
    c.note(param=p, layer_stack=stack, geometry_shape=geo)
    nz = sum(s["n_layer"] for s in stack)
    cz = p["cz"] or 0.0
    if not used and (p["xy_min"] is None or p["xy_max"] is None):
        raises("lib_mesher.mesher_shape", "get_mesh", p, stack, geo)
        return
    if not used:
        return
    ext = [_extent(s) for s in used]
    lo = p["xy_min"] if p["xy_min"] is not None else np.min([e[0] for e in ext], axis=0)
    hi = p["xy_max"] if p["xy_max"] is not None else np.max([e[1] for e in ext], axis=0)
    zlo, zhi = cz - nz * p["dz"] / 2, cz + nz * p["dz"] / 2
    lo3, hi3 = [*lo, zlo], [*hi, zhi]
    # round ends are polygons: their bounds are only known approximately
    tolb = 0.01 * max(max(e[1] - e[0]) if s["shape_type"] != "polygon" or s["shape_data"]["buffer"] else 0.0 for s, e in zip(used, ext)) if auto else 0.0
    if not _grid_ok(lo3[:2], hi3[:2], [p["dx"], p["dy"]], tolb):
        return
    snap = freeze(geo)
    n, d, ctr, dom, ref = call("lib_mesher.mesher_shape", "get_mesh", p, stack, geo)
    need(equal_data(snap, geo), "input modified")
    _check_grid(lo3, hi3, [p["dx"], p["dy"], p["dz"]], n, d, ctr, tolb)
    close([n[2] * d[2], ctr[2]], [nz * p["dz"], cz], 1e-9, 1e-9, "height of the stack")
    lo = [ctr[a] - n[a] * d[a] / 2 for a in range(2)]
    hi = [ctr[a] + n[a] * d[a] / 2 for a in range(2)]
    need(list(dom) == list(geo), "domain names")
    layer_of = [s["tag_layer"] for s in stack for _ in range(s["n_layer"])]
    for t in geo:
        idx = np.asarray(dom[t])
        need(np.all(np.diff(idx) > 0), "sorted distinct indices")
        need(np.all(idx >= 0) and np.all(idx < np.prod(n)), "indices inside the grid")
        got = set(int(v) for v in idx)
        cache = {}
        for v in range(int(np.prod(n))):
            x, y, z = v % n[0], (v // n[0]) % n[1], v // (n[0] * n[1])
            key = (x, y, layer_of[z])
            if key not in cache:
                pt = (lo[0] + (x + .5) * (hi[0] - lo[0]) / n[0], lo[1] + (y + .5) * (hi[1] - lo[1]) / n[1])
                res = {"add": [], "sub": []}
                near = False
                for s in geo[t]:
                    if layer_of[z] in s["shape_layer"]:
                        ins, dist, tol = _inside(s, pt)
                        near = near or dist <= tol + 1e-6
                        res[s["shape_operation"]].append(ins)
                cache[key] = None if near else (any(res["add"]) and not any(res["sub"]))
            if cache[key] is not None:
                need((v in got) == cache[key], "voxel %s of domain %s" % ((x, y, z), t), v in got, cache[key])


@contract("mesher_shape.get_mesh", "given bounds: grid and voxel sets", 40)
def shape_given(c):
    _run_shape(c, False)


@contract("mesher_shape.get_mesh", "bounds of the objects: grid and voxel sets", 40)
def shape_auto(c):
    _run_shape(c, True)


@contract("mesher_shape.get_mesh", "degenerate boxes, repeated layers and ill-formed shapes are rejected", 60)
def shape_bad(c):
    kind = c.pick(["swap", "swap1", "thin", "dz0", "dx0", "layer", "bowtie"])
    p = {"dx": .5, "dy": .4, "dz": .3, "cz": None, "simplify": None, "construct": None, "xy_min": None, "xy_max": None}
    stack = [{"n_layer": 2, "tag_layer": "l"}, {"n_layer": 1, "tag_layer": "m"}]
    ring = [[-1., -1.], [1., -1.], [1., 1.], [-1., 1.]]
    if kind == "swap":
        p.update(xy_min=[1., 1.], xy_max=[-1., -1.])
    elif kind == "swap1":
        a = c.i(0, 1)
        p.update(xy_min=[-1., -1.], xy_max=[1., 1.])
        p["xy_min"][a], p["xy_max"][a] = 1.0, -1.0
    elif kind == "thin":
        p[c.pick(["dx", "dy"])] = 4.5
    elif kind == "dz0":
        p["dz"] = 0.0
    elif kind == "dx0":
        p[c.pick(["dx", "dy"])] = 0.0
    elif kind == "layer":
        stack[1]["tag_layer"] = "l"
    elif kind == "bowtie":
        ring = [[-1., -1.], [1., 1.], [1., -1.], [-1., 1.]]
    geo = {"a": [{"shape_layer": ["l"], "shape_operation": "add", "shape_type": "polygon", "shape_data": {"buffer": None, "coord_shell": ring, "coord_holes": []}}]}
    c.note(kind=kind, param=p)
    raises("lib_mesher.mesher_shape", "get_mesh", p, stack, geo)


def _cube(folder, name, lo, hi):
    import pyvista as pv
    path = os.path.join(folder, name)
    pv.Box(bounds=(lo[0], hi[0], lo[1], hi[1], lo[2], hi[2])).triangulate().save(path)
    return path


@contract("mesher_stl.get_mesh", "grid and voxel sets of box-shaped surfaces", 40)
def stl(c):
    folder = tempfile.mkdtemp(prefix="vrt_")
    try:
        dom, boxes = {}, {}
        k = 0
        for t in ["zed", "abc"][:c.i(1, 2)]:
            dom[t], boxes[t] = [], []
            for _ in range(c.i(1, 2)):
                lo = np.array([c.f(-1, 1) for _ in range(3)]).astype(np.float32).astype(float)
                hi = (lo + np.array([c.f(.3, 1.5) for _ in range(3)])).astype(np.float32).astype(float)
                path = _cube(folder, "b%d.stl" % k, lo, hi)
                k += 1
                sc, off = c.pick([1.0, 0.5, 2.0]), [c.f(-1, 1) for _ in range(3)]
                dom[t].append({"scale": sc, "offset": off, "filename": path})
                boxes[t].append((lo * sc + off, hi * sc + off))
        dreq = [c.f(.2, .6) for _ in range(3)]
        allb = [b for v in boxes.values() for b in v]
        lo3 = np.min([b[0] for b in allb], axis=0)
        hi3 = np.max([b[1] for b in allb], axis=0)
        p = {"d": dreq, "xyz_min": None, "xyz_max": None}
        if c.p(0.4):
            p["xyz_min"] = [float(v) for v in lo3 - c.f(-.2, .5)]
            lo3 = np.array(p["xyz_min"])
        if c.p(0.4):
            p["xyz_max"] = [float(v) for v in hi3 + c.f(-.2, .5)]
            hi3 = np.array(p["xyz_max"])
        c.note(param=p, boxes=boxes)
        q = (hi3 - lo3) / np.array(dreq)
        if not np.all(np.abs(q - np.floor(q) - 0.5) > 1e-4) or not np.all(np.rint(q) > 0):
            return
        n, d, ctr, rdom, ref = call("lib_mesher.mesher_stl", "get_mesh", p, dom)
        _check_grid(lo3, hi3, dreq, n, d, ctr, 1e-5)
        need(list(rdom) == list(dom), "domain names")
        pts = [[ctr[a] - n[a] * d[a] / 2 + k * d[a] for k in range(n[a] + 1)] for a in range(3)]
        eps = 1e-4
        for t in dom:
            idx = np.asarray(rdom[t])
            need(np.all(np.diff(idx) > 0), "sorted distinct indices")
            need(np.all(idx >= 0) and np.all(idx < np.prod(n)), "indices inside the grid")
            got = np.zeros(n[::-1], dtype=bool)
            got.flat[idx] = True
            may = np.zeros(n[::-1], dtype=bool)
            must = np.zeros(n[::-1], dtype=bool)
            for lo, hi in boxes[t]:
                for grow, out in ((eps, may), (-eps, must)):
                    ax = []
                    for a in range(3):
                        ins = np.array([lo[a] - grow < v < hi[a] + grow for v in pts[a]])
                        ax.append(ins[:-1] | ins[1:])
                    out |= ax[2][:, None, None] & ax[1][None, :, None] & ax[0][None, None, :]
            need(not np.any(must & ~got), "missing voxels of domain " + t)
            need(not np.any(got & ~may), "extra voxels of domain " + t)
    finally:
        shutil.rmtree(folder)


@contract("mesher_stl.get_mesh", "degenerate boxes and invalid files are rejected", 40)
def stl_bad(c):
    folder = tempfile.mkdtemp(prefix="vrt_")
    try:
        path = _cube(folder, "a.stl", [-1, -1, -1], [1, 1, 1])
        p = {"d": [.5, .5, .5], "xyz_min": None, "xyz_max": None}
        kind = c.pick(["thin", "swap", "swap2", "d0", "missing", "text", "empty"])
        f = path
        if kind == "thin":
            p["d"][c.i(0, 2)] = 4.5
        elif kind == "swap":
            a = c.i(0, 2)
            p.update(xyz_min=[-1., -1., -1.], xyz_max=[1., 1., 1.])
            p["xyz_min"][a], p["xyz_max"][a] = 1.0, -1.0
        elif kind == "swap2":
            a = c.i(0, 2)
            p.update(xyz_min=[1., 1., 1.], xyz_max=[-1., -1., -1.])
            p["xyz_min"][a], p["xyz_max"][a] = -1.0, 1.0
        elif kind == "d0":
            p["d"][c.i(0, 2)] = 0.0
        elif kind == "missing":
            f = os.path.join(folder, "none.stl")
        else:
            f = os.path.join(folder, "bad.stl")
            open(f, "w").write("hello" if kind == "text" else "solid x\nendsolid x\n")
        c.note(kind=kind, param=p)
        raises("lib_mesher.mesher_stl", "get_mesh", p, {"a": [{"scale": 1.0, "offset": [0., 0., 0.], "filename": f}]})
    finally:
        shutil.rmtree(folder)


@contract("run.mesher.run", "a shape geometry end to end", 8)
def whole(c):
    stack, p, geo = _shape_case(c, False)
    layers = [s["tag_layer"] for s in stack]
    for t in geo:
        geo[t] = [{"shape_layer": layers, "shape_operation": "add", "shape_type": "polygon", "shape_data": {"buffer": None, "coord_shell": _rect(c, 2.0), "coord_holes": []}}]
    c.note(param=p, layer_stack=stack, geometry_shape=geo)
    g = gen.data_geometry([1, 1, 1], [1., 1., 1.], [0., 0., 0.], {}, rand=True)
    g["mesh_type"] = "shape"
    g["data_voxelize"] = {"param": p, "layer_stack": stack, "geometry_shape": geo}
    nz = sum(s["n_layer"] for s in stack)
    cz = p["cz"] or 0.0
    lo3, hi3 = [*p["xy_min"], cz - nz * p["dz"] / 2], [*p["xy_max"], cz + nz * p["dz"] / 2]
    if not _grid_ok(lo3[:2], hi3[:2], [p["dx"], p["dy"]]):
        return
    r = call("run.mesher", "run", g)["data_geom"]
    _check_grid(lo3, hi3, [p["dx"], p["dy"], p["dz"]], r["n"], r["d"], r["c"])
