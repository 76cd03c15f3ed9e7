from rt.common import *  # noqa
from rt import gen, plot, prob


def eq(a, b, msg, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    need(a.shape == b.shape, msg + ": shape", a.shape, b.shape)
    need(np.array_equal(np.isnan(a), np.isnan(b)), msg + ": undefined values", a, b)
    m = ~np.isnan(a)
    if m.any():
        need(np.all(np.abs(a[m] - b[m]) <= tol * (1 + np.abs(b[m]))), msg, a, b)


def build(c, idx, n, d, ctr):
    grid = call("lib_plot.parse_voxel", "get_grid", n, d, ctr)
    return grid, call("lib_plot.parse_voxel", "get_voxel", grid, idx)


@contract("parse_voxel.get_grid/get_voxel", "the cells are exactly the used voxels at their positions", 100)
def cells(c):
    n, d, ctr = gen.grid(c, 4)
    nv = n[0] * n[1] * n[2]
    idx = c.subset(nv, 1)
    c.note(n=n, d=d, c=ctr, idx=idx)
    old = idx.copy()
    grid, voxel = build(c, idx, n, d, ctr)
    same(idx, old, "input modified")
    same(plot.cell_numbers(grid, n, d, ctr), np.arange(nv), "grid cells")
    same(sorted(plot.cell_numbers(voxel, n, d, ctr)), np.sort(idx), "voxel cells")


@contract("parse_viewer.set_data", "domain and component number of every voxel", 120)
def viewer(c):
    n, d, ctr = gen.grid(c, 4)
    nv = n[0] * n[1] * n[2]
    dom = {t: np.array(v, dtype=np.int64) for t, v in gen.domains(c, nv).items()}
    used = np.concatenate(list(dom.values()))
    if not len(used):
        c.nontrivial = False
        return
    graph = [np.array(sorted(s)) for s in gen.components(n, used)]
    graph = [c.rng.permutation(graph[k]) for k in c.rng.permutation(len(graph))]
    c.note(n=n, domain_def=dom, graph_def=graph)
    old = freeze((dom, graph))
    idx = call("lib_plot.parse_viewer", "get_voxel", dom)
    grid, voxel = build(c, idx, n, d, ctr)
    voxel = call("lib_plot.parse_viewer", "set_data", voxel, idx, dom, graph)
    need(equal_data((dom, graph), old), "input modified")
    check_viewer(voxel, n, d, ctr, dom, graph)


def check_viewer(voxel, n, d, ctr, dom, graph):
    num = plot.cell_numbers(voxel, n, d, ctr)
    same(np.sort(num), np.sort(np.concatenate(list(dom.values()))), "cells")
    wd = {int(v): k + 1 for k, t in enumerate(dom) for v in dom[t]}
    wg = {int(v): k + 1 for k, g in enumerate(graph) for v in g}
    same(voxel.cell_data["domain"], [wd[v] for v in num], "domain number")
    same(voxel.cell_data["graph"], [wg[v] for v in num], "component number")


@contract("parse_viewer.set_data", "a voxel outside all components is an error", 40)
def viewer_bad(c):
    n, d, ctr = [3, 3, 2], [1.0, 1.0, 1.0], [0.0, 0.0, 0.0]
    idx = c.subset(18, 2)
    dom = {"a": idx}
    miss = idx[c.i(0, len(idx) - 1)]
    graph = [np.array([v for v in idx if v != miss])]
    c.note(idx=idx, graph=graph)
    grid, voxel = build(c, idx, n, d, ctr)
    raises("lib_plot.parse_viewer", "set_data", voxel, idx, dom, graph)


def mat_kind(v, vc, vm, sc, sv):
    if v in sv:
        return 5
    if v in sc:
        return 4
    return 3 if (v in vc and v in vm) else (1 if v in vc else 2)


@contract("parse_plotter.set_voxel_material/set_voxel_scalar/set_voxel_vector", "values of every voxel for any order", 150)
def plotter(c):
    n, d, ctr = gen.grid(c, 4)
    nv = n[0] * n[1] * n[2]
    vc, vm = c.subset(nv, 1), c.subset(nv, 0)
    perm = c.rng.permutation(vc)
    k, m = c.i(0, len(vc)), c.i(0, len(vc))
    sc, sv = perm[:min(k, m)], perm[min(k, m):max(k, m)]
    c.note(n=n, idx_vc=vc, idx_vm=vm, idx_src_c=sc, idx_src_v=sv)
    old = freeze((vc, vm, sc, sv))
    idx = call("lib_plot.parse_plotter", "get_voxel", vc, vm)
    grid, voxel = build(c, idx, n, d, ctr)
    voxel = call("lib_plot.parse_plotter", "set_voxel_material", voxel, idx, vc, vm, sc, sv)
    num = plot.cell_numbers(voxel, n, d, ctr)
    same(np.sort(num), np.unique(np.concatenate((vc, vm))), "cells")
    same(voxel.cell_data["material"], [mat_kind(v, set(vc), set(vm), set(sc), set(sv)) for v in num], "material kind")
    for name, sel in (("a", vc), ("b", vm)):
        x = c.cx(len(sel))
        y = c.cx(3 * len(sel)).reshape(-1, 3)
        voxel = call("lib_plot.parse_plotter", "set_voxel_scalar", voxel, idx, sel, x, "s" + name)
        voxel = call("lib_plot.parse_plotter", "set_voxel_vector", voxel, idx, sel, y, "v" + name)
        check_var(voxel, num, sel, x, "s" + name)
        check_var(voxel, num, sel, y, "v" + name)
    need(equal_data((vc, vm, sc, sv), old), "input modified")


def check_var(voxel, num, sel, x, name):
    w = {int(v): x[k] for k, v in enumerate(sel)}
    und = complex(np.nan, np.nan) if x.ndim == 1 else np.full(x.shape[1], complex(np.nan, np.nan))
    val = np.array([w.get(int(v), und) for v in num]).reshape((len(num),) + x.shape[1:])
    eq(voxel.cell_data[name + "_re"], val.real, name + " real part")
    eq(voxel.cell_data[name + "_im"], val.imag, name + " imaginary part")
    eq(voxel.cell_data[name + "_norm"], np.abs(val) if x.ndim == 1 else np.sqrt(np.sum(np.abs(val) ** 2, axis=1)), name + " magnitude")


@contract("parse_plotter.set_voxel_scalar", "index lists in any order on the grid", 100)
def any_order(c):
    n, d, ctr = gen.grid(c, 4)
    nv = n[0] * n[1] * n[2]
    idx = c.subset(nv, 1)                # unsorted
    sel = c.rng.permutation(idx)[: c.i(1, len(idx))]
    x = c.cx(len(sel))
    y = c.cx(3 * len(sel)).reshape(-1, 3)
    c.note(n=n, idx=idx, sel=sel)
    grid, voxel = build(c, idx, n, d, ctr)
    voxel = call("lib_plot.parse_plotter", "set_voxel_scalar", voxel, idx, sel, x, "s")
    voxel = call("lib_plot.parse_plotter", "set_voxel_vector", voxel, idx, sel, y, "v")
    num = plot.cell_numbers(voxel, n, d, ctr)
    check_var(voxel, num, sel, x, "s")
    check_var(voxel, num, sel, y, "v")


@contract("parse_plotter.set_point_cloud", "every point carries its own field value", 60)
def cloud(c):
    k = c.i(1, 12)
    pts = c.rng.normal(size=(k, 3))
    y = c.cx(3 * k).reshape(-1, 3)
    c.note(pts=pts)
    point = call("lib_plot.parse_voxel", "get_point", pts)
    point = call("lib_plot.parse_plotter", "set_point_cloud", point, y, "H")
    check_cloud(point, pts, y, "H")


def check_cloud(point, pts, y, name):
    eq(point.points, pts, "points", 1e-6)
    need(point.n_cells == len(pts), "one vertex per point")
    eq(point.point_data[name + "_re"], y.real, "real part")
    eq(point.point_data[name + "_im"], y.imag, "imaginary part")
    eq(point.point_data[name + "_norm"], np.sqrt(np.sum(np.abs(y) ** 2, axis=1)), "magnitude")


def spec_cells(layout, p, re, im, nrm):
    """(kept cell positions, value, vector) of a plot, from the real part, imaginary part and magnitude"""
    vec = None
    if layout.startswith("norm"):
        v = nrm * p["scale"]
    elif layout.startswith("phasor"):
        v = (re * np.cos(p["phase"]) - im * np.sin(p["phase"])) * p["scale"]
    else:
        vec = re * np.cos(p["phase"]) - im * np.sin(p["phase"])
        v = np.sqrt(np.sum(vec ** 2, axis=1)) * p["scale"]
    lo, hi = p["filter_lim"] if p["filter_lim"] is not None else (-np.inf, np.inf)
    keep = (v >= lo) & (v <= hi)
    edge = (np.abs(v - lo) < 1e-9) | (np.abs(v - hi) < 1e-9)
    if layout.startswith("arrow"):
        w = v[keep]
        thr = np.max(w) * p["arrow_threshold"] if len(w) else np.nan
        edge |= np.abs(v - thr) < 1e-9
        keep = keep & (v > thr)
    lo, hi = p["clamp_lim"] if p["clamp_lim"] is not None else (-np.inf, np.inf)
    return keep, np.minimum(np.maximum(v, lo), hi), vec, edge.any()


@contract("manage_pyvista.get_plot_plotter", "scaling, filtering, clamping and phasors act cell by cell", 200)
def shown(c):
    n, d, ctr = gen.grid(c, 3)
    nv = n[0] * n[1] * n[2]
    vc = c.subset(nv, 1)
    pts = c.rng.normal(size=(c.i(1, 6), 3))
    grid, voxel = build(c, vc, n, d, ctr)
    point = call("lib_plot.parse_voxel", "get_point", pts)
    sel = c.rng.permutation(vc)[: c.i(1, len(vc))]
    var = {"a": c.cx(len(sel)), "b": c.cx(3 * len(sel)).reshape(-1, 3)}
    voxel = call("lib_plot.parse_plotter", "set_voxel_scalar", voxel, vc, sel, var["a"], "a")
    voxel = call("lib_plot.parse_plotter", "set_voxel_vector", voxel, vc, sel, var["b"], "b")
    H = c.cx(3 * len(pts)).reshape(-1, 3)
    point = call("lib_plot.parse_plotter", "set_point_cloud", point, H, "h")
    layout = c.pick(["norm_voxel", "norm_voxel", "phasor_voxel", "phasor_voxel", "arrow_voxel", "norm_point", "arrow_point"])
    name = "h" if layout.endswith("point") else ("b" if layout.startswith("arrow") else ("a" if layout.startswith("phasor") else c.pick("ab")))
    des = plot.one(c, layout, name, extra=False)
    p = des["data_plot"]
    c.note(layout=layout, data_plot=p, idx=vc, sel=sel)
    check_plot(c, layout, des, grid, voxel, point, name, pts, n, d, ctr)


def check_plot(c, layout, des, grid, voxel, point, name, pts, n, d, ctr):
    import pyvista
    p = des["data_plot"]
    src = (voxel.cell_data if layout.endswith("voxel") else point.point_data)
    re, im, nrm = (np.array(src[name + s]) for s in ("_re", "_im", "_norm"))
    before = [np.array(src[k]) for k in src.keys()]
    with plot.recorder() as rec:
        pl = pyvista.Plotter(off_screen=True)
        call("lib_plot.manage_pyvista", "get_plot_plotter", pl, grid, voxel, point, layout, p, des["data_options"])
    src = (voxel.cell_data if layout.endswith("voxel") else point.point_data)
    need(all(np.array_equal(x, src[k], equal_nan=True) for x, k in zip(before, src.keys())) and len(before) == len(src.keys()), "the plotted grid was modified")
    check_scene(rec.scenes[0], layout, p, re, im, nrm, voxel, pts, n, d, ctr)


def check_scene(sc, layout, p, re, im, nrm, voxel, pts, n, d, ctr):
    keep, val, vec, edge = spec_cells(layout, p, re, im, nrm)
    if edge:
        return
    if not keep.any():
        need(not sc.mesh, "nothing is left to be shown")
        return
    need(len(sc.mesh) == 1, "one object is shown")
    _, obj, kw = sc.mesh[0]
    if layout.startswith("arrow"):
        # one glyph per kept cell or point, in order, coloured by the value
        v = np.array(obj["norm"])
        k = int(np.sum(keep))
        need(len(v) % k == 0, "one arrow per kept cell")
        eq(v.reshape(k, -1), np.repeat(val[keep][:, None], len(v) // k, axis=1), "arrow values")
        pp = np.array(obj.points).reshape(k, -1, 3)
        q = pts if layout.endswith("point") else gen.center(n, d, ctr, plot.cell_numbers(voxel, n, d, ctr))
        L = min(d) * p["arrow_scale"]
        # the tip of the arrow is at its root plus the direction of the field times the length
        u = vec[keep] / np.sqrt(np.sum(vec[keep] ** 2, axis=1))[:, None]
        t = np.einsum("kpi,ki->kp", pp - q[keep][:, None, :], u)
        need(np.all(np.abs(np.max(t, axis=1) - L) < 1e-3 * L), "arrows point along the field", np.max(t, axis=1) / L)
        need(np.all(np.abs(np.min(t, axis=1)) < 1e-3 * L + 1e-5), "arrows start at their own position")
        return
    data = obj.cell_data if layout.endswith("voxel") else obj.point_data
    eq(data["norm"], val[keep], "shown values")
    if layout.endswith("voxel"):
        num = plot.cell_numbers(voxel, n, d, ctr)
        same(plot.cell_numbers(obj, n, d, ctr), num[keep], "shown cells")
    else:
        eq(obj.points, np.asarray(pts)[keep], "shown points", 1e-6)
    need(kw.get("scalars") == "norm", "the shown scalars are the values")


@contract("run.viewer.run", "grid handed to the viewer", 25)
def whole_viewer(c):
    case = prob.random_problem(c, n_cloud=c.i(0, 3))
    if case["n"][0] * case["n"][1] * case["n"][2] > 60:
        return
    vox = prob.voxel(case)
    g = vox["data_geom"]
    lay = [c.pick(["domain", "graph", "mesh"]) for _ in range(c.i(1, 3))]
    req = {"p%d" % k: plot.one(c, t, extra=False) for k, t in enumerate(lay)}
    c.note(problem=case["note"], layouts=lay)
    with plot.recorder() as rec:
        call("run.viewer", "run", vox, req, plot_mode="debug")
    need(len(rec.scenes) == len(req), "number of plots")
    for sc, t in zip(rec.scenes, lay):
        _, obj, kw = sc.mesh[0]
        check_viewer(obj, g["n"], g["d"], g["c"], {k: np.asarray(v) for k, v in g["domain_def"].items()}, g["graph_def"])
        if t != "mesh":
            need(kw["scalars"] == t, "shown variable", kw["scalars"], t)


@contract("run.plotter.run", "every variable handed to the plotter", 25)
def whole_plotter(c):
    case = prob.random_problem(c, n_cloud=c.i(1, 3))
    sol = prob.solve(case)
    init = sol["data_init"]
    var = sol["data_sweep"]["sim"]["var"]
    n, d, ctr = init["n"], init["d"], init["c"]
    c.note(problem=case["note"])
    names = {"V_c": ("norm_voxel", "phasor_voxel"), "P_c": ("norm_voxel",), "S_c": ("phasor_voxel",), "J_c": ("norm_voxel", "arrow_voxel"), "V_m": ("norm_voxel", "phasor_voxel"),
             "P_m": ("norm_voxel",), "Q_m": ("phasor_voxel",), "B_m": ("norm_voxel", "arrow_voxel"), "H_p": ("norm_point", "arrow_point")}
    req = {}
    for k in names:
        t = c.pick(names[k])
        req[k] = plot.one(c, t, k, extra=False)
        req[k]["data_plot"].update(filter_lim=None)
        if req[k]["data_plot"].get("scale", 1) < 0:
            req[k]["data_plot"]["scale"] *= -1
    req["mat"] = plot.one(c, "material", extra=False)
    old = freeze(sol)
    with plot.recorder() as rec:
        call("run.plotter", "run", sol, req, plot_mode="debug")
    need(equal_data(old, sol), "solution modified")
    need(len(rec.scenes) == len(req), "number of plots")
    vc, vm = init["idx_vc"], init["idx_vm"]
    num = np.unique(np.concatenate((vc, vm)))
    for sc, k in zip(rec.scenes, req):
        lay = req[k]["layout"]
        if k == "mat":
            obj = sc.mesh[0][1]
            cells_ = plot.cell_numbers(obj, n, d, ctr)
            same(np.sort(cells_), num, "cells")
            same(obj.cell_data["material"], [mat_kind(v, set(vc), set(vm), set(init["idx_src_c"]), set(init["idx_src_v"])) for v in cells_], "material kind")
            continue
        x = np.asarray(var[k]["var"])
        if k == "H_p":
            full = x
        else:
            w = {int(v): x[i] for i, v in enumerate(vc if k.endswith("_c") else vm)}
            und = complex(np.nan, np.nan) if x.ndim == 1 else np.full(3, complex(np.nan, np.nan))
            full = np.array([w.get(int(v), und) for v in num]).reshape((len(num),) + x.shape[1:])
        nrm = np.abs(full) if full.ndim == 1 else np.sqrt(np.sum(np.abs(full) ** 2, axis=1))
        if lay.startswith("arrow"):
            if np.nanmax(nrm, initial=0) < 1e-12 or np.all(np.isnan(nrm)):
                continue
            p = dict(req[k]["data_plot"])
            keep, val, vec, edge = spec_cells(lay, p, full.real, full.imag, nrm)
            if edge or not keep.any():
                continue
            need(len(sc.mesh) == 1, "one object is shown")
            v = np.array(sc.mesh[0][1]["norm"])
            need(len(v) % int(keep.sum()) == 0, "one arrow per kept cell")
            eq(v.reshape(int(keep.sum()), -1)[:, 0], val[keep], "arrow values", 1e-6)
            continue
        keep, val, _, edge = spec_cells(lay, req[k]["data_plot"], full.real, full.imag, nrm)
        if edge:
            continue
        if not keep.any():
            need(not sc.mesh, "nothing is left to be shown")
            continue
        obj = sc.mesh[0][1]
        data = obj.point_data if k == "H_p" else obj.cell_data
        eq(data["norm"], val[keep], "shown values of " + k)
        if k == "H_p":
            eq(obj.points, np.asarray(init["pts_cloud"])[keep], "points", 1e-6)
        else:
            same(plot.cell_numbers(obj, n, d, ctr), num[keep], "cells of " + k)
