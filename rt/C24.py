import os
import copy
import pathlib
from rt.common import *  # noqa
from rt import gen, plot, prob

CF, CO = "lib_check.check_data_format", "lib_check.check_data_options"

# ---------------------------------------------------------------------------------------------
# documented data formats (docs/format and examples/config), written down independently of the schemas:
# every field with its kind; kinds: int[min], num[min], bool, str, obj, list, or None-able variants


def base_geometry(c, mesh):
    g = gen.data_geometry([2, 2, 2], [1.0, 1.0, 1.0], [0.0, 0.0, 0.0], {"a": [0, 1], "b": [2]}, cloud=[[9.0, 9.0, 9.0]],
                          rules=[{"domain_resolve": ["a"], "domain_keep": ["b"]}],
                          connected={"x": {"domain_group": [["a"], ["b"]], "connected": True}}, adjacent={"y": {"domain_group": [["a"], ["b"]], "connected": True}})
    g["mesh_type"] = mesh
    if mesh == "png":
        g["data_voxelize"] = {"param": {"d": [1.0, 1.0, 1.0], "c": [0.0, 0.0, 0.0], "size": [2, 2]}, "domain_color": {"a": [[0, 0, 0, 255]]},
                              "layer_stack": [{"n_layer": 1, "filename_list": ["x.png"]}]}
    if mesh == "stl":
        g["data_voxelize"] = {"param": {"d": [1.0, 1.0, 1.0], "xyz_min": [0.0, 0.0, 0.0], "xyz_max": None},
                              "domain_stl": {"a": [{"scale": 1.0, "offset": [0.0, 0.0, 0.0], "filename": "x.stl"}]}}
    if mesh == "shape":
        g["data_voxelize"] = {"param": {"dx": 1.0, "dy": 1.0, "dz": 1.0, "cz": 0.0, "simplify": None, "construct": 0.1, "xy_min": None, "xy_max": [1.0, 1.0]},
                              "layer_stack": [{"n_layer": 1, "tag_layer": "l"}],
                              "geometry_shape": {"a": [
                                  {"shape_layer": ["l"], "shape_operation": "add", "shape_type": "pad", "shape_data": {"diameter": 1.0, "coord": [[0.0, 0.0]]}},
                                  {"shape_layer": ["l"], "shape_operation": "sub", "shape_type": "trace", "shape_data": {"width": 1.0, "coord": [[0.0, 0.0], [1.0, 0.0]]}},
                                  {"shape_layer": ["l"], "shape_operation": "add", "shape_type": "polygon",
                                   "shape_data": {"buffer": None, "coord_shell": [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]], "coord_holes": [[[0.1, 0.1], [0.2, 0.1], [0.1, 0.2]]]}}]}}
    return g


GROUP = {"domain_group": ("list", ("list", ("str",))), "connected": ("bool",)}
GEOMETRY = {
    "mesh_type": ("str",),
    "data_point": {"check_cloud": ("bool",), "full_cloud": ("bool",), "pts_cloud": ("list0", ("vec", 3, ("num",)))},
    "data_resampling": {"use_reduce": ("bool",), "use_resample": ("bool",), "resampling_factor": ("vec", 3, ("int", 1))},
    "data_conflict": {"resolve_rules": ("bool",), "resolve_random": ("bool",),
                      "conflict_rules": ("list0", {"domain_resolve": ("list", ("str",)), "domain_keep": ("list", ("str",))})},
    "data_integrity": {"domain_connected": ("map0", GROUP), "domain_adjacent": ("map0", GROUP)},
}
VOX = {
    "voxel": {"param": {"n": ("vec", 3, ("int", 1)), "d": ("vec", 3, ("num", 0)), "c": ("vec", 3, ("num",))}, "domain_index": ("map", ("list0", ("int", 0)))},
    "png": {"param": {"d": ("vec", 3, ("num", 0)), "c": ("vec", 3, ("num",)), "size": ("vec", 2, ("int", 1))},
            "domain_color": ("map", ("list", ("vec", 4, ("int", 0)))), "layer_stack": ("list", {"n_layer": ("int", 1), "filename_list": ("list", ("str",))})},
    "stl": {"param": {"d": ("vec", 3, ("num", 0)), "xyz_min": ("null", ("vec", 3, ("num",))), "xyz_max": ("null", ("vec", 3, ("num",)))},
            "domain_stl": ("map", ("list", {"scale": ("num", 0), "offset": ("vec", 3, ("num",)), "filename": ("str",)}))},
    "shape": {"param": {"dx": ("num", 0), "dy": ("num", 0), "dz": ("num", 0), "cz": ("null", ("num",)), "simplify": ("null", ("num", 0)), "construct": ("null", ("num", 0)),
                        "xy_min": ("null", ("vec", 2, ("num",))), "xy_max": ("null", ("vec", 2, ("num",)))},
              "layer_stack": ("list", {"n_layer": ("int", 1), "tag_layer": ("str",)}),
              "geometry_shape": ("map", ("list", "SHAPE"))},
}
SHAPE = {
    "pad": {"diameter": ("num", 0), "coord": ("list", ("vec", 2, ("num",)))},
    "trace": {"width": ("num", 0), "coord": ("list", ("vec", 2, ("num",)))},
    "polygon": {"buffer": ("null", ("num", 0)), "coord_shell": ("list", ("vec", 2, ("num",))), "coord_holes": ("list0", ("list", ("vec", 2, ("num",))))},
}
PROBLEM = {
    "material_def": ("map", {"domain_list": ("list", ("str",)), "material_type": ("enum",), "orientation_type": ("enum",), "var_type": ("enum",)}),
    "source_def": ("map", {"domain_list": ("list", ("str",)), "source_type": ("enum",), "var_type": ("enum",)}),
    "sweep_solver": ("map", {"init": ("null", ("str",)), "param": {"freq": ("num", 0), "material_val": ("map0", ("vals",)), "source_val": ("map0", ("vals",))}}),
}
ITER = {"solver": ("enum",), "n_inner": ("int", 0), "n_outer": ("int", 0), "rel_tol": ("num", 0), "abs_tol": ("num", 0)}
TOLERANCE = {
    "parallel_sweep": {"n_jobs": ("int",), "n_threads": ("null", ("int",))},
    "integral_simplify": ("num", 0), "biot_savart": ("enum",), "mult_type": ("enum",),
    "fft_options": {"matrix_split": ("bool",), "library": ("enum",), "scipy_worker": ("int",), "fftw_thread": ("int",), "fftw_timeout": ("null", ("num", 0)),
                    "fftw_byte_align": ("null", ("int", 0))},
    "factorization_options": {"library": ("enum",), "pyamg_options": {"tol": ("num", 0), "solver": ("enum",), "krylov": ("null", ("enum",))},
                              "pardiso_options": {"thread_pardiso": ("null", ("int",)), "thread_mkl": ("null", ("int",))}},
    "solver_options": {"coupling": ("enum",), "tolerance_options": {"ignore_status": ("bool",), "ignore_res": ("bool",), "rel_tol": ("num", 0), "abs_tol": ("num", 0)},
                       "power_options": {"stop": ("bool",), "n_min": ("int", 0), "n_cmp": ("int", 0), "rel_tol": ("num", 0), "abs_tol": ("num", 0)},
                       "direct_options": ITER,
                       "segregated_options": {"relax_electric": ("num", 0), "relax_magnetic": ("num", 0), "n_min": ("int", 0), "n_max": ("int", 0), "rel_tol": ("num", 0),
                                              "abs_tol": ("num", 0), "iter_electric_options": ITER, "iter_magnetic_options": ITER}},
    "condition_options": {"check": ("bool",), "tolerance_electric": ("num", 0), "tolerance_magnetic": ("num", 0), "norm_options": {"t_accuracy": ("int", 0), "n_iter_max": ("int", 0)}},
}
SIZE = ("null", ("vec", 2, ("int", 0)))
WINDOW = {"show_menu": ("bool",), "image_size": SIZE, "window_size": SIZE, "notebook_size": SIZE}
OPT_MPL = {"style": ("str",), "legend": ("str",), "font": ("int", 0)}
VIEWN = ("null", ("num", 0))
OPT_PV = {
    "plot_clip": {"clip_plot": ("bool",), "clip_invert": ("bool",), "clip_axis": ("enum",), "clip_value": ("num",)},
    "plot_theme": {"text_color": ("str",), "title_font": ("int", 0), "colorbar_font": ("int", 0), "colorbar_size": ("int", 0), "colorbar_plot": ("bool",),
                   "background_color": ("str",), "axis_add": ("bool",), "axis_size": ("int", 0)},
    "plot_view": {"grid_plot": ("bool",), "grid_thickness": ("num", 0), "grid_color": ("str",), "grid_opacity": ("num", 0), "geom_plot": ("bool",), "geom_thickness": ("num", 0),
                  "geom_color": ("str",), "geom_opacity": ("num", 0), "point_plot": ("bool",), "point_color": ("str",), "point_size": ("num", 0), "point_opacity": ("num", 0),
                  "camera_roll": VIEWN, "camera_azimuth": VIEWN, "camera_elevation": VIEWN},
}
TXT = ("null", ("str",))
LIM = ("null", ("vec", 2, ("num",)))
COM = {"title": TXT, "legend": TXT, "var": ("str",), "log": ("bool",), "color_lim": LIM, "filter_lim": LIM, "clamp_lim": LIM, "scale": ("num",)}
PLOT = {
    "domain": {"title": TXT, "colormap": ("str",), "opacity": ("num", 0)},
    "graph": {"title": TXT, "colormap": ("str",), "opacity": ("num", 0)},
    "mesh": {"title": TXT, "color_voxel": ("str",), "color_reference": ("str",), "opacity_voxel": ("num", 0), "opacity_reference": ("num", 0)},
    "material": {"title": TXT, "color_electric": ("str",), "color_magnetic": ("str",), "color_electromagnetic": ("str",), "color_current_source": ("str",), "color_voltage_source": ("str",)},
    "convergence": {"color_active": ("str",), "color_reactive": ("str",), "marker": ("num", 0), "width": ("num", 0)},
    "residuum": {"bar_color": ("str",), "edge_color": ("str",), "tol_bins": ("num", 0), "n_bins": ("int", 0)},
}
for _v in ("voxel", "point"):
    PLOT["norm_" + _v] = dict(COM, point_size=("num", 0))
    PLOT["phasor_" + _v] = dict(COM, point_size=("num", 0), phase=("num",))
    PLOT["arrow_" + _v] = dict(COM, phase=("num",), arrow_threshold=("num", 0), arrow_scale=("num", 0))
PLOT_V, PLOT_P = ("domain", "graph", "mesh"), tuple(k for k in PLOT if k not in ("domain", "graph", "mesh"))


def plot_format(layout):
    return {"framework": ("enum",), "layout": ("enum",), "title": ("str",), "data_window": WINDOW,
            "data_options": OPT_MPL if layout in ("convergence", "residuum") else OPT_PV, "data_plot": PLOT[layout]}


# every single deviation from the format: (path, operation, value)
WRONG = {"int": [1.0, "1", None, True, [1]], "num": [1, "1.0", None, True, [1.0]], "bool": [0, 1, "true", None, 1.0], "str": [1, None, "", ["a"], True],
         "enum": [1, None, "nothing", "", ["x"]], "obj": [None, 1, "x", [1]], "list": [None, 1, "x", {"a": 1}]}


def deviations(fmt, data, path=()):
    if isinstance(fmt, dict):
        for bad in WRONG["obj"]:
            yield path, "set", bad
        for k in fmt:
            yield path + (k,), "del", None
            yield from deviations(fmt[k], data[k], path + (k,))
        return
    if fmt == "SHAPE":
        yield path + ("shape_layer",), "del", None
        yield path + ("shape_operation",), "del", None
        yield path + ("shape_type",), "del", None
        yield path + ("shape_data",), "del", None
        yield from deviations(("list", ("str",)), data["shape_layer"], path + ("shape_layer",))
        yield from deviations(("enum",), data["shape_operation"], path + ("shape_operation",))
        yield from deviations(("enum",), data["shape_type"], path + ("shape_type",))
        yield from deviations(SHAPE[data["shape_type"]], data["shape_data"], path + ("shape_data",))
        return
    k = fmt[0]
    if k == "null":
        if data is None:
            sub = fmt[1]
            bads = WRONG[{"vec": "list"}.get(sub[0], sub[0])]
            for bad in bads:
                if bad is not None:
                    yield path, "set", bad
            return
        for p, op, bad in deviations(fmt[1], data, path):
            if not (p == path and op == "set" and bad is None):
                yield p, op, bad
        return
    if k in ("int", "num"):
        for bad in WRONG[k]:
            yield path, "set", bad
        if len(fmt) > 1:
            yield path, "set", (fmt[1] - 1 if k == "int" else fmt[1] - 0.5)
            yield path, "set", (fmt[1] - 7 if k == "int" else fmt[1] - 1e6)
        return
    if k in ("bool", "str", "enum"):
        for bad in WRONG[k]:
            yield path, "set", bad
        return
    if k == "vec":
        for bad in WRONG["list"]:
            yield path, "set", bad
        yield path, "set", list(data)[:-1]
        yield path, "set", list(data) + [data[0]]
        for i in range(fmt[1]):
            yield from deviations(fmt[2], data[i], path + (i,))
        return
    if k in ("list", "list0"):
        for bad in WRONG["list"]:
            yield path, "set", bad
        if k == "list":
            yield path, "set", []
        for i in range(len(data)):
            yield from deviations(fmt[1], data[i], path + (i,))
        return
    if k in ("map", "map0"):
        for bad in WRONG["obj"]:
            yield path, "set", bad
        if k == "map":
            yield path, "set", {}
        for t in data:
            yield from deviations(fmt[1], data[t], path + (t,))
        return
    if k == "vals":
        for bad in WRONG["obj"]:
            yield path, "set", bad
        for t in data:
            yield path + (t,), "del", None
            for bad in ["1.0", None, 1, True, {"a": 1.0}]:
                yield path + (t,), "set", bad
        return
    raise AssertionError(fmt)


def apply(data, path, op, bad):
    out = copy.deepcopy(data)
    p = out
    for k in path[:-1]:
        p = p[k]
    if not path:
        return bad
    if op == "del":
        del p[path[-1]]
    else:
        p[path[-1]] = bad
    return out


def arrays(c, fmt, data):
    """the same data with numeric lists given as arrays (randomly chosen)"""
    if isinstance(fmt, dict):
        return {k: (arrays(c, fmt[k], v) if k in fmt else v) for k, v in data.items()}
    if fmt == "SHAPE":
        return dict(data, shape_data=arrays(c, SHAPE[data["shape_type"]], data["shape_data"]))
    if fmt[0] == "null":
        return data if data is None else arrays(c, fmt[1], data)
    if fmt[0] in ("map", "map0"):
        return {k: arrays(c, fmt[1], v) for k, v in data.items()}
    if fmt[0] in ("vec", "list", "list0"):
        sub = fmt[2] if fmt[0] == "vec" else fmt[1]
        flat = sub if not isinstance(sub, tuple) or sub[0] not in ("vec",) else sub[2]
        if isinstance(flat, tuple) and flat[0] in ("int", "num") and c.p(0.7):
            return np.array(data, dtype=np.int64 if flat[0] == "int" else np.float64) if len(data) or fmt[0] != "list0" else np.zeros(0, dtype=np.int64)
        return [arrays(c, sub, v) for v in data]
    if fmt[0] == "vals":
        return {k: (np.array(v, dtype=np.float64) if isinstance(v, list) and c.p(0.7) else v) for k, v in data.items()}
    if fmt[0] == "int" and c.p(0.2):
        return np.int64(data)
    if fmt[0] == "num" and c.p(0.2):
        return np.float64(data)
    return data


def problem_base(c):
    mk = lambda t, o, v: {"domain_list": ["a", "b"], "material_type": t, "orientation_type": o, "var_type": v}  # noqa
    return {"material_def": {"m1": mk("electric", "isotropic", "lumped"), "m2": mk("magnetic", "anisotropic", "lumped"), "m3": mk("electromagnetic", "isotropic", "distributed")},
            "source_def": {"s1": {"domain_list": ["a"], "source_type": "current", "var_type": "lumped"}, "s2": {"domain_list": ["b"], "source_type": "voltage", "var_type": "distributed"}},
            "sweep_solver": {"w1": {"init": None, "param": {"freq": 0.0, "material_val": {
                "m1": {"rho_re": 1.0, "rho_im": 0.0}, "m2": {"chi_re": [1.0, 2.0, 3.0], "chi_im": [0.0, 0.0, 0.0]}, "m3": {"rho_re": [1.0], "rho_im": [0.0], "chi_re": [1.0], "chi_im": [0.0]}},
                "source_val": {"s1": {"I_re": 1.0, "I_im": 0.0, "Y_re": 1.0, "Y_im": 0.0}, "s2": {"V_re": [1.0], "V_im": [0.0], "Z_re": [1.0], "Z_im": [0.0]}}}},
                "w2": {"init": "w1", "param": {"freq": 5.0, "material_val": {}, "source_val": {}}}}}


def kinds(c):
    out = []
    for mesh in ("voxel", "png", "stl", "shape"):
        out.append(("check_data_geometry", dict(GEOMETRY, data_voxelize=VOX[mesh]), base_geometry(c, mesh)))
    out.append(("check_data_problem", PROBLEM, problem_base(c)))
    out.append(("check_data_tolerance", TOLERANCE, prob.tolerance()))
    for t in PLOT:
        out.append(("check_data_viewer" if t in PLOT_V else "check_data_plotter", ("map0", plot_format(t)), {"p": plot.one(c, t, "V_c")}))
    return out


N_KIND = 6 + len(PLOT)
# removing one of the fields of an electromagnetic material leaves another valid description (see the anyOf of the format)
ALLOWED_DEL = {("sweep_solver", "w1", "param", "material_val", "m3", k) for k in ("rho_re", "rho_im", "chi_re", "chi_im")}


@contract("check_data_format.check_data_*", "every missing field and wrong type is rejected, the documented data are accepted", N_KIND, N_KIND)
def formats(c):
    f, fmt, data = kinds(c)[c.k % N_KIND]
    call(CF, f, data)
    old = freeze(data)
    k = 0
    skip = 1 if c.k < 6 or c.tier != "quick" else 3
    for path, op, bad in deviations(fmt, data):
        if f in ("check_data_viewer", "check_data_plotter") and len(path) == 0:
            pass
        k += 1
        if skip > 1 and (k + c.i(0, 2)) % skip:
            continue
        if op == "del" and path in ALLOWED_DEL:
            continue
        # the sub-format of another variant is not checked after the selector is changed
        new = apply(data, path, op, bad)
        c.inputs = {"checker": f, "path": list(path), "op": op, "value": bad, "data": "documented example " + str(c.k % N_KIND)}
        raises(CF, f, new)
    need(equal_data(data, old), "the checked data were modified")


@contract("check_data_format.check_data_*", "numeric arrays are accepted wherever lists are", 3 * N_KIND)
def numeric(c):
    f, fmt, data = kinds(c)[c.k % N_KIND]
    new = arrays(c, fmt, data)
    c.note(checker=f, data=new)
    call(CF, f, new)


@contract("check_data_options.check_tag_list", "exactly lists of known names (or nothing)", 200)
def tags(c):
    names = ["n%d" % k for k in range(c.i(0, 5))]
    data = {t: k for k, t in enumerate(names)}
    kind = c.pick(["none", "good", "good", "unknown", "type", "item"])
    lst = [c.pick(names) for _ in range(c.i(0, 4))] if names else []
    if kind == "none":
        lst = None
    if kind == "unknown":
        lst = lst + [c.pick(["", "zz", "n", "N0", "n00"])]
        lst = [lst[k] for k in c.rng.permutation(len(lst))]
    if kind == "type":
        lst = c.pick(["n0", 1, {"n0": 1}, 1.5, True])
    if kind == "item":
        lst = lst + [c.pick([None, 1, ["n0"], 0.5])]
    c.note(names=names, tags=lst)
    if kind in ("none", "good"):
        call(CO, "check_tag_list", data, lst)
    else:
        raises(CO, "check_tag_list", data, lst)


@contract("check_data_options.check_plot_options", "known modes, non-empty names", 150)
def options(c):
    ok = {"mode": [None, "qt", "nb", "save", "debug"], "folder": [None, ".", "abc", "/a/b"], "name": [None, "x", "pypeec"]}
    bad = {"mode": ["", "QT", "window", 1, True, ["qt"]], "folder": ["", 1, ["a"], False], "name": ["", 2, ["a"], {}]}
    wrong = [c.p(0.25) for _ in range(3)]
    a = [c.pick(bad[k]) if w else c.pick(ok[k]) for k, w in zip(ok, wrong)]
    c.note(plot_mode=a[0], folder=a[1], name=a[2])
    if any(wrong):
        raises(CO, "check_plot_options", *a)
    else:
        call(CO, "check_plot_options", *a)


@contract("check_data_options.check_data_voxel/check_data_solution", "results lacking a field are rejected", 60)
def results(c):
    vox = {"date": 1, "duration": 2, "seconds": 3.0, "status": c.p(), "data_geom": {"x": 1}}
    sol = {"date": 1, "duration": 2, "seconds": 3.0, "status": c.p(), "data_init": {"x": 1}, "data_sweep": {"y": 2}}
    r = call(CO, "check_data_voxel", vox)
    need(tuple(r) == (vox["status"], vox["data_geom"]), "voxel data")
    r = call(CO, "check_data_solution", sol)
    need(tuple(r) == (sol["status"], sol["data_init"], sol["data_sweep"]), "solution data")
    a, b = c.pick(list(vox)), c.pick(list(sol))
    c.note(missing=[a, b])
    raises(CO, "check_data_voxel", {k: v for k, v in vox.items() if k != a})
    raises(CO, "check_data_solution", {k: v for k, v in sol.items() if k != b})
    for bad in (None, 1, [1], "x"):
        raises(CO, "check_data_voxel", bad)
        raises(CO, "check_data_solution", bad)


_CACHE = {}


def small_solution(c):
    k = c.k % 4
    if k not in _CACHE:
        c2 = Case(np.random.default_rng([77, k]), k, c.tier)
        case = prob.random_problem(c2, nmax=2, n_cloud=1, magnetic=bool(k % 2))
        names = ["z", "a", "m"]
        sw = {t: {"init": None, "param": {"freq": 10.0 * (i + 1), "material_val": case["material_val"], "source_val": case["source_val"]}} for i, t in enumerate(names)}
        _CACHE[k] = (prob.voxel(case), prob.solve(case, sweeps=sw))
    return _CACHE[k]


def setting(sc, des):
    """settings of a recorded scene against its description"""
    p, o = des["data_plot"], des["data_options"]
    th, cl = o["plot_theme"], o["plot_clip"]
    need(sc.init[1].get("window_size") == (None if des["data_window"]["image_size"] is None else tuple(des["data_window"]["image_size"])), "window size", sc.init)
    need(sc.background == th["background_color"], "background")
    need([t for t, _ in sc.text] == [p["title"]], "title", sc.text, p["title"])
    need(sc.text[0][1].get("font_size") == th["title_font"] and sc.text[0][1].get("color") == th["text_color"], "title theme")
    need((sc.axes is not None) == th["axis_add"], "axes")
    for a in ("roll", "azimuth", "elevation"):
        need(getattr(sc.camera, a) == o["plot_view"]["camera_" + a], "camera " + a)
    extra = [(m, k) for t, m, k in sc.mesh if k.get("style") == "wireframe"]
    pts = [(m, k) for t, m, k in sc.mesh if k.get("render_points_as_spheres") and "scalars" not in k]
    v = o["plot_view"]
    need(len(extra) == int(v["grid_plot"]) + int(v["geom_plot"]), "wireframes", len(extra))
    need(len(pts) == int(v["point_plot"]), "points")
    main = [(t, m, k) for t, m, k in sc.mesh if k.get("style") != "wireframe" and not (k.get("render_points_as_spheres") and "scalars" not in k)]
    for t, m, k in main:
        need((t == "clip") == cl["clip_plot"], "clipping")
        if t == "clip":
            need((k["invert"], k["normal"], k["value"]) == (cl["clip_invert"], cl["clip_axis"], cl["clip_value"]), "clip plane")
    lay = des["layout"]
    for t, m, k in main:
        if lay in ("domain", "graph"):
            need((k["scalars"], k["cmap"], k["opacity"]) == (lay, p["colormap"], p["opacity"]), "settings of " + lay)
        elif lay == "material":
            need(k["scalars"] == "material" and list(k["cmap"]) == [p["color_" + q] for q in ("electric", "magnetic", "electromagnetic", "current_source", "voltage_source")], "material colors")
            need(list(k["clim"]) == [1, 5], "material color range")
        elif lay != "mesh":
            need(k["scalars"] == "norm" and k["log_scale"] == p["log"] and k["clim"] == p["color_lim"], "settings of " + lay)
            need(k["scalar_bar_args"]["title"] == p["legend"] and k["show_scalar_bar"] == th["colorbar_plot"], "color bar")
            need(k["scalar_bar_args"]["n_labels"] == th["colorbar_size"] and k["scalar_bar_args"]["label_font_size"] == th["colorbar_font"], "color bar font")
            if "point_size" in p:
                need(k["point_size"] == p["point_size"], "point size")
    if lay == "mesh":
        need([(k["color"], k["opacity"]) for _, _, k in main] == [(p["color_voxel"], p["opacity_voxel"]), (p["color_reference"], p["opacity_reference"])], "mesh settings")


def figure(rec, des, sweep):
    p = des["data_plot"]
    if des["layout"] == "residuum":
        need(rec["title"].startswith("Residuum"), "residuum plot")
        need(len(rec["bars"]) == p["n_bins"] - 1, "number of bins", len(rec["bars"]), p["n_bins"])
        need(sum(b[2] for b in rec["bars"]) == len(sweep["res"]), "all residuum entries are shown")
    else:
        need(rec["title"].startswith("Convergence"), "convergence plot")
        need([(ln[1], ln[2], ln[3]) for ln in rec["lines"]] == [(p["color_active"], p["width"], p["marker"]), (p["color_reactive"], p["width"], p["marker"])], "convergence settings", rec["lines"])
        need(len(rec["lines"][0][4]) == 1 + len(sweep["conv"]["power_vec"]), "all iterations are shown")


def request(c, data):
    """(request, expected names)"""
    names = list(data)
    if c.p(0.3):
        return None, names
    lst = [names[k] for k in c.rng.permutation(len(names))[: c.i(0, len(names))]]
    return lst, lst


@contract("run.viewer.run", "exactly the requested plots, in order, with their own settings", 60)
def run_viewer(c):
    vox, _ = small_solution(c)
    lay = [c.pick(PLOT_V) for _ in range(c.i(1, 5))]
    req = {"p%s" % "zaymb"[k]: plot.one(c, t) for k, t in enumerate(lay)}
    tag, exp = request(c, req)
    folder, name = c.pick([None, "some_folder"]), c.pick([None, "nn"])
    c.note(plots=req, tag_plot=tag, folder=folder, name=name)
    old = freeze((vox, req, tag))
    kw = {} if tag is None and c.p() else {"tag_plot": tag}
    with plot.recorder() as rec:
        call("run.viewer", "run", vox, req, plot_mode="save", folder=folder, name=name, **kw)
    need(equal_data(old, (vox, req, tag)), "inputs modified")
    files = [os.path.join(folder or os.getcwd(), "%s_%s.png" % (name or "pypeec", t)) for t in exp]
    need([s.saved for s in rec.scenes] == [[f] for f in files], "shown plots", [s.saved for s in rec.scenes], files)
    for s, t in zip(rec.scenes, exp):
        setting(s, req[t])


@contract("run.plotter.run", "exactly the requested sweeps and plots, in order, with their own settings", 50)
def run_plotter(c):
    _, sol = small_solution(c)
    var = {"voxel": ["V_c", "P_c", "S_c"], "point": ["H_p"], "vec": ["J_c"]}
    lay = [c.pick(PLOT_P) for _ in range(c.i(1, 4))]
    req = {"p%s" % "zaymb"[k]: plot.one(c, t, c.pick(var["vec" if t == "arrow_voxel" else t.split("_")[-1]]) if "_" in t else None) for k, t in enumerate(lay)}
    for q in req.values():
        if "filter_lim" in q["data_plot"]:
            q["data_plot"].update(filter_lim=None, scale=1.0)
        if q["layout"] == "phasor_point":
            q["layout"] = "norm_point"
            del q["data_plot"]["phase"]
    tag, exp = request(c, req)
    ts, es = request(c, sol["data_sweep"])
    name = c.pick([None, "nn"])
    c.note(plots=req, tag_plot=tag, tag_sweep=ts, name=name)
    old = freeze((sol, req, tag, ts))
    with plot.recorder() as rec:
        call("run.plotter", "run", sol, req, tag_sweep=ts, tag_plot=tag, plot_mode="save", folder="some_folder", name=name)
    need(equal_data(old, (sol, req, tag, ts)), "inputs modified")
    full = [(s, t, os.path.join("some_folder", "%s_%s_%s.png" % (name or "pypeec", s, t))) for s in es for t in exp]
    pv = [x for x in full if req[x[1]]["framework"] == "pyvista"]
    mp = [x for x in full if req[x[1]]["framework"] == "matplotlib"]
    need([s.saved for s in rec.scenes] == [[x[2]] for x in pv], "shown plots", [s.saved for s in rec.scenes], [x[2] for x in pv])
    need([f["file"] for f in rec.figs] == [x[2] for x in mp], "shown figures", [f["file"] for f in rec.figs], [x[2] for x in mp])
    for s, x in zip(rec.scenes, pv):
        setting(s, req[x[1]])
    for f, x in zip(rec.figs, mp):
        figure(f, req[x[1]], sol["data_sweep"][x[0]])


@contract("run.viewer.run/run.plotter.run", "invalid requests are rejected before anything is shown", 120)
def rejected(c):
    vox, sol = small_solution(c)
    which = c.pick(["viewer", "plotter"])
    lay = [c.pick(PLOT_V if which == "viewer" else ("material", "convergence", "residuum")) for _ in range(c.i(1, 3))]
    req = {"p%d" % k: plot.one(c, t) for k, t in enumerate(lay)}
    kw = {"plot_mode": "save", "folder": "some_folder", "name": "nn", "tag_plot": None}
    data = vox if which == "viewer" else sol
    if which == "plotter":
        kw["tag_sweep"] = None
    kind = c.pick(["plot", "sweep", "mode", "folder", "name", "format", "data"] if which == "plotter" else ["plot", "mode", "folder", "name", "format", "data"])
    if kind == "plot":
        kw["tag_plot"] = c.pick([list(req) + ["unknown"], ["unknown"] + list(req), "p0", 1, [1], {"p0": 1}])
    if kind == "sweep":
        kw["tag_sweep"] = c.pick([list(sol["data_sweep"]) + ["unknown"], "a", 1, [None]])
    if kind == "mode":
        kw["plot_mode"] = c.pick(["", "screen", 1])
    if kind in ("folder", "name"):
        kw[kind] = c.pick(["", 1, ["x"]])
    if kind == "format":
        t = c.pick(list(req))
        dev = list(deviations(plot_format(req[t]["layout"]), req[t]))
        p, op, bad = c.pick(dev)
        req = dict(req)
        req[t] = apply(req[t], p, op, bad)
    if kind == "data":
        k = c.pick(list(data))
        data = {a: b for a, b in data.items() if a != k}
    c.note(tool=which, kind=kind, options=kw, plots=req if kind == "format" else list(req))
    with plot.recorder() as rec:
        raises("run." + which, "run", data, req, **kw)
    need(not rec.anything, "something was shown before the rejection")


@contract("run.mesher.run/run.solver.run", "malformed input is rejected before any computation", 60)
def before(c):
    import pypeec.run.solver as so
    import pypeec.run.mesher as me
    calls = []

    class Computed(BaseException):
        pass
    vox, _ = small_solution(c)
    which = c.pick(["geometry", "problem", "tolerance"])
    # the grid, the matrices and the FFT are computed with numpy arrays created after the check: watch the first stage
    mods = {"geometry": [me.mesher_voxel, "get_mesh"], "problem": [so.voxel_geometry, "get_voxel_coordinate"], "tolerance": [so.voxel_geometry, "get_voxel_coordinate"]}
    fmt = {"geometry": dict(GEOMETRY, data_voxelize=VOX["voxel"]), "problem": PROBLEM, "tolerance": TOLERANCE}[which]
    data = {"geometry": base_geometry(c, "voxel"), "problem": problem_base(c), "tolerance": prob.tolerance()}[which]
    dev = [x for x in deviations(fmt, data) if x[0] not in ALLOWED_DEL]
    path, op, bad = c.pick(dev)
    c.note(data=which, path=list(path), op=op, value=bad)
    new = apply(data, path, op, bad)
    mod, name = mods[which]
    old = getattr(mod, name, None)
    try:
        if old is not None:
            def watch(*a, **k):
                calls.append(name)
                return old(*a, **k)
            setattr(mod, name, watch)
        if which == "geometry":
            raises("run.mesher", "run", new)
        else:
            raises("run.solver", "run", vox, new if which == "problem" else problem_base(c), new if which == "tolerance" else prob.tolerance())
    finally:
        if old is not None:
            setattr(mod, name, old)
    need(not calls, "computation started with malformed data")
