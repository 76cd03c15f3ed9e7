"""Plots attach every value to its own voxel or point."""
from contracts.common import *  # noqa

PP = "pypeec.lib_plot.parse_plotter"
PV = "pypeec.lib_plot.parse_voxel"
VI = "pypeec.lib_plot.parse_viewer"
PM = "pypeec.lib_plot.manage_pyvista"
ASSUMED = ["PyVista: extract_cells with the numbers of the cells keeps these cells in ascending order of the numbers, and with a mask the cells where it is true, with their values",
           "PyVista: a mesh holds the arrays which are assigned to it under their names",
           "the values of the solution are numbers (not-a-number only stands for undefined values)"]


class Mesh:
    """mesh with named values on its cells"""
    __vc_methods__ = ("extract_cells", "copy")

    def __init__(self, n, cells=None, data=None, sel=None):
        self.n, self.cells, self.data, self.sel = n, cells, dict(data or {}), sel

    def vc_attr(self, name):
        if name == "n_cells":
            return self.n
        if name == "array_names":
            return PList(self.data)
        raise Unsupported("attribute %s of a mesh" % name)

    def vc_item(self, ip, key):
        if key not in self.data:
            raise PyRaise(KeyError, str(key))
        return self.data[key]

    def vc_store(self, ip, key, val):
        if not isinstance(key, str):
            raise Unsupported("name of the values")
        a = A.as_arr(val)
        ctx().safe("one value per cell", s_eq(A.ax_len(a.axes[0]), self.n))
        self.data[key] = a.copy() if hasattr(a, "copy") else Arr(a.axes, a.fn, a.kind)

    def copy(self, deep=True):
        if deep is not True:
            raise Unsupported("shallow copy")
        return Mesh(self.n, self.cells, {k: Arr(a.axes, a.fn, a.kind) for k, a in self.data.items()}, self.sel)

    def extract_cells(self, idx):
        a = A.as_arr(idx)
        if a.kind == "bool":
            ctx().safe("one value per cell in the mask", s_eq(A.ax_len(a.axes[0]), self.n))
            sub = A.mask_axis(a.axes[0], a)
            size = A.ax_len(sub)
            ctx().assume(A.forall(a.axes[0], lambda i: b_implies(a.fn(i), s_cmp(">=", size, 1))))
            return Mesh(size, None, {k: A.getitem(x, a) for k, x in self.data.items()}, (self, a))
        if not (a.meta.get("sorted") and a.meta.get("distinct")):
            raise Unsupported("cells in another order")
        return Mesh(A.ax_len(a.axes[0]), a)


class Used:
    """the used voxels in any order, and the mesh of these voxels"""

    def __init__(self, v):
        self.v = v
        self.n = v.int("n_used", lo=0)
        self.idx, self.f, self.p, self.has = selection(v, "idx", self.n)
        grid = Mesh(v.int("n_grid", lo=1))
        self.mesh = v.call(PV, "get_voxel", grid, self.idx)
        self.x = lambda i: self.mesh.cells.fn(A.pos_to_index(self.mesh.cells.axes[0], i))

    def subset(self, name, size=None):
        """some of the used voxels, in any order"""
        n = self.v.int("n_" + name, lo=0)
        a, f, p, has = selection(self.v, name, n)
        self.v.assume(A.forall(Range(n), lambda i: self.has(f(i))))
        return n, a, p, has

    def cells(self, clause, name, exp, comps=None):
        """the values of every cell"""
        v, m = self.v, self.mesh
        v.prove(clause + ": is set", name in m.data)
        if name not in m.data:
            return
        a = m.data[name]
        v.prove(clause + ": size", b_and(a.ndim == (1 if comps is None else 2), s_eq(A.ax_len(a.axes[0]), self.n)))
        for i in v.each(Range(self.n)):
            j = A.pos_to_index(a.axes[0], i)
            if comps is None:
                v.prove(clause, s_eq(a.fn(j), exp(self.x(i))))
            else:
                for k in range(3):
                    v.prove(clause, s_eq(a.fn(j, k), exp(self.x(i), k)))


@spec("parse_voxel.get_voxel", [PV + ":get_voxel"])
def voxel(v):
    u = Used(v)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    m = u.mesh
    v.prove("one cell per used voxel", s_eq(m.n, u.n))
    for i in v.each(Range(u.n)):
        v.prove("every cell is a used voxel", u.has(u.x(i)))
    for i in v.each(Range(u.n)):
        for j in v.each(Range(u.n)):
            v.prove("the cells are different", b_implies(s_cmp("<", i, j), s_cmp("<", u.x(i), u.x(j))))


@spec("parse_plotter.set_voxel_material", [PP + ":set_voxel_material"])
def material(v):
    u = Used(v)
    sets = {k: u.subset(k) for k in ("idx_vc", "idx_vm", "idx_src_c", "idx_src_v")}
    is_c, is_m, is_i, is_v = (lambda h: (lambda x: h[3](x)))(sets["idx_vc"]), sets["idx_vm"][3], sets["idx_src_c"][3], sets["idx_src_v"][3]
    v.assume(A.forall(Range(u.n), lambda i: b_or(is_c(u.f(i)), is_m(u.f(i)))))
    r = v.call(PP, "set_voxel_material", u.mesh, u.idx, *[s[1] for s in sets.values()])
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("the mesh is returned", r is u.mesh)
    u.cells("material of the voxel (sources take precedence)", "material",
            lambda x: s_ite(is_v(x), 5, s_ite(is_i(x), 4, s_ite(b_and(is_c(x), is_m(x)), 3, s_ite(is_c(x), 1, 2)))))


def variable(vector):
    def run(v):
        nan = v.real("nan")
        v.override("numpy.nan", nan)
        u = Used(v)
        n, a, p, has = u.subset("idx_var")
        v.c.inverses.append((u.n, lambda i: (has(u.f(i)), p(u.f(i)))))
        var = v.array("var", (n, 3) if vector else n, "complex")
        f = var.fn
        fn = "set_voxel_vector" if vector else "set_voxel_scalar"
        r = v.call(PP, fn, u.mesh, u.idx, a, var, "X")
        v.prove("no error", v.raised is None)
        if v.raised:
            return
        v.prove("the mesh is returned", r is u.mesh)
        v.prove("only the values of the variable are set", set(u.mesh.data) == {"X_re", "X_im", "X_norm"})
        at = (lambda x, k: f(p(x), k)) if vector else (lambda x: f(p(x)))
        comps = 3 if vector else None
        part = {"re": lambda z: to_cx(z).re, "im": lambda z: to_cx(z).im}
        for s, g in part.items():
            u.cells("%s of the own voxel, not a number where it is undefined" % {"re": "real part", "im": "imaginary part"}[s], "X_" + s,
                    lambda x, *k: s_ite(has(x), g(at(x, *k)), nan), comps)

        def norm(x):
            zs = [to_cx(at(x, k)) for k in range(3)] if vector else [to_cx(at(x))]
            sq = 0
            for z in zs:
                sq = s_add(sq, s_add(s_mul(z.re, z.re), s_mul(z.im, z.im)))
            un = s_mul(2 * len(zs), s_mul(nan, nan))
            return s_sqrt(s_ite(has(x), sq, un))
        u.cells("magnitude of the own voxel, not a number where it is undefined", "X_norm", norm)
    spec("parse_plotter.%s" % ("set_voxel_vector" if vector else "set_voxel_scalar"), [PP + ":set_voxel_" + ("vector" if vector else "scalar")])(run)


variable(False)
variable(True)


@spec("parse_plotter.set_point_cloud", [PP + ":set_point_cloud"])
def cloud(v):
    n = v.int("n_point", lo=0)
    var = v.array("var", (n, 3), "complex")
    f = var.fn
    m = Mesh(n)
    r = v.call(PP, "set_point_cloud", m, var, "X")
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("the mesh is returned", r is m)
    v.prove("only the values of the variable are set", set(m.data) == {"X_re", "X_im", "X_norm"})
    v.equal_arr("real part of the own point", m.data["X_re"], [n, 3], lambda i, k: to_cx(f(i, k)).re)
    v.equal_arr("imaginary part of the own point", m.data["X_im"], [n, 3], lambda i, k: to_cx(f(i, k)).im)
    v.equal_arr("magnitude of the own point", m.data["X_norm"], [n], lambda i: s_sqrt(sum_sq(f, i)))


def sum_sq(f, i):
    sq = 0
    for k in range(3):
        z = to_cx(f(i, k))
        sq = s_add(sq, s_add(s_mul(z.re, z.re), s_mul(z.im, z.im)))
    return sq


@spec("parse_plotter.get_voxel", [PP + ":get_voxel"])
def used(v):
    n1, n2 = v.int("n_vc", lo=0), v.int("n_vm", lo=0)
    a, f1, p1, h1 = selection(v, "idx_vc", n1)
    b, f2, p2, h2 = selection(v, "idx_vm", n2)
    r = v.call(PP, "get_voxel", a, b)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    x = v.int("x")
    v.prove("exactly the electric and magnetic voxels are used", s_eq(A.mem(r, x), b_or(h1(x), h2(x))) if isinstance(A.mem(r, x), bool) else zbool(A.mem(r, x)) == zbool(b_or(h1(x), h2(x))))
    v.prove("every voxel is used once", A.forall([r.axes[0], r.axes[0]], lambda i, j: b_implies(s_eq(r.fn(i), r.fn(j)), b_and(*[s_eq(s, t) for s, t in zip(A.flat_idx(i), A.flat_idx(j))]))))


@spec("parse_viewer.get_voxel", [VI + ":get_voxel"])
def viewer_voxel(v):
    dom = Domains(v)
    r = v.call(VI, "get_voxel", dom.dict)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.equal_arr("the voxels of the domains, one domain after another", r, [dom.fiber()], lambda u: dom.idx(u[0], u[1]))


@spec("parse_viewer._get_graph_component", [VI + ":_get_graph_component"])
def graph_component(v):
    n = v.int("n_idx", lo=0)
    idx = v.array("idx", n, "int")
    comp = Domains(v, "graph")
    # a voxel is not part of two components
    every = [Range(n), comp.axis, comp.axis]
    v.assume(A.forall(every, lambda i, a, b: b_implies(b_and(comp.member(a, idx.fn(i)), comp.member(b, idx.fn(i))), s_eq(a, b))))
    r = v.call(VI, "_get_graph_component", idx, SList(comp.axis, comp.value))
    full = A.forall(Range(n), lambda i: comp.used(idx.fn(i)))
    if v.raised:
        v.prove("an error is raised only if a voxel has no component", b_not(full))
        return
    v.prove("a voxel without component is rejected", full)
    v.prove("one number per voxel", b_and(r.ndim == 1, s_eq(A.ax_len(r.axes[0]), n)))
    for i in v.each(Range(n)):
        for k in v.each(comp.axis):
            v.prove("the number of the component of the voxel", b_implies(comp.member(k, idx.fn(i)), s_eq(r.fn(A.pos_to_index(r.axes[0], i)), s_add(k, 1))))


@spec("parse_viewer._get_geometry_tag", [VI + ":_get_geometry_tag"])
def geometry_tag(v):
    dom = Domains(v)
    num = v.fun("number", 1)
    graph = Opaque("graph")

    def component(idx, g):
        if g is not graph:
            raise Unsupported("another list of components")
        return Arr(idx.axes, lambda i: num(idx.fn(i)), "int")
    v.override(VI + ":_get_graph_component", component)
    r = v.call(VI, "_get_geometry_tag", dom.dict, graph)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.equal_arr("the number of the domain, in the order of the voxels", r[0], [dom.fiber()], lambda u: s_add(u[0], 1))
    v.equal_arr("the number of the component, in the order of the voxels", r[1], [dom.fiber()], lambda u: num(dom.idx(u[0], u[1])))


@spec("parse_viewer.set_data", [VI + ":set_data"])
def viewer_data(v):
    u = Used(v)
    d, g = v.array("domain", u.n, "int"), v.array("graph", u.n, "int")
    fd, fg = d.fn, g.fn
    dd, gd = Opaque("domains"), Opaque("graph")

    def tag(x, y):
        if x is not dd or y is not gd:
            raise Unsupported("other domains or components")
        return d, g
    v.override(VI + ":_get_geometry_tag", tag)
    r = v.call(VI, "set_data", u.mesh, u.idx, dd, gd)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("the mesh is returned", r is u.mesh)
    u.cells("domain number of the own voxel", "domain", lambda x: fd(u.p(x)))
    u.cells("component number of the own voxel", "graph", lambda x: fg(u.p(x)))


class Plotted:
    """mesh with a variable which is defined in some cells, and the settings of a plot"""

    def __init__(self, v, vector=False):
        self.v = v
        self.n = v.int("n", lo=0)
        self.has = v.fun("defined", 1, "bool")
        self.val = {s: v.fun("X_" + s, 2 if vector and s != "norm" else 1, "real") for s in ("re", "im", "norm")}

        def arr(s):
            f = self.val[s]
            if vector and s != "norm":
                return Arr((Range(self.n), Range(3)), lambda i, k: s_ite(self.has(i), f(i, k), NaN()), "float")
            return Arr((Range(self.n),), lambda i: s_ite(self.has(i), f(i), NaN()), "float")
        self.data = {"X_" + s: arr(s) for s in ("re", "im", "norm")}
        self.obj = Mesh(self.n, None, self.data)
        self.scale, self.phase, self.thr = v.real("scale"), v.real("phase"), v.real("threshold")
        self.flt, self.clm = self.limits("filter"), self.limits("clamp")
        self.plot = PDict({"var": "X", "scale": self.scale, "phase": self.phase, "filter_lim": self.flt,
                           "clamp_lim": self.clm, "arrow_threshold": self.thr})

    def limits(self, name):
        v = self.v
        if v.branch(v.bool(name + "_limits"), "with %s limits" % name):
            lo, hi = v.real(name + "_min"), v.real(name + "_max")
            v.assume(s_cmp("<=", lo, hi))
            return (lo, hi)
        return None

    def inside(self, x):
        """the value is inside of the filter limits"""
        return True if self.flt is None else b_and(s_cmp("<=", self.flt[0], x), s_cmp("<=", x, self.flt[1]))

    def result(self, r, names, kept, value):
        """the cells which are kept, and their values"""
        v = self.v
        v.prove("no error", v.raised is None)
        if v.raised:
            return None
        v.prove("the mesh of the solution is not changed", set(self.obj.data) == {"X_re", "X_im", "X_norm"} and all(self.obj.data[k] is self.data[k] for k in self.data))
        v.prove("another mesh is returned", isinstance(r, Mesh) and r is not self.obj and all(k in r.data for k in names))
        if not isinstance(r, Mesh) or any(k not in r.data for k in names):
            return None
        a = r.data["norm"]
        ax = a.axes[0]
        for i in v.each(Range(self.n)):
            v.prove("exactly the cells inside of the limits are kept", zbool(A.in_axis(ax, i)) == zbool(kept(i)))
        for i in v.each(Range(self.n)):
            v.assume(A.in_axis(ax, i))
            y, x = a.fn(i), value(i)
            v.prove("the value is a number", b_not(nan_flag(y)))
            y = nan_value(y)
            lo, hi = self.clm or (x, x)
            v.prove("the value is bounded by the limits", True if self.clm is None else b_and(s_cmp("<=", lo, y), s_cmp("<=", y, hi)))
            v.prove("the scaled value of the cell inside of the limits", b_implies(b_and(s_cmp("<=", lo, x), s_cmp("<=", x, hi)), s_eq(y, x)))
            v.prove("the limit which is exceeded", b_and(b_implies(s_cmp("<", x, lo), s_eq(y, lo)), b_implies(s_cmp(">", x, hi), s_eq(y, hi))))
        return ax


@spec("manage_pyvista._get_norm", [PM + ":_get_norm", PM + ":_get_scale_norm", PM + ":_get_filter_norm", PM + ":_get_clamp_norm"])
def plot_norm(v):
    p = Plotted(v)
    r = v.call(PM, "_get_norm", p.obj, p.plot)
    x = lambda i: s_mul(p.scale, p.val["norm"](i))  # noqa
    p.result(r, ["norm"], lambda i: b_and(p.has(i), p.inside(x(i))), x)


@spec("manage_pyvista._get_phasor", [PM + ":_get_phasor", PM + ":_get_scale_norm", PM + ":_get_filter_norm", PM + ":_get_clamp_norm"])
def plot_phasor(v):
    p = Plotted(v)
    r = v.call(PM, "_get_phasor", p.obj, p.plot)

    def x(i):
        re = s_sub(s_mul(p.val["re"](i), s_cos(p.phase)), s_mul(p.val["im"](i), s_sin(p.phase)))
        return s_mul(p.scale, re)
    p.result(r, ["norm"], lambda i: b_and(p.has(i), p.inside(x(i))), x)


@spec("manage_pyvista._get_arrow", [PM + ":_get_arrow", PM + ":_get_filter_arrow", PM + ":_get_scale_norm", PM + ":_get_filter_norm", PM + ":_get_clamp_norm"])
def plot_arrow(v):
    p = Plotted(v, True)
    r = v.call(PM, "_get_arrow", p.obj, p.plot)

    def comp(i, k):
        return s_sub(s_mul(p.val["re"](i, k), s_cos(p.phase)), s_mul(p.val["im"](i, k), s_sin(p.phase)))

    def x(i):
        sq = 0
        for k in range(3):
            sq = s_add(sq, s_mul(comp(i, k), comp(i, k)))
        return s_mul(p.scale, s_sqrt(sq))

    def limits(i):
        return b_and(p.has(i), p.inside(x(i)))
    top = v.real("largest")
    some = A.exists(Range(p.n), limits)
    v.assume(A.forall(Range(p.n), lambda i: b_implies(limits(i), s_cmp("<=", x(i), top))))
    v.assume(b_implies(some, A.exists(Range(p.n), lambda i: b_and(limits(i), s_eq(x(i), top)))))
    ax = p.result(r, ["norm", "vector"], lambda i: b_and(limits(i), s_cmp(">", x(i), s_mul(top, p.thr))), x)
    if ax is None:
        return
    w = r.data["vector"]
    v.prove("direction per cell", b_and(w.ndim == 2, A.ax_same(w.axes[0], ax)))
    for i in v.each(Range(p.n)):
        v.assume(A.in_axis(ax, i))
        for k in range(3):
            v.prove("direction of the cell", s_eq(w.fn(i, k), comp(i, k)))


class Plotter:
    """plotter which records the objects which are shown"""
    __vc_methods__ = ("set_background", "add_mesh", "add_mesh_clip_plane", "add_text", "add_axes")

    def __init__(self):
        self.shown = []

    def set_background(self, *args, **kwargs):
        pass

    add_text = add_axes = set_background

    def add_mesh(self, obj, **kwargs):
        self.shown.append((obj, kwargs, False))

    def add_mesh_clip_plane(self, obj, **kwargs):
        self.shown.append((obj, kwargs, True))


class Shown:
    """object with a number of cells, its copies and its arrows"""
    __vc_methods__ = ("copy", "glyph")

    def __init__(self, v, name, root=None, n=None, how="copy"):
        self.v, self.name, self.how = v, name, how
        self.root = root or self
        self.n = v.int("n_" + name, lo=0) if n is None else n

    def vc_attr(self, name):
        if name == "n_cells":
            return self.n
        if name == "spacing":
            return self.spacing
        raise Unsupported("attribute %s of a mesh" % name)

    def copy(self, deep=True):
        return Shown(self.v, self.name, self.root, self.n)

    def glyph(self, orient=None, scale=None, factor=None):
        g = Shown(self.v, "arrows", None, None, "glyph")
        g.of, g.orient, g.scale, g.factor = self, orient, scale, factor
        return g


def settings(v, *names):
    return PDict({k: Opaque(k) for k in names})


def options(v):
    clip = settings(v, "clip_invert", "clip_axis", "clip_value")
    clip["clip_plot"] = v.branch(v.bool("clip"), "clipped")
    view = settings(v, *[a + b for a in ("grid", "geom", "point") for b in ("_color", "_opacity", "_thickness")] + ["point_size"])
    for k in ("grid_plot", "geom_plot", "point_plot"):
        view[k] = False
    for k in ("camera_roll", "camera_azimuth", "camera_elevation"):
        view[k] = None
    theme = settings(v, "background_color", "axis_size", "text_color", "title_font", "colorbar_plot", "colorbar_size", "colorbar_font")
    theme["axis_add"] = False
    return PDict({"plot_clip": clip, "plot_view": view, "plot_theme": theme}), clip["clip_plot"]


def payload(v, pl, exp, clip):
    """the plot shows exactly the given objects with the given values, and nothing if there are no cells"""
    v.prove("nothing else is shown", len(pl.shown) in (0, len(exp)))
    if len(pl.shown) not in (0, len(exp)):
        return False
    if not pl.shown:
        v.prove("an object with cells is shown", s_eq(exp[0][0].n, 0))
        return False
    for (obj, arg, clipped), (root, scalars) in zip(pl.shown, exp):
        v.prove("the values which are shown", arg.get("scalars") == scalars)
        v.prove("the object is clipped if requested", clipped is clip)
        if root is not None and not (isinstance(obj, Shown) and obj.how == "glyph"):
            v.prove("the object which is shown", isinstance(obj, Shown) and obj.root is root)
    return True


def plot_viewer(layout):
    def run(v):
        grid, voxel, point, ref = (Shown(v, k) for k in ("grid", "voxel", "point", "reference"))
        opt, clip = options(v)
        plot = settings(v, "colormap", "opacity", "title", "color_voxel", "color_reference", "opacity_voxel", "opacity_reference")
        pl = Plotter()
        v.call(PM, "get_plot_viewer", pl, grid, voxel, point, ref, layout, plot, opt)
        v.prove("no error", v.raised is None)
        if v.raised:
            return
        if layout == "mesh":
            payload(v, pl, [(voxel, None), (ref, None)], clip)
        else:
            payload(v, pl, [(voxel, layout)], clip)
    spec("manage_pyvista.get_plot_viewer[%s]" % layout, [PM + ":get_plot_viewer", PM + ":_plot_geometry", PM + ":_plot_mesh", PM + ":_get_clip_mesh"])(run)


for _x in ("domain", "graph", "mesh"):
    plot_viewer(_x)


def plot_plotter(layout):
    kind = layout.split("_")[0]

    def run(v):
        grid, voxel, point = (Shown(v, k) for k in ("grid", "voxel", "point"))
        grid.spacing = tuple(v.real("d" + k, gt=0) for k in "xyz")
        opt, clip = options(v)
        scale = v.real("arrow_scale")
        plot = settings(v, "var", "log", "color_lim", "point_size", "legend", "title", "color_electric", "color_magnetic",
                        "color_electromagnetic", "color_current_source", "color_voltage_source")
        plot["arrow_scale"] = scale
        made = []

        def prepare(which):
            def run(obj, data):
                if data is not plot:
                    raise Unsupported("other settings")
                made.append((which, obj, Shown(v, "prepared")))
                return made[-1][2]
            return run
        for k in ("norm", "phasor", "arrow"):
            v.override(PM + ":_get_" + k, prepare(k))
        pl = Plotter()
        v.call(PM, "get_plot_plotter", pl, grid, voxel, point, layout, plot, opt)
        v.prove("no error", v.raised is None)
        if v.raised:
            return
        if kind == "material":
            payload(v, pl, [(voxel, "material")], clip)
            return
        src = voxel if layout.endswith("voxel") else point
        v.prove("the variable of the requested object is prepared", len(made) == 1 and made[0][0] == kind and made[0][1].root is src)
        if len(made) != 1:
            return
        obj = made[0][2]
        if not payload(v, pl, [(obj, "norm")], clip):
            return
        g = pl.shown[0][0]
        if kind == "arrow":
            ok = g.how == "glyph" and g.of.root is obj
            v.prove("arrows in the cells which were prepared", ok)
            if ok:
                v.prove("arrows in the direction of the vector, with the same length", g.orient == "vector" and g.scale is False)
        else:
            v.prove("the cells which were prepared", g.root is obj)
    spec("manage_pyvista.get_plot_plotter[%s]" % layout, [PM + ":get_plot_plotter", PM + ":_plot_scalar", PM + ":_plot_arrow", PM + ":_plot_material", PM + ":_get_clip_mesh"])(run)


for _x in ("material", "norm_voxel", "phasor_voxel", "arrow_voxel", "norm_point", "phasor_point", "arrow_point"):
    plot_plotter(_x)


class Grid:
    """uniform grid of PyVista"""

    def __init__(self, *args, **kwargs):
        if args or set(kwargs) - {"origin", "dimensions", "spacing"}:
            raise Unsupported("uniform grid")
        self.attrs = dict(kwargs)

    def vc_setattr(self, name, val):
        self.attrs[name] = val

    def vc_attr(self, name):
        return self.attrs[name]


@spec("parse_voxel.get_grid", [PV + ":get_grid"])
def uniform(v):
    n, d, c = grid(v), size(v), point(v)
    v.override("pyvista.ImageData", Grid)
    r = v.call(PV, "get_grid", n, d, c)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("a uniform grid is returned", isinstance(r, Grid) and set(r.attrs) == {"origin", "dimensions", "spacing"})
    if not isinstance(r, Grid):
        return
    a = {k: A.as_arr(x) for k, x in r.attrs.items()}
    t = v.int("t", lo=0)
    for k in range(3):
        v.prove("one cell per voxel along the axis", s_eq(s_sub(a["dimensions"].fn(k), 1), n[k]))
        # cell t spans origin + t*spacing ... origin + (t+1)*spacing
        mid = s_add(a["origin"].fn(k), s_mul(s_div(s_add(s_mul(2, t), 1), 2), a["spacing"].fn(k)))
        pos = s_add(c[k], s_mul(s_div(s_sub(s_add(s_mul(2, t), 1), n[k]), 2), d[k]))
        v.prove("the cell is centred at the voxel", s_eq(mid, pos))
        v.prove("the cell has the size of the voxel", s_eq(a["spacing"].fn(k), d[k]))


def points(v):
    for name in ("pyvista.PolyData",):
        made = []
        v.override(name, lambda *args: made.append(args) or Opaque("polydata"))
    return made


@spec("parse_voxel.get_point", [PV + ":get_point"])
def cloud_points(v):
    made = points(v)
    pts = Opaque("pts_cloud")
    r = v.call(PV, "get_point", pts)
    v.prove("no error", v.raised is None)
    v.prove("the cloud points are shown", len(made) == 1 and len(made[0]) == 1 and made[0][0] is pts)


@spec("parse_voxel.get_reference", [PV + ":get_reference"])
def reference(v):
    made = points(v)
    a, b, vox = Opaque("points"), Opaque("faces"), Opaque("voxel")
    given = v.branch(v.bool("given"), "with a reference")
    r = v.call(PV, "get_reference", PDict({"points": a, "faces": b}) if given else None, vox)
    v.prove("no error", v.raised is None)
    if given:
        v.prove("the surface of the reference", len(made) == 1 and len(made[0]) == 2 and made[0][0] is a and made[0][1] is b)
    else:
        v.prove("the voxels without a reference", r is vox)


RV, RP = "pypeec.run.viewer", "pypeec.run.plotter"


def objects(v, n, d, c, pts, idx, grid, voxel, point):
    def get_grid(*args):
        if args != (n, d, c):
            raise Unsupported("another grid")
        return grid

    def get_voxel(g, i):
        if g is not grid or i is not idx:
            raise Unsupported("other voxels")
        return voxel

    def get_point(p):
        if p is not pts:
            raise Unsupported("other points")
        return point
    v.override(PV + ":get_grid", get_grid)
    v.override(PV + ":get_voxel", get_voxel)
    v.override(PV + ":get_point", get_point)


@spec("viewer._get_grid_voxel", [RV + ":_get_grid_voxel"])
def viewer_objects(v):
    k = ("n", "d", "c", "domain_def", "graph_def", "pts_cloud", "reference")
    data = settings(v, *k)
    idx, grid, voxel, point, ref, out = (Opaque(x) for x in ("idx", "grid", "voxel", "point", "reference", "data"))
    objects(v, data["n"], data["d"], data["c"], data["pts_cloud"], idx, grid, voxel, point)
    v.override(VI + ":get_voxel", lambda dom: idx if dom is data["domain_def"] else None)
    v.override(PV + ":get_reference", lambda r, x: ref if r is data["reference"] and x is voxel else None)
    seen = []
    v.override(VI + ":set_data", lambda *args: seen.append(args) or out)
    r = v.call(RV, "_get_grid_voxel", data)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("the tags of the geometry are set once", len(seen) == 1 and all(x is y for x, y in zip(seen[0], (voxel, idx, data["domain_def"], data["graph_def"]))))
    v.prove("the objects of the geometry", len(r) == 4 and all(x is y for x, y in zip(r, (grid, out, point, ref))))


CATS = {"scalar_electric": ("set_voxel_scalar", "idx_vc"), "scalar_magnetic": ("set_voxel_scalar", "idx_vm"),
        "vector_electric": ("set_voxel_vector", "idx_vc"), "vector_magnetic": ("set_voxel_vector", "idx_vm"), "cloud": ("set_point_cloud", None)}


def plotter_objects(cat):
    def run(v):
        k = ("n", "d", "c", "idx_vc", "idx_vm", "idx_src_c", "idx_src_v", "pts_cloud")
        data = settings(v, *k)
        idx, grid, voxel, point, res, conv = (Opaque(x) for x in ("idx", "grid", "voxel", "point", "res", "conv"))
        objects(v, data["n"], data["d"], data["c"], data["pts_cloud"], idx, grid, voxel, point)
        v.override(PP + ":get_voxel", lambda a, b: idx if (a is data["idx_vc"] and b is data["idx_vm"]) or (a is data["idx_vm"] and b is data["idx_vc"]) else None)
        mat, seen = [], []

        def material(*args):
            mat.append(args)
            return args[0]
        v.override(PP + ":set_voxel_material", material)

        def setter(name):
            def run(*args):
                seen.append((name, args))
                return args[0]
            return run
        for name in ("set_voxel_scalar", "set_voxel_vector", "set_point_cloud"):
            v.override(PP + ":" + name, setter(name))
        num = v.int("n_var", lo=1)
        key, val = v.fun("key_var", 1), v.fun("var", 1, "real")
        ax = Range(num)
        v.assume(A.forall([ax, ax], lambda i, j: b_implies(s_eq(key(i), key(j)), s_eq(i, j))))
        var = SDict(ax, lambda i: SymStr(key(i)), lambda i: PDict({"var": val(i), "cat": cat}), "var")
        r = v.call(RP, "_get_grid_voxel", data, PDict({"var": var, "res": res, "conv": conv}))
        v.prove("no error", v.raised is None)
        if v.raised:
            return
        ok = len(mat) == 1 and len(mat[0]) == 6 and all(x is y for x, y in zip(mat[0], (voxel, idx, data["idx_vc"], data["idx_vm"], data["idx_src_c"], data["idx_src_v"])))
        v.prove("the materials and sources are set", ok)
        fn, own = CATS[cat]
        obj = voxel if own else point
        v.prove("every variable is set once, with its kind", len(seen) == 1 and seen[0][0] == fn)
        if len(seen) != 1 or seen[0][0] != fn:
            return
        args = list(seen[0][1])
        o = args.pop(0)
        while hasattr(o, "init"):
            o = o.init
        v.prove("the values are set in the object of the variable", o is obj)
        if own:
            v.prove("the voxels of the variable", args[0] is idx and args[1] is data[own])
            args = args[2:]
        x, name = args
        v.prove("the value and the name of the variable", is_z3(x) and x.num_args() == 1 and x.eq(val(x.arg(0))) and str_term(name).eq(key(x.arg(0))))
        v.prove("the objects of the solution", len(r) == 5 and all(x is y for x, y in zip(r, (grid, voxel, point, res, conv))))
    spec("plotter._get_grid_voxel[%s]" % cat, [RP + ":_get_grid_voxel"])(run)


for _x in CATS:
    plotter_objects(_x)
