"""Shape and STL grids fit the bounding box and hold well-formed domains."""
from contracts.common import *  # noqa
from vc import loops

MS = "pypeec.lib_mesher.mesher_shape"
MT = "pypeec.lib_mesher.mesher_stl"
ASSUMED = ["rasterio: rasterize marks the pixels whose centre (of the given transform, rows from north to south) is inside of the object",
           "shapely: a union holds the points of any of the objects, a difference those of the first which are not in the second, the bounds are those of the points",
           "the rounding of the coordinates (construction grid, simplification) stays at the boundaries"]


def box(v, clause, r, d, lo, hi):
    """the grid spans the box, with the nearest number of voxels of the requested size"""
    ratio = [s_div(s_sub(hi[k], lo[k]), d[k]) for k in range(3)]
    if v.raised:
        v.prove("a box is rejected only if an axis has no voxel", b_or(*[s_cmp("<=", s_mul(2, x), 1) for x in ratio]))
        return
    v.prove("a box without a voxel along an axis is rejected", b_and(*[s_cmp(">=", s_mul(2, x), 1) for x in ratio]))
    n, dv, c = (A.as_arr(x) for x in r)
    v.prove("three axes", b_and(*[b_and(x.ndim == 1, s_eq(A.ax_len(x.axes[0]), 3)) for x in (n, dv, c)]))
    v.prove("the numbers of voxels are integers", n.kind == "int")
    for k in range(3):
        m, s = n.fn(k), dv.fn(k)
        v.prove("at least one voxel along the axis", s_cmp(">=", m, 1))
        v.prove("the number of voxels is the nearest integer", b_and(s_cmp("<=", s_mul(2, s_sub(m, ratio[k])), 1), s_cmp("<=", s_mul(2, s_sub(ratio[k], m)), 1)))
        v.prove("the voxels have a positive size", s_cmp(">", s, 0))
        v.prove("the voxels span the box", s_eq(s_mul(m, s), s_sub(hi[k], lo[k])))
        v.prove("the centre is the middle of the box", s_eq(s_mul(2, c.fn(k)), s_add(lo[k], hi[k])))


def corner(v, name, n=3):
    return tuple(v.real(name + x) for x in "xyz"[:n])


def vec(x):
    return Arr((Range(len(x)),), lambda k: pick_scalar(x, k), "float")


def pick_scalar(x, k):
    if isinstance(k, int):
        return x[k]
    r = x[-1]
    for q in range(len(x) - 2, -1, -1):
        r = s_ite(s_eq(k, q), x[q], r)
    return r


@spec("mesher_stl._get_voxel_size", [MT + ":_get_voxel_size"])
def size_stl(v):
    d, lo, hi = size(v), corner(v, "min_"), corner(v, "max_")
    r = v.call(MT, "_get_voxel_size", PList(d), vec(hi), vec(lo))
    box(v, "", r, d, lo, hi)


@spec("mesher_shape._get_voxel_size", [MS + ":_get_voxel_size"])
def size_shape(v):
    d, lo, hi = size(v), corner(v, "min_", 2), corner(v, "max_", 2)
    m = v.int("n_pos", lo=1)
    pos = v.array("stack_pos", m, "float")
    f = pos.fn
    v.assume(A.forall([Range(m), Range(m)], lambda i, j: b_implies(s_cmp("<=", i, j), s_cmp("<=", f(i), f(j)))))
    r = v.call(MS, "_get_voxel_size", *d, pos, vec(hi), vec(lo))
    box(v, "", r, d, lo + (f(0),), hi + (f(s_sub(m, 1)),))


@spec("mesher_shape._get_idx_voxel", [MS + ":_get_idx_voxel"])
def idx_voxel(v):
    n = grid(v)
    m, k = v.int("n_shape", lo=0), v.int("n_layer", lo=0)
    shape, layer = v.array("idx_shape", m, "int"), v.array("stack_idx", k, "int")
    f, g = shape.fn, layer.fn
    r = v.call(MS, "_get_idx_voxel", n, shape, layer)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    x = v.int("x")
    exp = A.exists([Range(k), Range(m)], lambda a, b: s_eq(x, s_add(s_mul(s_mul(g(a), n[0]), n[1]), f(b))))
    v.prove("exactly the voxels of the image in the given layers", zbool(A.mem(r, x)) == zbool(exp))


def inside_of(v):
    """a shape is a set of points"""
    R_ = z3.RealSort()
    f = z3.Function(v.c.fresh_name("inside"), z3.IntSort(), R_, R_, z3.BoolSort())
    return lambda s, x, y: f(zint(s), zreal(x), zreal(y))


class Bounds:
    def __init__(self, west, south, east, north, width, height):
        self.west, self.south, self.east, self.north, self.width, self.height = west, south, east, north, width, height

    def point(self, row, col):
        x = s_add(self.west, s_mul(s_div(s_add(s_mul(2, col), 1), 2), s_div(s_sub(self.east, self.west), self.width)))
        y = s_add(self.north, s_mul(s_div(s_add(s_mul(2, row), 1), 2), s_div(s_sub(self.south, self.north), self.height)))
        return x, y


@spec("mesher_shape._get_voxelize_shape", [MS + ":_get_voxelize_shape"])
def voxelize_shape(v):
    n = grid(v)
    lo, hi = corner(v, "min_"), corner(v, "max_")
    obj = Opaque("shape")
    inside = inside_of(v)

    def rasterize(shapes, out_shape=None, transform=None):
        if len(shapes) != 1 or shapes[0] is not obj or not isinstance(transform, Bounds):
            raise Unsupported("rasterization")
        h, w = out_shape
        v.prove("the pixels fill the image", b_and(s_eq(transform.width, w), s_eq(transform.height, h)))
        return Arr((Range(h), Range(w)), lambda a, b: s_ite(inside(0, *transform.point(a, b)), 1, 0), "int")
    v.override("rasterio.transform.from_bounds", Bounds)
    v.override("rasterio.features.rasterize", rasterize)
    r = v.call(MS, "_get_voxelize_shape", n, lo, hi, obj)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    i, j = v.int("i"), v.int("j")
    v.assume(b_and(s_cmp("<=", 0, i), s_cmp("<", i, n[0]), s_cmp("<=", 0, j), s_cmp("<", j, n[1])))

    def centre(k, t):
        return s_add(lo[k], s_mul(s_div(s_add(s_mul(2, t), 1), 2), s_div(s_sub(hi[k], lo[k]), n[k])))
    w = s_add(i, s_mul(n[0], j))
    v.prove("a voxel is part of the image exactly if its centre is inside of the shape", zbool(A.mem(r, w)) == zbool(inside(0, centre(0, i), centre(1, j))))
    x = v.int("x")
    v.prove("all voxels are inside of the image", b_implies(A.mem(r, x), b_and(s_cmp("<=", 0, x), s_cmp("<", x, s_mul(n[0], n[1])))))


class Shape:
    """shape or mesh, known by a number"""

    def __init__(self, t, **attrs):
        self.t, self.attrs = t, attrs

    def vc_attr(self, name):
        if name not in self.attrs:
            raise Unsupported("attribute %s of a shape" % name)
        return self.attrs[name](self.t)

    def vc_subst(self, f):
        return Shape(f(self.t), **self.attrs)


class Points:
    """shape given by its points"""

    def __init__(self, has):
        self.has = has


@spec("mesher_shape._get_shape_assemble", [MS + ":_get_shape_assemble"])
def assemble(v):
    inside = inside_of(v)
    num = v.int("n_shape", lo=0)
    kind, op, nl, layer = v.fun("type", 1), v.fun("operation", 1), v.fun("n_layer", 1), v.fun("shape_layer", 2)
    made = v.fun("shape", 2)
    tag = v.int("tag")
    ADD, SUB = (str_term(k) for k in ("add", "sub"))
    ax = Range(num)
    v.assume(A.forall(ax, lambda i: b_or(s_eq(op(i), ADD), s_eq(op(i), SUB))))

    def single(t, data):
        return Shape(made(str_term(t), data))

    def union(shapes, **kwargs):
        sl = shapes if isinstance(shapes, SList) else None
        if sl is None:
            return Points(lambda x, y: b_or(*[inside(s.t, x, y) for s in shapes]))
        return Points(lambda x, y: A.exists(sl.axis, lambda i: inside(sl.elem(i).t, x, y)))

    def minus(a, b, **kwargs):
        return Points(lambda x, y: b_and(a.has(x, y), b_not(b.has(x, y))))
    v.override(MS + ":_get_shape_single", single)
    v.override("shapely.unary_union", union)
    v.override("shapely.difference", minus)
    v.override("shapely.simplify", lambda a, *args, **kwargs: a)
    data = v.fun("data", 1)
    shapes = SList(ax, lambda i: PDict({"shape_layer": SList(Range(nl(i)), lambda j: SymStr(layer(i, j))), "shape_operation": SymStr(op(i)), "shape_type": SymStr(kind(i)), "shape_data": data(i)}))
    simplify = v.real("simplify") if v.branch(v.bool("simplified"), "simplified") else None
    r = v.call(MS, "_get_shape_assemble", shapes, SymStr(tag), simplify, v.real("construct"))
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    x, y = v.real("x"), v.real("y")

    def some(o):
        return A.exists(ax, lambda i: b_and(s_eq(op(i), o), A.exists(Range(nl(i)), lambda j: s_eq(layer(i, j), tag)), inside(made(kind(i), data(i)), x, y)))
    v.prove("a shape is returned", isinstance(r, Points))
    if isinstance(r, Points):
        v.prove("the points of an added shape of the layer which are not in a removed shape of the layer", zbool(r.has(x, y)) == zbool(b_and(some(ADD), b_not(some(SUB)))))


@spec("mesher_shape._get_shape_layer", [MS + ":_get_shape_layer"])
def shape_layer(v):
    n = v.int("n_layer", lo=0)
    tag = v.fun("tag", 1)
    valid, empty, made = v.fun("valid", 1, "bool"), v.fun("empty", 1, "bool"), v.fun("assembled", 1)
    geom, simplify, construct = (Opaque(k) for k in ("shapes", "simplify", "construct"))

    def get(g, t, s, c):
        if g is not geom or s is not simplify or c is not construct:
            raise Unsupported("other shapes")
        return Shape(made(str_term(t)), is_valid=valid, is_empty=empty)
    v.override(MS + ":_get_shape_assemble", get)
    r = v.call(MS, "_get_shape_layer", geom, SList(Range(n), lambda i: SymStr(tag(i))), simplify, construct)
    ok = A.forall(Range(n), lambda i: valid(made(tag(i))))
    if v.raised:
        v.prove("only an invalid shape is rejected", b_not(ok))
        return
    v.prove("an invalid shape is rejected", ok)
    names, objs = r
    v.prove("lists are returned", isinstance(names, SList) and isinstance(objs, SList) and A.ax_same(names.axis, objs.axis))
    for i in v.each(Range(n)):
        v.prove("exactly the layers which are not empty", zbool(A.in_axis(names.axis, i)) == zbool(b_not(empty(made(tag(i))))))
    for i in v.each(names.axis):
        v.prove("the layer and its shape", b_and(s_eq(str_term(names.elem(i)), tag(i)), s_eq(objs.elem(i).t, made(tag(i)))))


class Log:
    """list which is filled in a loop"""
    __vc_methods__ = ("append",)

    def __init__(self):
        self.items = []

    def append(self, x):
        self.items.append(x)


@spec("mesher_shape._get_layer_stack", [MS + ":_get_layer_stack"])
def layer_stack(v):
    n = v.int("n_entry", lo=1)
    num, tag = v.fun("n_layer", 1), v.fun("tag", 1)
    ax = Range(n)
    v.assume(A.forall(ax, lambda i: s_cmp(">=", num(i), 1)))
    dz, given = v.real("dz", gt=0), v.branch(v.bool("centre"), "with a centre")
    cz = v.real("cz") if given else None

    def below(k):
        return A.sum_over([Range(k)], lambda j: num(j))
    end = {}

    def handler(ip, st, seq, fr):
        if not A.ax_same(seq.axis, ax) or end:
            return False
        lists = {k for k, x in fr.env.items() if isinstance(x, list) and not x and k in ("stack_n", "stack_idx", "stack_tag")}
        if lists != {"stack_n", "stack_idx", "stack_tag"}:
            raise Unsupported("lists of the layers")

        def before(k):
            fr.env["stack_n"] = SList(Range(k), lambda j: num(j))
            fr.env["stack_idx"], fr.env["stack_tag"] = Log(), Log()

        def check(k):
            m, a, b = (fr.env[x] for x in ("stack_n", "stack_idx", "stack_tag"))
            v.prove("one more number of layers", b_and(s_eq(A.ax_len(m.axis), s_add(k, 1)), A.forall(Range(s_add(k, 1)), lambda j: s_eq(m.elem(j), num(j)))))
            v.prove("one entry is added", isinstance(a, Log) and isinstance(b, Log) and len(a.items) == 1 and len(b.items) == 1)
            v.prove("the name of the entry", s_eq(str_term(b.items[0]), tag(k)))
            v.equal_arr("the layers of the entry follow those of the entries below", a.items[0], [Range(num(k))], lambda j: s_add(below(k), j))
            v.prove("integer layers", a.items[0].kind == "int")
        loops.by_invariant(ip, st, seq, fr, lists, before, check)
        end["done"] = True
        fr.env["stack_n"] = SList(ax, lambda j: num(j))
        fr.env["stack_tag"] = SList(ax, lambda j: SymStr(tag(j)))
        fr.env["stack_idx"] = SList(ax, lambda k: Arr((Range(num(k)),), lambda j: s_add(below(k), j), "int"))
        end["idx"], end["tag"] = fr.env["stack_idx"], fr.env["stack_tag"]
        return True
    v.loop(MS + ":_get_layer_stack", handler)
    r = v.call(MS, "_get_layer_stack", SList(ax, lambda i: PDict({"n_layer": num(i), "tag_layer": SymStr(tag(i))})), dz, cz)
    unique = A.forall([ax, ax], lambda i, j: b_implies(s_eq(tag(i), tag(j)), s_eq(i, j)))
    if v.raised:
        v.prove("only repeated names are rejected", b_not(unique))
        return
    v.prove("repeated names are rejected", unique)
    pos, idx, names = r
    v.prove("the layers and names of the entries", idx is end["idx"] and names is end["tag"])
    v.prove("one position per boundary", b_and(pos.ndim == 1, s_eq(A.ax_len(pos.axes[0]), s_add(n, 1))))
    mid = s_div(below(n), 2)
    for u in v.each(pos.axes[0]):
        exp = s_mul(s_sub(below(A.index_to_pos(pos.axes[0], u)), mid), dz)
        v.prove("the boundaries of the layers, around the centre", s_eq(pos.fn(u), s_add(exp, cz) if given else exp))


def filled(v, fct, mod, call, voxels, wrap):
    """the voxels of the objects are collected per domain: sorted and distinct"""
    dom = Domains(v)
    m = v.int("n_obj", lo=0)
    tag, pos = v.fun("tag_obj", 1), v.fun("pos_obj", 1)
    objs = Range(m)
    v.assume(A.forall(objs, lambda k: A.exists(dom.axis, lambda i: s_eq(dom.key(i), tag(k)))))
    # ghost state: voxels of the domain i after the first k objects
    has, ln, el = v.fun("in_domain", 3, "bool"), v.fun("len_domain", 2), v.fun("idx_domain", 3)
    vox, vlen, vel = v.fun("in_object", 2, "bool"), v.fun("len_object", 1), v.fun("idx_object", 2)
    v.assume(A.forall(objs, lambda k: s_cmp(">=", vlen(k), 0)))
    x = v.c.ivar("x")
    i, k = v.c.ivar("i"), v.c.ivar("k")
    v.assume(z3.ForAll([i, x], z3.Not(has(0, i, x)), patterns=[has(0, i, x)]))
    step = z3.Or(has(k, i, x), z3.And(tag(k) == dom.key(i), vox(k, x)))
    v.assume(z3.ForAll([k, i, x], z3.Implies(zbool(A.in_axis(objs, k)), has(k + 1, i, x) == step), patterns=[has(k + 1, i, x)]))

    def contents(k):
        def val(i):
            v.c.assume(s_cmp(">=", ln(k, i), 0))
            return Arr((Range(ln(k, i)),), lambda j: el(k, i, j), "int", lambda x: has(k, i, x))
        return val
    voxels(lambda k: Arr((Range(vlen(k)),), lambda j: vel(k, j), "int", lambda x: vox(k, x)))
    seq0 = SList(objs, lambda k: wrap(k, SymStr(tag(k)), pos(k)))
    end = {}

    def put(d, k):
        d.val, d.cur, d.birth = contents(k), None, next(v.c.epoch)

    def handler(ip, st, seq, fr):
        if not A.ax_same(seq.axis, objs) or end:
            return False
        ds = [(nm, d) for nm, d in fr.env.items() if isinstance(d, SDict) and d is not dom.dict]
        if len(ds) != 1:
            raise Unsupported("mapping of the domains")
        name, d = ds[0]
        v.prove("one entry per domain", A.ax_same(d.axis, dom.axis) and not d.extra)
        for i in v.each(dom.axis):
            v.prove("the domains are empty at the start", b_and(s_eq(str_term(d.key(i)), dom.key(i)), s_eq(A.ax_len(A.as_arr(d.val(i)).axes[0]), 0)))

        def check(k):
            i, x = v.c.ivar("i"), v.c.ivar("x")
            with scope():
                A.assume_in(dom.axis, i)
                new = d.val(i)
                v.prove("the voxels of the object are added to its domain", zbool(A.mem(new, x)) == zbool(has(s_add(k, 1), i, x)))
                v.prove("integer indices", new.kind == "int")
        loops.by_invariant(ip, st, seq, fr, {name}, lambda k: put(d, k), check)
        put(d, m)
        end["d"] = d
        return True
    v.loop(mod + ":" + fct, handler)
    r = call(dom, seq0)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("the objects are collected", "d" in end and isinstance(r, SDict) and A.ax_same(r.axis, dom.axis) and not r.extra)
    i, x, k = v.c.ivar("i"), v.c.ivar("x"), v.c.ivar("k")

    def found(k):
        return A.exists(Range(k), lambda e: b_and(s_eq(tag(e), dom.key(i)), vox(e, x)))
    with scope():
        A.assume_in(dom.axis, i)
        a = r.val(i)
        v.prove("names in order", s_eq(str_term(r.key(i)), dom.key(i)))
        v.prove("integer indices", a.kind == "int")
        v.induction("the voxels of the objects of the domain", s_add(m, 1), lambda k: zbool(has(k, i, x)) == zbool(found(k)), lambda k: (s_sub(k, 1), k))
        v.prove("exactly the voxels of the objects of the domain", zbool(A.mem(a, x)) == zbool(found(m)))
        ax = a.axes[0]
        v.prove("sorted distinct voxels", A.forall([ax, ax], lambda p, q: b_implies(s_cmp("<", p, q), s_cmp("<", a.fn(p), a.fn(q)))))


@spec("mesher_shape._get_domain_def", [MS + ":_get_domain_def"])
def domain_shape(v):
    n, d, c = grid(v), size(v), point(v)
    an = Arr((Range(3),), lambda k: pick_scalar(n, k), "int")
    ad, ac = vec(d), vec(c)
    ns = v.int("n_stack", lo=1)
    layer = v.fun("layers", 1, "real")
    arr = {}
    v.assume(True)

    def voxels(f):
        def image(size_, lo, hi, obj):
            v.prove("the image is found in the box of the grid", b_and(size_ is an, *[b_and(s_eq(A.as_arr(lo).fn(k), s_sub(c[k], s_div(s_mul(n[k], d[k]), 2))), s_eq(A.as_arr(hi).fn(k), s_add(c[k], s_div(s_mul(n[k], d[k]), 2)))) for k in range(3)]))
            return Shape(obj.t)

        def voxel(size_, img, layers):
            if not isinstance(img, Shape):
                raise Unsupported("another image")
            v.prove("the layers of the object", b_and(size_ is an, s_eq(layers, layer(arr["pos"](img.t)))))
            return f(img.t)
        v.override(MS + ":_get_voxelize_shape", image)
        v.override(MS + ":_get_idx_voxel", voxel)

    def wrap(k, tag, pos):
        arr["pos"] = lambda t: z3.substitute(pos, (k, t)) if is_z3(k) else pos
        v.c.assume(b_and(s_cmp("<=", 0, pos), s_cmp("<", pos, ns)))
        return PDict({"tag": tag, "idx": pos, "obj": Shape(k)})
    stack = SList(Range(ns), lambda i: layer(i))
    filled(v, "_get_domain_def", MS, lambda dom, objs: v.call(MS, "_get_domain_def", an, ad, ac, dom.dict, stack, objs), voxels, wrap)


@spec("mesher_stl._get_domain_def", [MT + ":_get_domain_def"])
def domain_stl(v):
    g = Opaque("grid")

    def voxels(f):
        def voxel(grid_, mesh):
            if grid_ is not g or not isinstance(mesh, Shape):
                raise Unsupported("another mesh")
            return f(mesh.t)
        v.override(MT + ":_get_voxelize_stl", voxel)
    filled(v, "_get_domain_def", MT, lambda dom, objs: v.call(MT, "_get_domain_def", g, dom.dict, objs), voxels, lambda k, tag, pos: PDict({"tag": tag, "mesh": Shape(k)}))


class Mask:
    """points of the grid which are inside of a surface"""
    __vc_methods__ = ("view", "astype")

    def __init__(self, arr):
        self.arr = arr

    def vc_item(self, ip, key):
        if key != "SelectedPoints":
            raise Unsupported("values of the selection")
        return self

    def view(self, kind):
        return self.arr

    astype = view

    def vc_array(self):
        return self.arr


class Corners:
    """grid of cells with corners"""
    __vc_methods__ = ("select_enclosed_points", "extract_points")

    def __init__(self, v):
        self.v = v
        self.np, self.n = v.int("n_point", lo=1), v.int("n_cell", lo=1)
        self.inside, self.corner = v.fun("enclosed", 1, "bool"), v.fun("corner", 2, "bool")
        self.closed = v.bool("closed")
        self.mesh = Opaque("mesh")

    def touches(self, w):
        return b_and(s_cmp("<=", 0, w), s_cmp("<", w, self.n), A.exists(Range(self.np), lambda p: b_and(self.inside(p), self.corner(w, p))))

    def select_enclosed_points(self, mesh, tolerance=None, check_surface=True, **kwargs):
        if mesh is not self.mesh or kwargs or not (isconst(tolerance) and tolerance == 0) or check_surface is not True:
            raise Unsupported("selection of points")
        if not self.v.c.truth(self.closed, "the surface is closed"):
            raise PyRaise(RuntimeError, "surface")
        return Mask(Arr((Range(self.np),), lambda p: self.inside(p), "bool"))

    def extract_points(self, mask):
        m = A.as_arr(mask)
        n = self.n
        if m.kind != "bool":
            raise Unsupported("selection of points")
        f = m.fn
        hit = lambda w: A.exists(m.axes[0], lambda p: b_and(f(p), self.corner(w, p)))  # noqa
        cells = Arr((A.Sub(Range(n), hit),), lambda w: w, "int", lambda w: b_and(s_cmp("<=", 0, w), s_cmp("<", w, n), hit(w)))
        return PDict({"idx": cells})


@spec("mesher_stl._get_voxelize_stl", [MT + ":_get_voxelize_stl"])
def voxelize_stl(v):
    g = Corners(v)
    r = v.call(MT, "_get_voxelize_stl", g, g.mesh)
    if v.raised:
        v.prove("only a surface which is not closed is rejected", b_not(g.closed))
        return
    v.prove("a surface which is not closed is rejected", g.closed)
    x = v.int("x")
    v.prove("exactly the voxels with a corner inside of the surface", zbool(A.mem(r, x)) == zbool(g.touches(x)))


class Image:
    """uniform grid of PyVista with values"""
    __vc_methods__ = ("cast_to_unstructured_grid",)

    def __init__(self):
        self.attrs, self.data, self.cast = {}, {}, False

    def vc_setattr(self, name, val):
        self.attrs[name] = val

    def vc_store(self, ip, key, val):
        self.data[key] = val

    def cast_to_unstructured_grid(self):
        self.cast = True
        return self


@spec("mesher_stl._get_voxel_grid", [MT + ":_get_voxel_grid"])
def voxel_grid(v):
    n, d, c = grid(v), size(v), point(v)
    v.override("pyvista.ImageData", Image)
    r = v.call(MT, "_get_voxel_grid", Arr((Range(3),), lambda k: pick_scalar(n, k), "int"), vec(d), vec(c))
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("a uniform grid with the numbers of the voxels", isinstance(r, Image) and r.cast and set(r.attrs) == {"origin", "dimensions", "spacing"} and set(r.data) == {"idx"})
    a = {k: A.as_arr(x) for k, x in r.attrs.items()}
    for k in range(3):
        v.prove("one cell per voxel along the axis", s_eq(s_sub(a["dimensions"].fn(k), 1), n[k]))
        v.prove("the cells have the size of the voxels", s_eq(a["spacing"].fn(k), d[k]))
        v.prove("the grid is centred", s_eq(s_add(a["origin"].fn(k), s_div(s_mul(n[k], d[k]), 2)), c[k]))
    v.equal_arr("the cells are numbered in order", r.data["idx"], [Range(s_mul(s_mul(n[0], n[1]), n[2]))], lambda i: i)


class Extent:
    """nested loops over objects with bounds: smallest and largest coordinates, list of the objects"""

    def __init__(self, v, mod, fct, na, fiber, bound, dims, record):
        self.v, self.na, self.fiber, self.bound, self.dims, self.record = v, na, fiber, bound, dims, record
        self.axis = A.Sigma(Range(na), lambda a: Range(fiber(a)))
        self.inf = v.real("infinity")
        v.override("numpy.inf", self.inf)
        for s in (0, 1):
            v.assume(A.forall(self.axis, lambda u: b_and(*[b_and(s_cmp("<", s_neg(self.inf), bound(u[0], u[1], k, s)), s_cmp("<", bound(u[0], u[1], k, s), self.inf)) for k in range(dims)])))
        self.depth, self.a, self.done = 0, None, False
        v.loop(mod + ":" + fct, self.handler)

    def before(self, a, b):
        """objects before the object b of the group a"""
        return lambda u: b_or(s_cmp("<", u[0], a), b_and(s_eq(u[0], a), s_cmp("<", u[1], b)))

    def holds(self, arr, s, a, b):
        """the coordinates of arr are the smallest (s = 0) or largest of the objects before (a, b)"""
        op, pre = ("<=", ">=")[s], self.before(a, b)
        start = self.inf if s == 0 else s_neg(self.inf)
        out = []
        for k in range(self.dims):
            x = arr(k)
            out.append(A.forall(self.axis, lambda u: b_implies(pre(u), s_cmp(op, x, self.bound(u[0], u[1], k, s)))))
            out.append(b_or(s_eq(x, start), A.exists(self.axis, lambda u: b_and(pre(u), s_eq(x, self.bound(u[0], u[1], k, s))))))
            out.append(b_implies(s_eq(x, start), b_not(A.exists(self.axis, pre))))
        return b_and(*out)

    def carried(self, fr):
        arrs, lists = {}, []
        for nm, x in fr.env.items():
            if isinstance(x, Arr) and x.ndim == 1 and x.kind == "float" and nm in self.names:
                arrs[nm] = self.names[nm]
            elif isinstance(x, (Log, list)) and not isinstance(x, tuple) and nm in self.names:
                lists.append(nm)
        return arrs, lists

    def put(self, fr, a, b):
        for nm, s in self.names.items():
            if s == "list":
                fr.env[nm] = Log()
                continue
            xs = [self.v.c.fresh(nm, "real") for _ in range(self.dims)]
            self.v.c.assume(self.holds(lambda k: xs[k], s, a, b))
            fr.env[nm] = vec(xs)

    def check(self, clause, fr, a, b):
        for nm, s in self.names.items():
            if s != "list":
                x = A.as_arr(fr.env[nm])
                self.v.prove(clause, b_and(x.ndim == 1, s_eq(A.ax_len(x.axes[0]), self.dims)))
                self.v.prove(clause, self.holds(lambda k: x.fn(k), s, a, b))

    def handler(self, ip, st, seq, fr):
        v = self.v
        if self.depth == 0:
            if self.done or not A.ax_same(seq.axis, Range(self.na)):
                return False
            self.names = {}
            for nm, x in fr.env.items():
                if isinstance(x, Arr):
                    self.names[nm] = 0 if x.fn(0).eq(zreal(self.inf)) else 1
                elif isinstance(x, list) and not x:
                    self.names[nm] = "list"
            self.check("the bounds at the start", fr, 0, 0)
            self.depth = 1
            try:
                def before(a):
                    self.a, self.inner = a, False
                    self.put(fr, a, 0)

                def check(a):
                    v.prove("the objects of the group are visited", self.inner)
                    self.check("the bounds of the groups so far", fr, s_add(a, 1), 0)
                loops.by_invariant(ip, st, seq, fr, set(self.names), before, check)
            finally:
                self.depth = 0
            self.put(fr, self.na, 0)
            for nm, s in self.names.items():
                if s == "list":
                    fr.env[nm] = SList(self.axis, lambda u, nm=nm: self.item(nm, u))
            self.done = True
            return True
        a = self.a

        def check(b):
            self.check("the bounds of the objects so far", fr, a, s_add(b, 1))
            for nm, s in self.names.items():
                if s == "list":
                    x = fr.env[nm].items
                    v.prove("every object is kept once", len(x) == 1)
                    if len(x) == 1:
                        v.prove("the object is kept", self.record(nm, x[0], a, b))
        if not A.ax_same(seq.axis, Range(self.fiber(a))):
            raise Unsupported("inner loop")
        loops.by_invariant(ip, st, seq, fr, set(self.names), lambda b: self.put(fr, a, b), check)
        self.put(fr, a, self.fiber(a))
        self.inner = True
        return True

    def item(self, nm, u):
        return Shape(("item", nm, u))

    def result(self, lo, hi):
        v = self.v
        v.prove("the bounds are those of all objects", self.holds(lambda k: A.as_arr(lo).fn(k), 0, self.na, 0))
        v.prove("the bounds are those of all objects", self.holds(lambda k: A.as_arr(hi).fn(k), 1, self.na, 0))


@spec("mesher_stl._get_mesh_stl", [MT + ":_get_mesh_stl"])
def mesh_stl(v):
    n = v.int("n_domain", lo=0)
    key, num, name = v.fun("key", 1), v.fun("n_file", 1), v.fun("file", 2)
    bnd = v.fun("bound", 4, "real")
    ax = Range(n)
    v.assume(A.forall([ax, ax], lambda i, j: b_implies(s_eq(key(i), key(j)), s_eq(i, j))))
    v.assume(A.forall(ax, lambda i: s_cmp(">=", num(i), 0)))
    mesh, scale, off = v.fun("mesh", 3), v.fun("scale", 2), v.fun("offset", 2)
    at = v.fun("bound_mesh", 3, "real")

    def bound(a, b, k, s):
        return at(mesh(scale(a, b), off(a, b), name(a, b)), k, s)

    def record(nm, x, a, b):
        m = mesh(scale(a, b), off(a, b), name(a, b))
        if isinstance(x, Shape):
            return s_eq(x.t, m)
        return b_and(set(x) == {"tag", "mesh"}, s_eq(str_term(x["tag"]), key(a)), s_eq(x["mesh"].t, m))
    ext = Extent(v, MT, "_get_mesh_stl", n, num, bound, 3, record)
    v.override(MT + ":_get_load_stl", lambda s, o, f: Shape(mesh(s, o, str_term(f)), bounds=lambda t: tuple(at(t, k, s) for k in range(3) for s in (0, 1))))
    dom = SDict(ax, lambda i: SymStr(key(i)), lambda i: SList(Range(num(i)), lambda j: PDict({"scale": scale(i, j), "offset": off(i, j), "filename": SymStr(name(i, j))})), "domain_stl")
    r = v.call(MT, "_get_mesh_stl", dom)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("the files are visited", ext.done and isinstance(r[0], SList) and r[0].axis is ext.axis)
    ext.result(r[2], r[3])


@spec("mesher_shape._get_shape_obj", [MS + ":_get_shape_obj"])
def shape_obj(v):
    n, nt = v.int("n_domain", lo=0), v.int("n_tag", lo=1)
    key, num, tag = v.fun("key", 1), v.fun("n_used", 1), v.fun("tag", 1)
    which, made = v.fun("layer", 2), v.fun("shape", 2)
    shapes = v.fun("shapes", 1)
    at = v.fun("bound_shape", 3, "real")
    ax, tags = Range(n), Range(nt)
    v.assume(A.forall([ax, ax], lambda i, j: b_implies(s_eq(key(i), key(j)), s_eq(i, j))))
    v.assume(A.forall([tags, tags], lambda i, j: b_implies(s_eq(tag(i), tag(j)), s_eq(i, j))))
    v.assume(A.forall(ax, lambda i: s_cmp(">=", num(i), 0)))
    v.assume(A.forall(A.Sigma(ax, lambda i: Range(num(i))), lambda u: b_and(s_cmp("<=", 0, which(u[0], u[1])), s_cmp("<", which(u[0], u[1]), nt))))
    back = v.fun("group", 1)
    v.assume(A.forall(ax, lambda i: s_eq(back(shapes(i)), i)))
    stack, simplify, construct = SList(tags, lambda i: SymStr(tag(i))), Opaque("simplify"), Opaque("construct")

    def layers(g, t, s, c):
        if t is not stack or s is not simplify or c is not construct:
            raise Unsupported("other layers")
        a = back(g)
        return (SList(Range(num(a)), lambda j: SymStr(tag(which(a, j)))),
                SList(Range(num(a)), lambda j: Shape(made(a, j), bounds=lambda t: (at(t, 0, 0), at(t, 1, 0), at(t, 0, 1), at(t, 1, 1)))))

    def record(nm, x, a, b):
        return b_and(set(x) == {"tag", "idx", "obj"}, s_eq(str_term(x["tag"]), key(a)), s_eq(x["idx"], which(a, b)), s_eq(x["obj"].t, made(a, b)))
    ext = Extent(v, MS, "_get_shape_obj", n, num, lambda a, b, k, s: at(made(a, b), k, s), 2, record)
    v.override(MS + ":_get_shape_layer", layers)
    r = v.call(MS, "_get_shape_obj", SDict(ax, lambda i: SymStr(key(i)), lambda i: shapes(i), "geometry"), stack, simplify, construct)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("the shapes are visited", ext.done and isinstance(r[0], SList) and r[0].axis is ext.axis)
    ext.result(r[1], r[2])


class Surface:
    """surface mesh with faces and points"""

    def __init__(self, faces, points):
        self.attrs = {"faces": faces, "points": points}

    def vc_attr(self, name):
        if name not in self.attrs:
            raise Unsupported("attribute %s of a mesh" % name)
        return self.attrs[name]


def mesher(v, mod, dims, call, objects, names):
    """get_mesh: the bounds of the user are used where given, those of the objects otherwise; the results are returned"""
    side = ("min", "max")
    own = [vec(corner(v, "obj_%s_" % s, dims)) for s in side]
    user = [corner(v, "user_%s_" % s, dims) for s in side]
    given = [v.branch(v.bool("given_" + s), "%s given" % s) for s in side]
    exp = [user[s] if given[s] else tuple(own[s].fn(k) for k in range(dims)) for s in (0, 1)]
    n, d, c = grid(v), size(v), point(v)
    arrs = (Arr((Range(3),), lambda k: pick_scalar(n, k), "int"), vec(d), vec(c))
    nf, npt = v.int("n_face", lo=0), v.int("n_point", lo=0)
    surface = Surface(v.array("faces", nf, "int"), v.array("points", (npt, 3), "float"))
    res = Opaque("domains")

    def bounds(lo, hi):
        for s, x in ((0, lo), (1, hi)):
            x = A.as_arr(x)
            for k in range(dims):
                v.prove("the bounds of the user where given, otherwise those of the objects", s_eq(x.fn(k), exp[s][k]))

    def same(a, b, c_=None):
        if a is not arrs[0] or b is not arrs[1] or (c_ is not None and c_ is not arrs[2]):
            raise Unsupported("other sizes")

    def keys(x):
        if x is names:
            return True
        if not isinstance(x, SDict) or not A.ax_same(x.axis, names.axis) or x.extra:
            raise Unsupported("names of the domains")
        return A.forall(x.axis, lambda i: s_eq(str_term(x.key(i)), str_term(names.key(i))))
    objects(own, bounds, arrs, same, keys, surface, res)
    params = {side[s]: (PList(list(user[s])) if given[s] else None) for s in (0, 1)}
    r = call(params)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    rn, rd, rc, rdom, ref = r
    for x, e in ((rn, n), (rd, d), (rc, c)):
        v.prove("the grid is returned as lists", isinstance(x, list) and len(x) == 3)
        for k in range(3):
            v.prove("the grid is returned", s_eq(x[k], e[k]))
    v.prove("the domains are returned", rdom is res)
    v.prove("the surface is returned", isinstance(ref, dict) and set(ref) == {"faces", "points"})
    v.equal_arr("the faces of the reference", ref["faces"], [Range(nf)], surface.attrs["faces"].fn)
    v.equal_arr("the points of the reference", ref["points"], [Range(npt), Range(3)], surface.attrs["points"].fn)


def some_domains(v):
    k, key = v.int("n_domain", lo=1), v.fun("key", 1)
    ax = Range(k)
    v.assume(A.forall([ax, ax], lambda i, j: b_implies(s_eq(key(i), key(j)), s_eq(i, j))))
    vals = v.fun("objects", 1)
    return SDict(ax, lambda i: SymStr(key(i)), lambda i: vals(i), "domains")


@spec("mesher_stl.get_mesh", [MT + ":get_mesh"])
def mesh_of_stl(v):
    names = some_domains(v)
    want = Opaque("size")

    def objects(own, bounds, arrs, same, keys, surface, res):
        objs, gr = Opaque("meshes"), Opaque("grid")

        def load(d):
            if d is not names:
                raise Unsupported("other files")
            return objs, surface, own[0], own[1]

        def sizes(d, hi, lo):
            if d is not want:
                raise Unsupported("another size")
            bounds(lo, hi)
            return arrs

        def cells(n, d, c):
            same(n, d, c)
            return gr

        def domains(g, d, o):
            if g is not gr or o is not objs:
                raise Unsupported("other meshes")
            v.prove("the domains of the files", keys(d))
            return res
        v.override(MT + ":_get_mesh_stl", load)
        v.override(MT + ":_get_voxel_size", sizes)
        v.override(MT + ":_get_voxel_grid", cells)
        v.override(MT + ":_get_domain_def", domains)
    mesher(v, MT, 3, lambda p: v.call(MT, "get_mesh", PDict({"d": want, "xyz_min": p["min"], "xyz_max": p["max"]}), names), objects, names)


@spec("mesher_shape.get_mesh", [MS + ":get_mesh"])
def mesh_of_shape(v):
    names = some_domains(v)
    dx, dy, dz, cz, simplify, construct, layers = (Opaque(k) for k in ("dx", "dy", "dz", "cz", "simplify", "construct", "layers"))

    def objects(own, bounds, arrs, same, keys, surface, res):
        objs, pos, idx, tags = (Opaque(k) for k in ("shapes", "positions", "indices", "tags"))

        def need(**pairs):
            for nm, (a, b) in pairs.items():
                if a is not b:
                    raise Unsupported("another %s" % nm)

        def stack(l, z, c):
            need(layers=(l, layers), dz=(z, dz), cz=(c, cz))
            return pos, idx, tags

        def shapes(g, t, s, c):
            need(shapes=(g, names), tags=(t, tags), simplify=(s, simplify), construct=(c, construct))
            return objs, own[0], own[1]

        def sizes(x, y, z, p, hi, lo):
            need(dx=(x, dx), dy=(y, dy), dz=(z, dz), positions=(p, pos))
            bounds(lo, hi)
            return arrs

        def domains(n, d, c, g, i, o):
            same(n, d, c)
            need(indices=(i, idx), shapes=(o, objs))
            v.prove("the domains of the shapes", keys(g))
            return res

        def merge(p, o):
            need(positions=(p, pos), shapes=(o, objs))
            return surface
        v.override(MS + ":_get_layer_stack", stack)
        v.override(MS + ":_get_shape_obj", shapes)
        v.override(MS + ":_get_voxel_size", sizes)
        v.override(MS + ":_get_domain_def", domains)
        v.override(MS + ":_get_merge_shape", merge)
    mesher(v, MS, 2, lambda p: v.call(MS, "get_mesh", PDict({"dx": dx, "dy": dy, "dz": dz, "cz": cz, "simplify": simplify, "construct": construct, "xy_min": p["min"], "xy_max": p["max"]}), layers, names), objects, names)


class Loaded:
    """mesh of a file: the operations which were applied"""
    __vc_methods__ = ("scale", "translate")

    def __init__(self, n):
        self.n, self.log = n, []

    def vc_attr(self, name):
        if name != "n_cells":
            raise Unsupported("attribute %s of a mesh" % name)
        return self.n

    def op(self, kind, x, inplace):
        if inplace is True:
            self.log.append((kind, x))
            return self
        r = Loaded(self.n)
        r.log = self.log + [(kind, x)]
        return r

    def scale(self, x, inplace=False):
        return self.op("scale", x, inplace)

    def translate(self, x, inplace=False):
        return self.op("translate", x, inplace)


@spec("mesher_stl._get_load_stl", [MT + ":_get_load_stl"])
def load_stl(v):
    good, cells = v.bool("readable"), v.int("n_cell", lo=0)
    scale, off = v.real("scale"), PList([v.real("o" + k) for k in "xyz"])
    name = SymStr(v.int("file"))

    def read(f, force_ext=None, **kwargs):
        if f is not name or force_ext != ".stl" or kwargs:
            raise Unsupported("read of a mesh")
        if not v.c.truth(good, "the file can be read"):
            raise PyRaise(ValueError, "file")
        return Loaded(cells)
    v.override("pyvista.read", read)
    r = v.call(MT, "_get_load_stl", scale, off, name)
    ok = b_and(good, s_cmp(">", cells, 0))
    if v.raised:
        v.prove("only a file without a mesh is rejected", b_not(ok))
        return
    v.prove("a file without a mesh is rejected", ok)
    v.prove("a mesh is returned", isinstance(r, Loaded))
    v.prove("the mesh is scaled, then moved", [k for k, _ in r.log] == ["scale", "translate"])
    v.prove("the scale and the offset", r.log[0][1] is scale and r.log[1][1] is off)


class Flat:
    """two-dimensional shape of shapely"""
    __vc_methods__ = ("buffer",)

    def __init__(self, kind, data, radius, valid):
        self.kind, self.data, self.radius, self.valid = kind, data, radius, valid

    def vc_attr(self, name):
        if name == "is_valid":
            return self.valid[self.radius is not None]
        raise Unsupported("attribute %s of a shape" % name)

    def buffer(self, r, cap_style="round", join_style="round", **kwargs):
        if kwargs or cap_style != "round" or join_style != "round" or self.radius is not None:
            raise Unsupported("buffer of a shape")
        return Flat(self.kind, self.data, r, self.valid)


@spec("mesher_shape._get_shape_single", [MS + ":_get_shape_single"])
def shape_single(v):
    coord, shell, holes = Opaque("coord"), Opaque("shell"), Opaque("holes")
    width, other = v.real("width", gt=0), v.real("buffer", gt=0)
    valid = {False: v.bool("valid"), True: v.bool("valid_buffer")}
    t = v.int("type")
    kinds = [str_term(k) for k in ("pad", "trace", "polygon")]
    which = next((k for k, s in zip(("pad", "trace", "polygon"), kinds) if v.branch(s_eq(t, s), k)), None)
    buffered = which != "polygon" or v.branch(v.bool("with_buffer"), "buffer")
    data = {"pad": {"diameter": width, "coord": coord}, "trace": {"width": width, "coord": coord},
            "polygon": {"buffer": other if buffered else None, "coord_shell": shell, "coord_holes": holes}, None: {}}[which]
    v.override("shapely.geometry.MultiPoint", lambda x: Flat("pad", (x,), None, valid))
    v.override("shapely.geometry.LineString", lambda x: Flat("trace", (x,), None, valid))
    v.override("shapely.geometry.Polygon", lambda x, holes=None: Flat("polygon", (x, holes), None, valid))
    r = v.call(MS, "_get_shape_single", SymStr(t), PDict(data))
    ok = b_and(which is not None, valid[buffered])
    if v.raised:
        v.prove("only an ill-formed shape is rejected", b_not(ok))
        return
    v.prove("an ill-formed shape is rejected", ok)
    v.prove("the kind of the shape", isinstance(r, Flat) and r.kind == which)
    v.prove("the coordinates of the shape", len(r.data) == (2 if which == "polygon" else 1) and all(a is b for a, b in zip(r.data, (shell, holes) if which == "polygon" else (coord,))))
    v.prove("the shape is extended only if requested", (r.radius is not None) == buffered)
    if buffered:
        v.prove("the shape is extended by half of the width, or by the buffer", s_eq(s_mul(2, r.radius), s_mul(2, other)) if which == "polygon" else s_eq(s_mul(2, r.radius), width))
