"""Removing unused voxels and resampling keep the geometry."""
from contracts.common import *  # noqa

M = "pypeec.lib_mesher.voxel_resampling"


def setup(v):
    n, d, c = grid(v), size(v), point(v)
    dom = Domains(v, hi=prod(n))
    return n, d, c, dom


def is_bound(v, clause, b, n, dom, k, sign):
    """b is the lowest (sign -1) or the highest (sign 1) coordinate of the used voxels"""
    v.prove(clause + ": attained", A.exists(dom.fiber(), lambda u: s_eq(coordinates(n, dom.idx(u[0], u[1]))[k], b)))
    for u in v.each(dom.fiber()):
        t = coordinates(n, dom.idx(u[0], u[1]))[k]
        v.prove(clause + ": bound", s_cmp("<=" if sign > 0 else ">=", t, b))


@spec("voxel_resampling._get_grid_bounds", [M + ":_get_grid_bounds", M + ":_get_original_grid"])
def bounds(v):
    n, d, c, dom = setup(v)
    r = v.call(M, "_get_grid_bounds", v.call(M, "_get_original_grid", PList(n)), dom.dict)
    empty = b_not(A.exists(dom.axis, lambda i: s_cmp(">", dom.len(i), 0)))
    if v.raised:
        v.prove("an error is raised only without any voxel", empty)
        return
    for k in range(3):
        is_bound(v, "lowest coordinate", r[0].at(k), n, dom, k, -1)
        is_bound(v, "highest coordinate", r[1].at(k), n, dom, k, 1)


def reduced(v, n, d, c, dom, r_n, r_c, r_dom, lo, hi):
    for k in range(3):
        v.prove("reduced: the grid is the bounding box of the used voxels", s_eq(r_n[k], s_add(s_sub(hi[k], lo[k]), 1)))
        # lower corner of the grid: centre minus half of the extent
        old = s_sub(c[k], s_div(s_mul(n[k], d[k]), 2))
        new = s_sub(r_c[k], s_div(s_mul(r_n[k], d[k]), 2))
        v.prove("reduced: the lower corner is the corner of the bounding box", s_eq(new, s_add(old, s_mul(lo[k], d[k]))))
    v.prove("reduced: number of domains", s_eq(A.ax_len(r_dom.axis), dom.n))
    for i in v.each(dom.axis):
        j = A.pos_to_index(r_dom.axis, i)
        v.prove("reduced: names in order", s_eq(str_term(r_dom.key(j)), dom.key(i)))
        a = r_dom.val(j)
        v.prove("reduced: integer indices", a.kind == "int")
        v.prove("reduced: number of voxels of a domain", s_eq(A.ax_len(a.axes[0]), dom.len(i)))
        for p in v.each(Range(dom.len(i))):
            t = coordinates(n, dom.idx(i, p))
            u = [s_sub(x, y) for x, y in zip(t, lo)]
            v.prove("reduced: voxels inside of the grid", inside(r_n, u))
            v.prove("reduced: every voxel keeps its place", s_eq(a.fn(A.pos_to_index(a.axes[0], p)), number(r_n, u)))


def box(v, n, dom):
    """the bounding box of the used voxels, named by its defining properties"""
    ext = []
    for k in range(3):
        for sg, nm in ((-1, "lo"), (1, "hi")):
            b = v.int(nm + "xyz"[k])
            ext.append(b)
            v.assume(A.exists(dom.fiber(), lambda u: s_eq(coordinates(n, dom.idx(u[0], u[1]))[k], b)))
            v.assume(A.forall(dom.fiber(), lambda u: s_cmp("<=" if sg > 0 else ">=", coordinates(n, dom.idx(u[0], u[1]))[k], b)))
    return ext[0::2], ext[1::2]


def triples(*xs):
    return [[A.getitem(x, k) if isinstance(x, Arr) else x[k] for k in range(3)] for x in xs]


@spec("voxel_resampling.get_resampling: reduction", [M + ":get_resampling", M + ":_get_reduce", M + ":_get_reduce_indices", M + ":_get_idx_reduce_tensor", M + ":_get_idx_linear"])
def reduction(v):
    n, d, c, dom = setup(v)
    opt = {"use_reduce": True, "use_resample": False, "resampling_factor": PList([1, 1, 1])}
    r = v.call(M, "get_resampling", PList(n), PList(d), PList(c), dom.dict, opt)
    if v.raised:
        v.prove("an error is raised only without any voxel", b_not(A.exists(dom.axis, lambda i: s_cmp(">", dom.len(i), 0))))
        return
    r_n, r_d, r_c, r_s, r_dom = r
    lo, hi = box(v, n, dom)
    r_n, r_d, r_c, r_s = triples(r_n, r_d, r_c, r_s)
    reduced(v, n, d, c, dom, r_n, r_c, r_dom, lo, hi)
    for k in range(3):
        v.prove("reduced: the voxel size is kept", s_eq(r_d[k], d[k]))
        v.prove("reduced: physical size is number times voxel size", s_eq(r_s[k], s_mul(r_n[k], d[k])))


@spec("voxel_resampling.get_resampling: resampling", [M + ":get_resampling", M + ":_get_resample", M + ":_get_update_indices", M + ":_get_update_size", M + ":_get_idx_resample_tensor", M + ":_get_resampled_grid", M + ":_get_idx_linear"])
def resampling(v):
    """the voxels after the reduction (if requested) are resampled"""
    n, d, c, dom = setup(v)
    f = tuple(v.int("r" + x, lo=1) for x in "xyz")
    use, red = v.bool("use_resample"), v.bool("use_reduce")
    opt = {"use_reduce": red, "use_resample": use, "resampling_factor": PList(f)}
    if v.branch(red, "reduction is requested"):
        # contract of the reduction: another grid with other domains
        n0, c0, dom0 = PList(grid(v)), PList(point(v)), Domains(v, "first", hi=v.int("nv"))

        def reduce(a, b, e, g):
            if a is not n0 or list(b) != list(d) or e is not c0 or g is not dom0.dict:
                raise Unsupported("unexpected use of the reduction")
            dom0.dict = None
            return PList(n), PList(c), dom.dict
        v.override(M + ":_get_reduce", reduce)
        r = v.call(M, "get_resampling", n0, PList(d), c0, dom0.dict, opt)
        if dom0.dict is not None:
            raise Unsupported("the reduction is not used")
    else:
        r = v.call(M, "get_resampling", PList(n), PList(d), PList(c), dom.dict, opt)
    v.prove("resampled: no error", v.raised is None)
    if v.raised:
        return
    r_n, r_d, r_c, r_s, r_dom = r
    r_n, r_d, r_c, r_s = triples(r_n, r_d, r_c, r_s)
    used = v.branch(use, "resampling is requested")
    for k in range(3):
        m = f[k] if used else 1
        v.prove("resampled: number of voxels", s_eq(r_n[k], s_mul(n[k], m)))
        v.prove("resampled: voxel size", s_eq(r_d[k], s_div(d[k], m)))
        v.prove("resampled: the centre is kept", s_eq(r_c[k], c[k]))
        v.prove("resampled: the physical size is kept", s_eq(r_s[k], s_mul(n[k], d[k])))
    if not used:
        same_domains(v, "not resampled", r_dom, dom)
        return
    v.prove("resampled: number of domains", s_eq(A.ax_len(r_dom.axis), dom.n))
    for i in v.each(dom.axis):
        j = A.pos_to_index(r_dom.axis, i)
        v.prove("resampled: names in order", s_eq(str_term(r_dom.key(j)), dom.key(i)))
        a = r_dom.val(j)
        v.prove("resampled: integer indices", a.kind == "int")
        v.prove("resampled: number of voxels of a domain", s_eq(A.ax_len(a.axes[0]), s_mul(prod(f), dom.len(i))))
        # every voxel of the result is a child of a voxel of the domain, every child is there
        for q in v.each(a.axes[0]):
            x = a.fn(q)
            v.witness("resampled: voxels are children", Range(dom.len(i)), lambda p: child(n, f, dom.idx(i, p), x), A.flat_idx(q))
        for p in v.each(Range(dom.len(i))):
            o = tuple(v.c.ivar("o") for _ in f)
            with scope():
                v.c.hyp(inside(f, o))
                t = coordinates(n, dom.idx(i, p))
                u = [s_add(s_mul(m, x), y) for m, x, y in zip(f, t, o)]
                v.prove("resampled: children are inside of the grid", inside(r_n, u))
                v.witness("resampled: every child is present", a.axes, lambda q: s_eq(a.fn(q), number(r_n, u)), [number(f, o), p])


def child(n, f, w, x):
    t = coordinates(n, w)
    rn = [s_mul(a, b) for a, b in zip(n, f)]
    u = coordinates(rn, x)
    return b_and(*[b_and(s_cmp("<=", s_mul(a, b), z), s_cmp("<", z, s_mul(a, s_add(b, 1)))) for a, b, z in zip(f, t, u)])


from contracts.wiring import mesher_spec  # noqa: E402
mesher_spec("n", "d", "c", "s", "domain_def", "reference")
