"""Field points too close to the conductors are filtered, others kept."""
from contracts.common import *  # noqa

M = "pypeec.lib_mesher.voxel_point"


@spec("voxel_point.get_point", [M + ":get_point"])
def get_point(v):
    n, d, c = grid(v), size(v), point(v)
    nv = prod(n)
    dom = Domains(v, hi=nv)
    m = v.int("n_cloud", lo=0)
    f = v.fun("pts", 2, "real")
    # a list of points or an array
    pts = v.array("cloud", (m, 3), "float", f)
    check, full = v.bool("check_cloud"), v.bool("full_cloud")
    r = v.call(M, "get_point", PList(n), PList(d), PList(c), dom.dict, {"check_cloud": check, "full_cloud": full, "pts_cloud": pts})

    def far(p, w):
        """more than one voxel dimension away from the centre along at least one axis"""
        t = coordinates(n, w)
        out = []
        for k in range(3):
            ctr = s_add(c[k], s_mul(s_sub(s_add(t[k], Fraction(1, 2)), s_div(n[k], 2)), d[k]))
            out.append(s_cmp(">", s_abs(s_sub(f(p, k), ctr)), d[k]))
        return b_or(*out)

    def valid(p):
        return dom.all(lambda w: far(p, w))
    all_valid = A.forall(Range(m), valid)
    if v.raised:
        v.prove("an error is raised only for dropped points of a complete cloud", b_and(check, full, b_not(all_valid)))
        return
    v.prove("dropped points of a complete cloud are rejected", b_implies(b_and(check, full), all_valid))
    if not isinstance(r, Arr):
        raise Unsupported("result")
    v.prove("points with three coordinates", b_and(r.ndim == 2, s_eq(A.ax_len(r.axes[1]), 3)))
    ax = r.axes[0]
    if isinstance(ax, A.Sub):
        v.prove("the points are a selection of the given points", A.ax_same(ax.base, Range(m)))
        for p in v.each(Range(m)):
            v.prove("a point is kept exactly if it is not too close to a voxel", s_eq(zbool(ax.mask(p)), zbool(b_or(b_not(check), valid(p)))))
    else:
        v.prove("all points are kept: number", s_eq(A.ax_len(ax), m))
        v.prove("all points are kept only if they are not checked or far enough", b_or(b_not(check), all_valid))
    for p in v.each(ax):
        for k in range(3):
            v.prove("kept points have their coordinates, in order", s_eq(r.fn(p, A.pos_to_index(r.axes[1], k)), f(p, k)))


from contracts.wiring import mesher_spec  # noqa: E402
mesher_spec("pts_cloud")
