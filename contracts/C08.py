"""Voxel positions and face currents follow the grid topology."""
from contracts.common import *  # noqa

VG = "pypeec.lib_solver.voxel_geometry"
PG = "pypeec.lib_solver.problem_geometry"


@spec("voxel_geometry.get_voxel_coordinate", [VG + ":get_voxel_coordinate"])
def coordinate(v):
    n, d, c = grid(v), size(v), point(v)
    r = v.call(VG, "get_voxel_coordinate", PList(n), PList(d), PList(c))
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    nv = prod(n)
    v.prove("shape", b_and(r.ndim == 2, s_eq(A.ax_len(r.axes[0]), nv), s_eq(A.ax_len(r.axes[1]), 3)))
    t = tuple(v.int("p" + k) for k in "xyz")
    v.assume(inside(n, t))
    w = number(n, t)
    v.lemma("the number of a voxel is inside of the grid", b_and(s_cmp("<=", 0, w), s_cmp("<", w, nv)))
    j = A.pos_to_index(r.axes[0], w)
    for k in range(3):
        want = s_add(c[k], s_mul(s_sub(s_add(t[k], Fraction(1, 2)), s_div(n[k], 2)), d[k]))
        v.prove("position of voxel x + nx*y + nx*ny*z", s_eq(r.fn(j, k), want))


def radix_lemma(v, n, t, u):
    """equal numbers mean equal coordinates"""
    a, b = (s_add(x[1], s_mul(n[1], x[2])) for x in (t, u))
    v.lemma("number of a voxel, slow digits", b_implies(s_eq(a, b), b_and(s_eq(t[1], u[1]), s_eq(t[2], u[2]))))
    w1, w2 = s_add(t[0], s_mul(n[0], a)), s_add(u[0], s_mul(n[0], b))
    v.lemma("number of a voxel, fast digit", b_implies(s_eq(w1, w2), b_and(s_eq(t[0], u[0]), s_eq(a, b))))


@spec("voxel_geometry.get_incidence_matrix", [VG + ":get_incidence_matrix"])
def incidence(v):
    n = grid(v)
    nv = prod(n)
    t = tuple(v.int("p" + k) for k in "xyz")
    u = tuple(v.int("q" + k) for k in "xyz")
    v.assume(inside(n, t))
    v.assume(inside(n, u))
    wt, wu = number(n, t), number(n, u)
    for w in (wt, wu):
        v.lemma("the number of a voxel is inside of the grid", b_and(s_cmp("<=", 0, w), s_cmp("<", w, nv)))
    r = v.call(VG, "get_incidence_matrix", n)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("shape", b_and(r.ndim == 2, s_eq(A.ax_len(r.axes[0]), nv), s_eq(A.ax_len(r.axes[1]), s_mul(3, nv))))
    for a in range(3):
        # face number a*nv + number of its lower voxel
        up = tuple(s_add(x, 1) if k == a else x for k, x in enumerate(u))
        radix = [(t, u), (t, up)]
        got = r.fn(A.pos_to_index(r.axes[0], wt), A.pos_to_index(r.axes[1], s_add(s_mul(a, nv), wu)))
        low = b_and(*[s_eq(x, y) for x, y in zip(t, u)])
        high = b_and(s_cmp("<", up[a], n[a]), *[s_eq(x, y) for x, y in zip(t, up)])
        radix_lemma(v, n, t, u)
        want = s_sub(s_ite(low, 1, 0), s_ite(high, 1, 0))
        v.prove("entry of voxel p at the face %s of voxel q" % "xyz"[a], s_eq(got, want))


@spec("problem_geometry.get_reduce_matrix", [PG + ":get_reduce_matrix"])
def reduce(v):
    # any matrix of the proved form: +1 at the lower voxel, -1 at the higher voxel if there is one
    nv, nf, m = v.int("nv", lo=1), v.int("nf", lo=0), v.int("m", lo=0)
    low, high, has = v.fun("low", 1), v.fun("high", 1), v.fun("has", 1, "bool")
    v.assume(A.forall(Range(nf), lambda j: b_and(s_cmp("<=", 0, low(j)), s_cmp("<", low(j), nv), b_implies(has(j), b_and(s_cmp("<=", 0, high(j)), s_cmp("<", high(j), nv), b_not(s_eq(low(j), high(j))))))))

    def entry(i, j):
        return s_sub(s_ite(s_eq(i, low(j)), 1, 0), s_ite(b_and(has(j), s_eq(i, high(j))), 1, 0))
    a_vox = Arr((Range(nv), Range(nf)), entry, "int", None, True)
    pts = v.array("pts", (nv, 3), "float")
    idx, f, where, member = selection(v, "idx_v", m, nv)
    r = v.call(PG, "get_reduce_matrix", pts, a_vox, idx)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    pn, an, idf = r

    def internal(j):
        return b_and(has(j), member(low(j)), member(high(j)))
    v.equal_arr("coordinates in the order of the selection", pn, [Range(m), Range(3)], lambda i, k: pts.fn(f(i), k))
    # the faces: the selection of the face axis by `internal`, in ascending order
    want = A.Sub(Range(nf), internal)
    for j in v.each(Range(nf)):
        ax = idf.axes[0]
        v.prove("the faces are a selection of the face numbers", isinstance(ax, A.Sub) and A.ax_same(ax.base, Range(nf)))
        if not isinstance(ax, A.Sub):
            return
        v.prove("a face is kept exactly if it is the interface of two selected voxels", s_eq(zbool(ax.mask(j)), zbool(internal(j))))
        with scope():
            v.c.hyp(ax.mask(j))
            v.prove("the face list holds the face numbers in ascending order", s_eq(idf.fn(j), j))
    v.prove("matrix: dimension", an.ndim == 2)
    v.prove("matrix: rows", s_eq(A.ax_len(an.axes[0]), m))
    v.prove("matrix: the columns are the faces of the list", A.ax_same(an.axes[1], idf.axes[0]))
    for i, j in v.each([Range(m), want]):
        k = A.pos_to_index(an.axes[1], A.index_to_pos(idf.axes[0], j)) if not isinstance(an.axes[1], A.Sub) else j
        v.prove("entry of a selected voxel at a face", s_eq(an.fn(A.pos_to_index(an.axes[0], i), k), entry(f(i), j)))


from contracts.wiring import solver_spec  # noqa: E402


def _geometry(s, w, r, d, t):
    for part, data in (("internal", r[1]), ("returned", r[0])):
        for k in ("pts_net_c", "pts_net_m", "idx_fc", "idx_fm", "A_net_c", "A_net_m"):
            if k in data or part == "internal":
                w.check("%s data: %s of the selection of voxels" % (part, k), data[k], t[k])
    for k in "ndc":
        w.check("returned grid: " + k, r[0][k], d[k])


solver_spec("init", _geometry)
