"""Reported mesh and problem statistics match the data."""
from contracts.common import *  # noqa

MS = "pypeec.lib_mesher.voxel_summary"
PG = "pypeec.lib_solver.problem_geometry"


@spec("voxel_summary.get_summary", [MS + ":get_summary"])
def summary(v):
    n, d, c = grid(v), size(v), point(v)
    # the physical size is the number of voxels times their size (postcondition of the resampling)
    s = tuple(s_mul(a, b) for a, b in zip(n, d))
    dom = Domains(v)
    npt, ngr = v.int("n_pts", lo=0), v.int("n_graph", lo=0)
    pts = v.array("pts", (npt, 3), "float")
    glen = v.fun("len_graph", 1)
    gidx = v.fun("idx_graph", 2)
    v.assume(A.forall(Range(ngr), lambda i: s_cmp(">=", glen(i), 0)))
    graph = SList(Range(ngr), lambda i: Arr((Range(glen(i)),), lambda j: gidx(i, j), "int"))
    r = v.call(MS, "get_summary", n, d, s, c, pts, dom.dict, graph)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    nt, vol = prod(n), prod(d)
    used = A.sum_over([dom.axis], lambda i: dom.len(i))
    want = {
        "n_total": nt, "n_used": used, "n_domain": dom.n, "n_graph": ngr, "n_cloud": npt,
        "A_xy": s_mul(s_mul(n[0], d[0]), s_mul(n[1], d[1])),
        "A_yz": s_mul(s_mul(n[1], d[1]), s_mul(n[2], d[2])),
        "A_xz": s_mul(s_mul(n[0], d[0]), s_mul(n[2], d[2])),
        "V_total": s_mul(nt, vol), "V_used": s_mul(used, vol), "ratio": s_div(used, nt),
    }
    v.prove("exactly the documented fields", set(r) == set(want))
    for k, x in want.items():
        v.prove("field " + k, s_eq(r[k], x))


@spec("problem_geometry.get_status", [PG + ":get_status"])
def status(v):
    n = grid(v)
    names = ("vc", "vm", "fc", "fm", "sc", "sv")
    ln = {k: v.int("n_" + k, lo=0) for k in names}
    arrs = [v.array("idx_" + k, ln[k], "int") for k in names]
    r = v.call(PG, "get_status", n, *arrs)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    nt = prod(n)
    uv, uf = s_add(ln["vc"], ln["vm"]), s_add(ln["fc"], ln["fm"])
    want = {
        "n_voxel_total": nt, "n_face_total": s_mul(3, nt), "n_voxel_used": uv, "n_face_used": uf,
        "n_voxel_electric": ln["vc"], "n_voxel_magnetic": ln["vm"], "n_face_electric": ln["fc"], "n_face_magnetic": ln["fm"],
        "n_src_current": ln["sc"], "n_src_voltage": ln["sv"],
        "ratio_voxel": s_div(uv, nt), "ratio_face": s_div(uf, s_mul(3, nt)),
    }
    v.prove("exactly the documented fields", set(r) == set(want))
    for k, x in want.items():
        v.prove("field " + k, s_eq(r[k], x))


from contracts.wiring import mesher_spec, solver_spec  # noqa: E402
mesher_spec("voxel_status")


def _status(s, w, r, d, t):
    w.check("problem status of the solution", r[0]["problem_status"], t["problem_status"])


solver_spec("init", _status)
