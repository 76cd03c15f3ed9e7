from rt.common import *  # noqa
from rt import gen


@contract("voxel_summary.get_summary", "mesh statistics are those of the data", 80)
def summary(c):
    n, d, ctr = gen.grid(c, 5 if c.p(0.7) else 14)
    nv = n[0] * n[1] * n[2]
    dom = {t: np.array(v, dtype=np.int64) for t, v in gen.domains(c, nv).items()}
    comps = [np.array(sorted(s)) for s in gen.components(n, np.concatenate(list(dom.values())))]
    pts = np.array([[c.f(-1, 1)] * 3 for _ in range(c.i(0, 5))]).reshape(-1, 3)
    s = tuple(x * y for x, y in zip(n, d))
    c.note(n=n, d=d, c=ctr, domain_def=dom, n_cloud=len(pts))
    r = call("lib_mesher.voxel_summary", "get_summary", n, d, s, ctr, pts, dom, comps)
    _check_mesh(n, d, dom, comps, pts, r)


def _check_mesh(n, d, dom, comps, pts, r):
    nv = n[0] * n[1] * n[2]
    used = sum(len(v) for v in dom.values())
    V = d[0] * d[1] * d[2]
    s = [n[a] * d[a] for a in range(3)]
    for k, v in {"n_total": nv, "n_used": used, "n_domain": len(dom), "n_graph": len(comps), "n_cloud": len(pts)}.items():
        need(r[k] == v, "statistic " + k, r[k], v)
    for k, v in {"A_xy": s[0] * s[1], "A_yz": s[1] * s[2], "A_xz": s[0] * s[2], "V_total": nv * V, "V_used": used * V, "ratio": used / nv}.items():
        close(r[k], v, 1e-9, None, "statistic " + k)


@contract("run.mesher.run", "statistics of the final mesh", 40)
def whole(c):
    n, d, ctr = gen.grid(c, 4)
    nv = n[0] * n[1] * n[2]
    dom = gen.domains(c, nv, overlap=c.p(0.3))
    if not any(dom.values()):
        dom[list(dom)[0]] = [0]
    pts = [[c.f(-5, 5) for _ in range(3)] for _ in range(c.i(0, 4))]
    f = [c.i(1, 2), c.i(1, 3), c.i(1, 2)]
    c.note(n=n, d=d, domain_index=dom, factor=f)
    g = gen.data_geometry(n, d, ctr, dom, cloud=pts, check_cloud=c.p(), reduce=c.p(), resample=c.p(), factor=f, rand=True)
    r = call("run.mesher", "run", g)["data_geom"]
    comps = gen.components(r["n"], np.concatenate([np.asarray(v) for v in r["domain_def"].values()]))
    _check_mesh(r["n"], r["d"], r["domain_def"], comps, r["pts_cloud"], r["voxel_status"])


@contract("problem_geometry.get_status", "problem statistics are those of the data", 80)
def status(c):
    n, d, ctr = gen.grid(c, 5 if c.p(0.7) else 14)
    nv = n[0] * n[1] * n[2]
    ic, im = c.subset(nv), c.subset(nv)
    fc, fm = c.subset(3 * nv), c.subset(3 * nv)
    sc, sv = c.subset(nv), c.subset(nv)
    c.note(n=n, sizes=[len(x) for x in (ic, im, fc, fm, sc, sv)])
    r = call("lib_solver.problem_geometry", "get_status", n, ic, im, fc, fm, sc, sv)
    check_problem(nv, r, ic, im, fc, fm, sc, sv)


def check_problem(nv, r, ic, im, fc, fm, sc, sv):
    spec = {"n_voxel_total": nv, "n_face_total": 3 * nv, "n_voxel_used": len(ic) + len(im), "n_face_used": len(fc) + len(fm),
            "n_voxel_electric": len(ic), "n_voxel_magnetic": len(im), "n_face_electric": len(fc), "n_face_magnetic": len(fm),
            "n_src_current": len(sc), "n_src_voltage": len(sv)}
    for k, v in spec.items():
        need(r[k] == v, "statistic " + k, r[k], v)
    close(r["ratio_voxel"], (len(ic) + len(im)) / nv, 1e-12)
    close(r["ratio_face"], (len(fc) + len(fm)) / (3 * nv), 1e-12)


@contract("run.solver.run", "statistics of the solution", 6)
def solver(c):
    from rt import prob
    case = prob.random_problem(c, nmax=3)
    c.note(**case["note"])
    r = prob.solve(case)
    di = r["data_init"]
    n = case["n"]
    sp = prob.spec_geometry(case)
    need(list(di["n"]) == list(n), "grid")
    check_problem(n[0] * n[1] * n[2], di["problem_status"], sp["idx_vc"], sp["idx_vm"], gen.faces(n, sp["idx_vc"]), gen.faces(n, sp["idx_vm"]), sp["idx_src_c"], sp["idx_src_v"])
