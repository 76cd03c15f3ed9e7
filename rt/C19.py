from rt.common import *  # noqa
from rt import gen, prob, oracle
from rt.C14 import net

EX = "lib_solver.extract_solution"


def cloud(c, n, d, ctr, k):
    """points around the structure, next to a voxel centre or far away"""
    ext = [n[a] * d[a] for a in range(3)]
    pts = cloud_around(c, ext, ctr, k)
    for i in range(k):
        if c.p(0.3):          # next to the centre of some voxel of the grid (at many distances)
            cell = [c.i(0, n[a] - 1) for a in range(3)]
            off = np.array([c.f(0.1, 1) * c.pick([-1, 1]) for _ in range(3)]) * 10.0 ** c.i(-6, -1) * max(d)
            pts[i] = [ctr[a] + (cell[a] + 0.5 - n[a] / 2) * d[a] + off[a] for a in range(3)]
        elif c.p(0.1):
            pts[i] *= 10.0 ** c.i(1, 5)
    return pts


def cloud_around(c, ext, ctr, k):
    return np.array([[ctr[a] + (c.pick([-1, 1]) * (ext[a] / 2 + c.f(0.2, 2)) if (a == j or c.p()) else c.f(-1, 1)) for a in range(3)] for j in [c.i(0, 2) for _ in range(k)]]).reshape(-1, 3)


def moments(kind, n, d, ctr, idx, fc, I):
    """positions and I dl of the sources of the field"""
    cen = gen.center(n, d, ctr, idx)
    pos = {int(v): k for k, v in enumerate(idx)}
    if kind == "face":
        src = np.array([(cen[pos[lo]] + cen[pos[hi]]) / 2 for _, lo, hi in fc]).reshape(-1, 3)
        mom = np.zeros((len(fc), 3), complex)
        for k, (a, _, _) in enumerate(fc):
            mom[k, a] = d[a] * I[k]
        return src, mom
    mom = np.zeros((len(idx), 3), complex)
    for (a, lo, hi), i in zip(fc, I):
        mom[pos[lo], a] += d[a] * i / 2
        mom[pos[hi], a] += d[a] * i / 2
    return cen, mom


@contract("extract_solution.get_magnetic_field_electric", "sum of I dl x r / (4 pi r^3) over faces or voxels", 150)
def electric(c):
    n, d, ctr = gen.grid(c, 4)
    nv = n[0] * n[1] * n[2]
    idx = c.subset(nv, 1)
    fc, A, ff = net(n, idx)
    I = c.cx(len(fc))
    pts = cloud(c, n, d, ctr, c.i(0, 5))
    kind = c.pick(["face", "voxel"])
    c.note(n=n, d=d, c=ctr, idx_vc=idx, I=I, pts=pts, biot_savart=kind)
    p0 = pts.copy()
    H = call(EX, "get_magnetic_field_electric", n, d, ff, A, I, gen.center(n, d, ctr, idx), pts, kind)
    spec = oracle.biot_savart(pts, *moments(kind, n, d, ctr, idx, fc, I))
    close(H, spec, 1e-9, msg="field of the currents")
    need(np.array_equal(p0, pts), "points modified")


@contract("extract_solution.get_magnetic_field_magnetic", "sum of q r / (4 pi mu0 r^3) over the magnetic voxels", 150)
def magnetic(c):
    n, d, ctr = gen.grid(c, 4)
    nv = n[0] * n[1] * n[2]
    idx = c.subset(nv, 0)
    fc, A, ff = net(n, idx)
    I = c.cx(len(fc))
    pts = cloud(c, n, d, ctr, c.i(0, 5))
    c.note(n=n, d=d, c=ctr, idx_vm=idx, I=I, pts=pts)
    q = np.zeros(len(idx), complex)
    pos = {int(v): k for k, v in enumerate(idx)}
    for (a, lo, hi), i in zip(fc, I):
        q[pos[lo]] += i
        q[pos[hi]] -= i
    H = call(EX, "get_magnetic_field_magnetic", A, I, gen.center(n, d, ctr, idx), pts)
    spec = oracle.charge_field(pts, gen.center(n, d, ctr, idx), q)
    close(H, spec, 1e-7, msg="field of the magnetic charges")


@contract("run.solver.run", "cloud field of the returned solution, per point in order", 25)
def whole(c):
    case = prob.random_problem(c, 3, n_cloud=c.i(0, 5), magnetic=c.p(0.6), dense=True)
    kind = c.pick(["face", "voxel"])
    c.note(biot_savart=kind, **case["note"])
    r = prob.solve(case, prob.tolerance(biot_savart=kind))
    s = r["data_sweep"]["sim"]
    y = oracle.solve(case)
    F, V, S, H, U = y["slices"]
    pts = np.array(case["pts"]).reshape(-1, 3)
    same(np.asarray(r["data_init"]["pts_cloud"], float).reshape(-1, 3), pts, "cloud points")
    he = oracle.biot_savart(pts, *moments(kind, case["n"], case["d"], case["c"], y["ic"], y["fc"], y["x"][F]))
    q = y["div"](y["im"], y["fm"], y["x"][H])
    hm = oracle.charge_field(pts, gen.center(case["n"], case["d"], case["c"], y["im"]), q)
    need(s["var"]["H_p"]["cat"] == "cloud", "category")
    close(s["var"]["H_p"]["var"], he + hm, atol=1e-6 * (1 + np.max(np.abs(he + hm), initial=0)), msg="cloud field")
