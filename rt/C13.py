from rt.common import *  # noqa
from rt import oracle

ST = "lib_solver.system_tensor"


def grid(c, m=3):
    n = [c.i(1, m) for _ in range(3)]
    s = c.pick([1.0, 1e-3, 1e-6, 7.0])          # realistic scales
    d = [s * c.f(0.5, 1.5) for _ in range(3)]
    return n, d


def cells(n):
    return [(x, y, z) for x in range(n[0]) for y in range(n[1]) for z in range(n[2])]


def near(d, p, lim):
    dist = np.sqrt(sum((p[a] * d[a]) ** 2 for a in range(3))) / max(d)
    return dist, dist <= lim


@contract("system_tensor.get_green_self", "self coefficient is the sixfold integral", 25)
def self_(c):
    _, d = grid(c)
    c.note(d=d)
    g = call(ST, "get_green_self", d)
    close(g, oracle.green6(d, (0, 0, 0), 24), 2e-5, msg="self coefficient")
    need(g > 0, "self coefficient not positive", g)


@contract("system_tensor.get_green_tensor", "mutual coefficients per index difference, far approximation", 30)
def mutual(c):
    n, d = grid(c)
    lim = c.pick([0.0, 20.0, 20.0, c.f(0.5, 3.0)])
    c.note(n=n, d=d, integral_simplify=lim)
    G = call(ST, "get_green_tensor", n, d, lim)
    need(tuple(G.shape[:3]) == tuple(n) and G.size == n[0] * n[1] * n[2], "shape", G.shape)
    vol = d[0] * d[1] * d[2]
    for p in cells(n):
        dist, ana = near(d, p, lim)
        if abs(dist - lim) < 1e-9 and any(p):
            continue
        g = G[p + (0,)]
        if ana:
            close(g, oracle.green6(d, p, 14), 1e-4, msg="mutual coefficient %s" % (p,))
        else:
            close(g, vol * vol / (4 * np.pi * dist * max(d)), 1e-10, msg="far coefficient %s" % (p,))
        need(g > 0, "coefficient not positive", p, g)


@contract("system_tensor.get_green_tensor", "invariance under a permutation of the axes", 30)
def permute(c):
    n, d = grid(c, 4)
    lim = c.pick([20.0, c.f(0.5, 3.0)])
    p = [int(v) for v in c.rng.permutation(3)]
    c.note(n=n, d=d, integral_simplify=lim, permutation=p)
    G = call(ST, "get_green_tensor", n, d, lim)[..., 0]
    H = call(ST, "get_green_tensor", [n[a] for a in p], [d[a] for a in p], lim)[..., 0]
    need(np.all(G > 0) and np.all(H > 0), "coefficients not positive")
    q = np.transpose(G, p)
    need(np.all(np.abs(q - H) <= 1e-6 * np.abs(H)), "not invariant under the permutation", float(np.max(np.abs(q - H) / H)))


@contract("system_tensor.get_coupling_tensor", "normalized differences of the face to voxel integrals", 30)
def coupling(c):
    n, d = grid(c)
    lim = c.pick([0.0, 20.0, 20.0, c.f(0.5, 3.0)])
    c.note(n=n, d=d, integral_simplify=lim)
    K = call(ST, "get_coupling_tensor", n, d, lim, True)
    need(tuple(K.shape) == tuple(n) + (3,), "shape", K.shape)
    A = oracle.areas(d)
    vol = d[0] * d[1] * d[2]
    for p in cells(n):
        dist, ana = near(d, p, lim)
        if abs(dist - lim) < 1e-9 and any(p):
            continue
        for k in range(3):
            a, b = [(1, 2), (0, 2), (0, 1)][k]
            e = np.zeros(3)
            e[k] = 0.5
            q = np.array(p, dtype=float)
            if ana:
                lo, hi = oracle.green5(d, q - e, k), oracle.green5(d, q + e, k)
            else:
                lo, hi = [A[k] * vol / (4 * np.pi * np.sqrt(sum(((q[m] + s * e[m]) * d[m]) ** 2 for m in range(3)))) for s in (-1, 1)]
            sg = -1 if k == 1 else 1
            close(K[p + (k,)], sg * (lo - hi) / (A[a] * A[b]), atol=1e-4 * (abs(lo) + abs(hi)) / (A[a] * A[b]), msg="coupling %s axis %d" % (p, k))
            if p[k] == 0:
                need(abs(K[p + (k,)]) <= 1e-9 * (abs(lo) + abs(hi)) / (A[a] * A[b]), "coupling without offset is not zero", p, k)


@contract("system_tensor.get_coupling_tensor", "no tensor without magnetic voxels", 5)
def nomag(c):
    n, d = grid(c)
    c.note(n=n, d=d)
    need(call(ST, "get_coupling_tensor", n, d, 20.0, False) is None, "tensor without magnetic voxels")


@contract("run.solver.run", "the far approximation is used beyond the selected cell distance only", 6)
def whole(c):
    from rt import prob
    case = prob.random_problem(c, 3, freq=1e5, dense=True)
    c.note(**case["note"])
    r = prob.solve(case)["data_sweep"]["sim"]
    y = oracle.solve(case)
    for k in ("W_electric", "W_magnetic"):
        close(r["integral"][k], y[k], atol=1e-4 * (abs(y[k]) + 1e-12), msg=k)
    close(r["var"]["V_c"]["var"], y["var"]["V_c"], atol=1e-5, msg="potential")
