from rt.common import *  # noqa
from rt import gen, oracle
import scipy.sparse as sps

SM = "lib_solver.system_matrix"


def options():
    opt = {"library": "SciPy", "matrix_split": True, "scipy_worker": 1, "fftw_thread": 1, "fftw_timeout": None, "fftw_byte_align": 16}
    call("lib_matrix.fourier_transform", "set_options", opt)
    call("lib_matrix.multiply_fft", "set_options", opt)


def net(n, idx):
    """incidence matrix and face numbers of a voxel selection (specification)"""
    fc = gen.faces(n, idx)
    nv = n[0] * n[1] * n[2]
    pos = {int(v): k for k, v in enumerate(idx)}
    A = np.zeros((len(idx), len(fc)))
    for k, (a, lo, hi) in enumerate(fc):
        A[pos[lo], k], A[pos[hi], k] = 1, -1
    return fc, sps.csc_matrix(A), np.array([a * nv + lo for a, lo, hi in fc], dtype=np.int64)


def pos(n, v):
    return gen.coord(n, [v])[0]


def ad(n, v, w):
    return tuple(abs(x - y) for x, y in zip(pos(n, v), pos(n, w)))


@contract("system_matrix.get_inductance_matrix", "scaled coefficients between equal directions", 120)
def inductance(c):
    options()
    n, d, _ = gen.grid(c, 4)
    nv = n[0] * n[1] * n[2]
    idx = c.subset(nv, 0, 20)
    fc, _, ff = net(n, idx)
    if c.p(0.5) and len(fc):                       # any face list in any order
        p = c.rng.permutation(len(fc))[: c.i(1, len(fc))]
        fc, ff = [fc[k] for k in p], ff[p]
    G = np.abs(c.rng.normal(size=tuple(n) + (1,)))
    gs = abs(c.rng.normal())
    mt = c.pick(["fft", "direct"])
    c.note(n=n, d=d, idx_f=ff, mult_type=mt)
    L, op = call(SM, "get_inductance_matrix", n, d, ff, gs, G, mt)
    A = oracle.areas(d)
    M = np.zeros((len(fc), len(fc)))
    for i, (a, v, _) in enumerate(fc):
        for j, (b, w, _) in enumerate(fc):
            if a == b:
                M[i, j] = oracle.MU0 * G[ad(n, v, w) + (0,)] / A[a] ** 2
    x = c.cx(len(fc))
    close(op(x), M @ x, 1e-7, msg="inductance operator")
    x = c.wide(len(fc))
    if len(x):
        close(op(x), M @ x, atol=1e-8 * np.max(np.abs(M)) * np.sum(np.abs(x)), msg="inductance operator")
        u, v = op(x), op(x * 1e-9)
        close(v * 1e9, u, atol=1e-12 * np.max(np.abs(M)) * np.sum(np.abs(x)), msg="inductance operator is not linear")
    if len(fc):
        close(L, np.array([oracle.MU0 * gs / A[a] ** 2 for a, _, _ in fc], dtype=complex), 1e-7, msg="diagonal inductance")
    y, z = c.cx(len(fc)), c.cx(len(fc))
    if len(fc):
        u, v = np.sum(y * op(z)), np.sum(z * op(y))
        need(abs(u - v) <= 1e-9 * (np.sum(np.abs(y)) * np.max(np.abs(op(z)))), "inductance not reciprocal", u, v)


@contract("system_matrix.get_potential_matrix", "scaled coefficients between the voxels", 120)
def potential(c):
    options()
    n, d, _ = gen.grid(c, 4)
    nv = n[0] * n[1] * n[2]
    idx = c.subset(nv, 0, 25)
    G = np.abs(c.rng.normal(size=tuple(n) + (1,)))
    gs = abs(c.rng.normal())
    mt = c.pick(["fft", "direct"])
    c.note(n=n, d=d, idx_v=idx, mult_type=mt)
    P, op = call(SM, "get_potential_matrix", d, idx, gs, G, mt)
    vol = d[0] * d[1] * d[2]
    M = np.array([[G[ad(n, int(v), int(w)) + (0,)] / (oracle.MU0 * vol ** 2) for w in idx] for v in idx]).reshape(len(idx), len(idx))
    x = c.cx(len(idx))
    close(op(x), M @ x, 1e-7, msg="potential operator")
    if len(idx):
        close(P, gs / (oracle.MU0 * vol ** 2), 1e-7, msg="diagonal potential")


def coupling_matrix(n, fc, fm, K):
    M = np.zeros((len(fc), len(fm)))
    for i, (a, v1, v2) in enumerate(fc):
        for j, (b, w1, w2) in enumerate(fm):
            if a == b:
                continue
            k = 3 - a - b
            for v in (v1, v2):
                for w in (w1, w2):
                    df = pos(n, v)[k] - pos(n, w)[k]
                    M[i, j] += (1 if a < b else -1) * np.sign(df) * K[ad(n, v, w) + (k,)] / 4
    return M


@contract("system_matrix.get_coupling_matrix", "averaged interaction, transpose on the magnetic side", 150)
def coupling(c):
    options()
    n, d, _ = gen.grid(c, 4)
    nv = n[0] * n[1] * n[2]
    ic, im = c.subset(nv, 0, 20), c.subset(nv, 0, 20)
    fc, Ac, ffc = net(n, ic)
    fm, Am, ffm = net(n, im)
    K = c.rng.normal(size=tuple(n) + (3,))
    K[0, :, :, 0] = 0
    K[:, 0, :, 1] = 0
    K[:, :, 0, 2] = 0
    mt = c.pick(["fft", "direct"])
    c.note(n=n, idx_vc=ic, idx_vm=im, mult_type=mt)
    f, g = call(SM, "get_coupling_matrix", n, ic, im, ffc, ffm, Ac, Am, K, mt)
    M = coupling_matrix(n, fc, fm, K)
    x, y = c.cx(len(fm)), c.cx(len(fc))
    close(f(x), M @ x, 1e-9, msg="electric-side coupling operator")
    close(g(y), M.T @ y, 1e-9, msg="magnetic-side operator is not the transpose")
    x, y = c.wide(len(fm)), c.wide(len(fc))
    if len(x) and len(y):
        close(f(x), M @ x, atol=1e-12 * np.max(np.abs(M)) * np.sum(np.abs(x)), msg="electric-side coupling operator")
        close(g(y), M.T @ y, atol=1e-12 * np.max(np.abs(M)) * np.sum(np.abs(y)), msg="magnetic-side coupling operator")


@contract("system_matrix.get_coupling_matrix", "no faces of one kind: zero operators", 30)
def zero(c):
    options()
    n, d, _ = gen.grid(c, 3)
    nv = n[0] * n[1] * n[2]
    one = np.array([c.i(0, nv - 1)])
    many = c.subset(nv, 1)
    a, b = (one, many) if c.p() else (many, one)
    fa, Aa, ffa = net(n, a)
    fb, Ab, ffb = net(n, b)
    K = None if c.p(0.3) else np.ones(tuple(n) + (3,))
    c.note(n=n, idx_vc=a, idx_vm=b)
    f, g = call(SM, "get_coupling_matrix", n, a, b, ffa, ffb, Aa, Ab, K, "fft")
    same(f(c.cx(len(fb))), np.zeros(len(fa)), "electric side")
    same(g(c.cx(len(fa))), np.zeros(len(fb)), "magnetic side")


@contract("run.solver.run", "energies and densities of the solved problem follow the operators", 12)
def whole(c):
    from rt import prob
    case = prob.random_problem(c, 3, magnetic=True, dense=True, freq=c.pick([0.0, 1e5]))
    c.note(**case["note"])
    r = prob.solve(case, prob.tolerance(mult_type=c.pick(["fft", "direct"])))["data_sweep"]["sim"]
    y = oracle.solve(case)
    for k in ("W_electric", "W_magnetic"):
        close(r["integral"][k], y[k], atol=1e-4 * (abs(y[k]) + 1e-12), msg=k)
    for k, v in y["var"].items():
        close(r["var"][k]["var"], v, atol=2e-6 * (1e-6 + np.max(np.abs(v), initial=0)) if k in ("Q_m", "B_m") else 1e-6 * (1 + np.max(np.abs(v), initial=0)), msg=k)
