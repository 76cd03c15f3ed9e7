from rt.common import *  # noqa

M = "utils.matrix"


def sym(c, n):
    Z = np.diag(np.abs(c.rng.normal(size=n)) + 1.0) + 0j
    for i in range(n):
        Z[i, i] += 1j * c.f(0.5, 2)
        for j in range(i):
            Z[i, j] = Z[j, i] = 0.3 * c.cx()
    return Z


def terminal(n, m, f, V, I):
    return {"n_winding": n, "n_solution": m, "freq": f, "V_mat": V, "I_mat": I}


def regular(n, I):
    """do the excitations determine a symmetric matrix (the only symmetric X with X I = 0 is zero)"""
    rows = []
    for i in range(n):
        for j in range(i, n):
            X = np.zeros((n, n))
            X[i, j] = X[j, i] = 1
            rows.append((X @ I).ravel())
    s = np.linalg.svd(np.array(rows).T, compute_uv=False)
    k = n * (n + 1) // 2
    if len(s) < k:
        return 0.0
    return s[k - 1] / s[0] if s[0] else 0.0


@contract("matrix.get_matrix", "the generating impedance matrix and the derived quantities", 250)
def matrix(c):
    n = c.i(1, 5)
    Z = sym(c, n)
    m = c.i(n, n + 3)
    I = c.rng.normal(size=(n, m)) + 1j * c.rng.normal(size=(n, m))
    if c.p(0.3):
        I = np.eye(n)[:, c.rng.permutation(n)] + 0j
        m = n
    if n > 1 and c.p(0.3):              # fewer excitations than windings can be sufficient
        m = (n + 1) // 2 + 1
        I = I[:, :m]
        m = I.shape[1]
    q = regular(n, I)
    if 0 < q < 1e-6:
        c.nontrivial = False
        return
    V = Z @ I
    f = 0.0 if c.p(0.25) else c.f(0.5, 5)
    t = terminal(n, m, f, V, I)
    old = freeze(t)
    c.note(Z=Z, I=I, freq=f)
    if q == 0 or q < 1e-10:
        raises(M, "get_matrix", t)
        return
    r = call(M, "get_matrix", t)
    need(equal_data(t, old), "input modified")
    same([r["n_winding"], r["n_solution"], r["freq"]], [n, m, f], "sizes")
    tol = 1e-9 / q
    close(r["Z_mat"], Z, tol, msg="impedance")
    close(r["R_mat"], Z.real, tol, msg="resistance")
    w = 2 * np.pi * f
    D = np.sqrt(np.outer(np.diag(Z.real), np.diag(Z.real)))
    close(r["k_R_mat"], Z.real / D, 10 * tol, msg="resistive coupling factor")
    if f > 0:
        L = Z.imag / w
        close(r["L_mat"], L, tol, atol=tol * np.max(np.abs(Z)) / w, msg="inductance")
        big = np.abs(Z.real) > 1e-2
        close(np.where(big, r["Q_mat"], 0), np.where(big, Z.imag / Z.real, 0), 1e4 * tol, msg="quality factor")
        close(r["k_L_mat"], L / np.sqrt(np.outer(np.diag(L), np.diag(L))), 20 * tol, msg="inductive coupling factor")


@contract("matrix.get_matrix", "weak couplings and small terms are kept", 60)
def weak(c):
    n = c.i(2, 5)
    Z = sym(c, n)
    for i in range(n):
        for j in range(i):
            Z[i, j] = Z[j, i] = c.cx() * 10.0 ** c.f(-11, -4)
    I = np.eye(n)[:, c.rng.permutation(n)] * 10.0 ** c.f(-3, 3) + 0j
    f = c.f(0.5, 5)
    c.note(Z=Z, I=I, freq=f)
    r = call(M, "get_matrix", terminal(n, n, f, Z @ I, I))
    close(r["Z_mat"], Z, 2e-13, msg="impedance")
    close(r["L_mat"], Z.imag / (2 * np.pi * f), atol=2e-13 * np.max(np.abs(Z)) / f, msg="inductance")


@contract("matrix.get_matrix", "insufficient excitations and wrong shapes are rejected", 150)
def bad(c):
    n = c.i(1, 4)
    Z = sym(c, n)
    kind = c.pick(["few", "rank", "zero", "shape_v", "shape_i", "shape_t"])
    m = c.i(n, n + 2)
    I = c.rng.normal(size=(n, m)) + 1j * c.rng.normal(size=(n, m))
    if kind == "few":
        if n == 1:
            I = I[:, :0]
        else:
            I = I[:, : max(1, (n - 1) // 2)]
            if regular(n, I) > 1e-6:
                c.nontrivial = False
                return
    if kind == "rank":                     # proportional excitations
        if n == 1:
            I = I * 0
        else:
            I = np.outer(I[:, 0], c.cx(m))
    if kind == "zero":                     # one winding is never excited: its self term is unknown
        I[c.i(0, n - 1), :] = 0
    V = Z @ I
    t = terminal(n, I.shape[1], 1.0, V, I)
    if kind == "shape_v":
        t["V_mat"] = c.pick([V[:, :-1], V[:-1], np.hstack((V, V[:, :1]))])
    if kind == "shape_i":
        t["I_mat"] = c.pick([I[:, :-1], I[:-1], np.vstack((I, I[:1]))])
    if kind == "shape_t":
        if n == m:
            m = n + 1
        t = terminal(I.shape[1], n, 1.0, V, I)
        if I.shape[1] == n:
            t["n_winding"] = n + 1
    c.note(kind=kind, n=n, I=t["I_mat"], V=t["V_mat"])
    raises(M, "get_matrix", t)


@contract("matrix.get_extract", "voltage differences and mean opposite currents per winding and sweep", 200)
def extract(c):
    nw, ns = c.i(1, 4), c.i(1, 4)
    names = ["s%d" % k for k in c.rng.permutation(2 * nw + 1)]
    f = c.pick([0.0, c.f(0.1, 1e6)])
    sweeps = ["w%d" % k for k in c.rng.permutation(ns + 1)]
    data = {"data_init": {}, "data_sweep": {}}
    for w in sweeps:
        data["data_sweep"][w] = {"freq": f, "source": {t: {"V": c.cx(), "I": c.cx()} for t in names}}
    lst = [sweeps[k] for k in c.rng.permutation(len(sweeps))[:ns]]
    data["data_sweep"][sweeps[0] if sweeps[0] not in lst else [w for w in sweeps if w not in lst][0]]["freq"] = 7.7 * f + 3.0 if len(lst) < len(sweeps) else f
    pick = [names[k] for k in c.rng.permutation(len(names))[:2 * nw]]
    term = [{"src": pick[2 * k], "sink": pick[2 * k + 1]} for k in range(nw)]
    if nw > 1 and c.p(0.3):
        term[1]["sink"] = term[0]["sink"]
    old = freeze((data, lst, term))
    c.note(sweeps=lst, terminals=term, freq=f)
    r = call(M, "get_extract", data, lst, term)
    need(equal_data((data, lst, term), old), "input modified")
    V = np.array([[data["data_sweep"][w]["source"][t["src"]]["V"] - data["data_sweep"][w]["source"][t["sink"]]["V"] for w in lst] for t in term])
    I = np.array([[(data["data_sweep"][w]["source"][t["src"]]["I"] - data["data_sweep"][w]["source"][t["sink"]]["I"]) / 2 for w in lst] for t in term])
    close(r["V_mat"], V, 1e-12, msg="voltages")
    close(r["I_mat"], I, 1e-12, msg="currents")
    same([r["n_winding"], r["n_solution"]], [nw, ns], "sizes")
    close(r["freq"], f, 1e-9, msg="frequency")


@contract("matrix.get_extract", "differing frequencies are rejected", 80)
def freqs(c):
    nw, ns = c.i(1, 3), c.i(2, 4)
    base = c.pick([1.0, 50.0, 1e6])
    fs = [base] * ns
    k = c.i(0, ns - 1)
    fs[k] = c.pick([0.0, base * 1.01, base * 2, base * 0.9])
    names = ["s%d" % q for q in range(2 * nw)]
    data = {"data_init": {}, "data_sweep": {"w%d" % i: {"freq": fs[i], "source": {t: {"V": c.cx(), "I": c.cx()} for t in names}} for i in range(ns)}}
    term = [{"src": names[2 * q], "sink": names[2 * q + 1]} for q in range(nw)]
    c.note(freqs=fs)
    raises(M, "get_extract", data, ["w%d" % i for i in range(ns)], term)


@contract("matrix.get_symmetry", "permuted solutions appended in order", 150)
def symmetry(c):
    n, m = c.i(1, 4), c.i(1, 3)
    V, I = c.cx(n * m).reshape(n, m), c.cx(n * m).reshape(n, m)
    syms = [[[int(v) for v in c.rng.permutation(n)] for _ in range(c.i(1, 3))] for _ in range(c.i(0, 3))]
    t = terminal(n, m, 2.0, V, I)
    old = freeze(t)
    c.note(sym=syms, n=n, m=m)
    r = call(M, "get_symmetry", t, syms)
    need(equal_data(t, old), "input modified")
    cols = [(V[:, k], I[:, k]) for k in range(m)]
    for s in syms:
        cols = [(v[p], i[p]) for p in s for v, i in cols]
    same(r["V_mat"], np.array([v for v, _ in cols]).T, "voltages")
    same(r["I_mat"], np.array([i for _, i in cols]).T, "currents")
    same([r["n_winding"], r["n_solution"], r["freq"]], [n, len(cols), 2.0], "sizes")


@contract("matrix.get_symmetry", "wrong shapes are rejected", 60)
def symmetry_bad(c):
    n, m = c.i(1, 4), c.i(1, 3)
    V, I = c.cx(n * m).reshape(n, m), c.cx(n * m).reshape(n, m)
    t = terminal(n, m, 2.0, V, I)
    w = c.pick(["V_mat", "I_mat"])
    t[w] = c.pick([t[w][:-1], t[w][:, :-1], np.hstack((t[w], t[w]))])
    c.note(n=n, m=m, which=w, shape=t[w].shape)
    raises(M, "get_symmetry", t, [[list(range(n))]])


@contract("matrix.get_symmetry/get_matrix", "symmetric windings: expansion of one solution determines the matrix", 60)
def expand(c):
    n = c.i(2, 4)
    Z = np.full((n, n), 0.3 * c.cx()) + np.diag(np.full(n, 1.5 + 1j))
    m = c.i(1, 2)
    I = c.cx(n * m).reshape(n, m)
    perms = [[int((k + s) % n) for k in range(n)] for s in range(n)]
    t = call(M, "get_symmetry", terminal(n, m, 1.0, Z @ I, I), [perms])
    c.note(Z=Z, I=I)
    q = regular(n, t["I_mat"])
    if q < 1e-6:
        c.nontrivial = False
        return
    close(call(M, "get_matrix", t)["Z_mat"], Z, 1e-8 / q, msg="impedance")
