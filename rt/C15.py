from rt.common import *  # noqa
from rt import gen, prob, oracle
import scipy.sparse as sps

ES = "lib_solver.equation_system"


def factorization():
    call("lib_matrix.matrix_factorization", "set_options", {"library": "SuperLU", "pyamg_options": None, "pardiso_options": None})


def blocks(c):
    """random equations: incidence matrices of two voxel selections, sources, random operators"""
    n, d, _ = gen.grid(c, 3)
    nv = n[0] * n[1] * n[2]
    ic = c.subset(nv, 1)
    im = c.subset(nv, 0) if c.p(0.7) else np.array([], dtype=int)
    from rt.C14 import net
    fc, Ac, _ = net(n, ic)
    fm, Am, _ = net(n, im)
    src = []
    for s in gen.components(n, ic):
        s = sorted(s)
        src += [s[i] for i in c.rng.permutation(len(s))[: c.i(1, min(3, len(s)))]]
    src = [src[i] for i in c.rng.permutation(len(src))]
    cut = c.i(0, len(src))
    pos = {int(v): k for k, v in enumerate(ic)}
    nc, ns = len(ic), len(src)
    A1, A2, A3 = np.zeros((nc, ns), complex), np.zeros((ns, nc), complex), np.zeros((ns, ns), complex)
    for j, v in enumerate(src):
        A1[pos[v], j] = -1
        if j < cut:
            A2[j, pos[v]], A3[j, j] = 1 + c.cx() * 0.2, 1
        else:
            A2[j, pos[v]], A3[j, j] = 1, 1 + c.cx() * 0.2
    b = {"n": n, "Ac": Ac, "Am": Am, "A_src": tuple(sps.csc_matrix(x) for x in (A1, A2, A3)), "A1": A1, "A2": A2, "A3": A3,
         "Rc": np.array([c.f(0.5, 2) + 0.3j * c.f(-1, 1) for _ in fc], complex).reshape(-1), "Rm": np.array([c.f(0.5, 2) + 0.3j * c.f(-1, 1) for _ in fm], complex).reshape(-1),
         "f": c.pick([0, 0.0, c.f(0.05, 0.5)]), "nfc": len(fc), "nfm": len(fm), "nvc": nc, "nvm": len(im), "ns": ns}
    c.note(n=n, idx_vc=ic, idx_vm=im, sources=src, n_current=cut, freq=b["f"])
    return b


def dense(b, L, P, K):
    s = 2j * np.pi * b["f"]
    nfc, nvc, ns, nfm, nvm = b["nfc"], b["nvc"], b["ns"], b["nfm"], b["nvm"]
    Ac, Am = b["Ac"].toarray(), b["Am"].toarray()
    Z = np.zeros
    Mc = np.block([[np.diag(b["Rc"]) + s * L, -Ac.T, Z((nfc, ns))], [Ac, Z((nvc, nvc)), b["A1"]], [Z((ns, nfc)), b["A2"], b["A3"]]])
    Mm = np.block([[np.diag(b["Rm"]), -Am.T], [P @ Am, np.eye(nvm)]])
    Kc = np.zeros((nfc + nvc + ns, nfm + nvm), complex)
    Kc[:nfc, :nfm] = s * K
    Km = np.zeros((nfm + nvm, nfc + nvc + ns), complex)
    Km[:nfm, :nfc] = -K.T
    return Mc, Mm, Kc, Km


@contract("equation_system.get_system_operator/get_coupling_operator", "documented equations for any unknowns", 200)
def system(c):
    b = blocks(c)
    L = c.rng.normal(size=(b["nfc"], b["nfc"]))
    P = c.rng.normal(size=(b["nvm"], b["nvm"]))
    K = c.rng.normal(size=(b["nfc"], b["nfm"]))
    Mc, Mm, Kc, Km = dense(b, L, P, K)
    fc, fm = call(ES, "get_system_operator", b["f"], b["Ac"], b["Am"], b["A_src"], b["Rc"], b["Rm"], lambda x: L @ x, lambda x: P @ x)
    kc, km = call(ES, "get_coupling_operator", b["f"], b["Ac"], b["Am"], b["A_src"], lambda x: K @ x, lambda x: K.T @ x)
    x, y = c.cx(Mc.shape[0]), c.cx(Mm.shape[0])
    x0, y0 = x.copy(), y.copy()
    close(fc(x), Mc @ x0, 1e-9, msg="electric equations")
    close(fm(y), Mm @ y0, 1e-9, msg="magnetic equations")
    close(kc(y), Kc @ y0, 1e-9, msg="coupling into the electric equations")
    close(km(x), Km @ x0, 1e-9, msg="coupling into the magnetic equations")
    need(np.array_equal(x, x0) and np.array_equal(y, y0), "unknowns modified")


@contract("equation_system.get_cond_operator", "the preconditioner inverts the equations with diagonal operators", 200)
def pcd(c):
    factorization()
    b = blocks(c)
    scale = 10.0 ** c.pick([0, 0, -4, -3, -2, 2])
    L = np.array([c.f(0.1, 2) * scale for _ in range(b["nfc"])]) if b["nfc"] else float("nan")
    P = c.f(0.1, 2) if b["nvm"] else float("nan")
    Mc, Mm, _, _ = dense(b, np.diag(np.atleast_1d(L)) if b["nfc"] else np.zeros((0, 0)), np.eye(b["nvm"]) * P, np.zeros((b["nfc"], b["nfm"])))
    if np.linalg.cond(Mc) > 1e8 or (b["nvm"] and np.linalg.cond(Mm) > 1e8):
        c.nontrivial = False
        return
    (fc, fm), S = call(ES, "get_cond_operator", b["f"], b["Ac"], b["Am"], b["A_src"], b["Rc"], b["Rm"], L, P)
    u, v = c.cx(Mc.shape[0]), c.cx(Mm.shape[0])
    close(Mc @ fc(u), u, 1e-9 * max(1, np.linalg.cond(Mc) / 1e3), msg="electric preconditioner")
    close(Mm @ fm(v), v, 1e-7, msg="magnetic preconditioner")


@contract("equation_system.get_system_sol_idx", "layout of the unknowns is the layout of the equations", 100)
def layout(c):
    b = blocks(c)
    idx = call(ES, "get_system_sol_idx", b["Ac"], b["Am"], b["A_src"])
    o = 0
    for k, m in (("I_fc", b["nfc"]), ("V_vc", b["nvc"]), ("I_src", b["ns"]), ("I_fm", b["nfm"]), ("V_vm", b["nvm"])):
        need(list(idx[k]) == list(range(o, o + m)), "range of " + k, list(idx[k]), (o, m))
        o += m
    sol = c.cx(o)
    r = call("lib_solver.extract_solution", "get_sol_extract", sol, idx)
    o = 0
    for k, v in zip(("I_fc", "V_vc", "I_fm", "V_vm", "I_src"), r):
        same(v, sol[list(idx[k])], "split " + k)


@contract("equation_solver.get_solver", "both sides are combined; an exact preconditioner needs one step", 60)
def combine(c):
    nc, nm = c.i(1, 12), c.i(0, 12)
    A, B = np.eye(nc) * 4 + c.cx(nc * nc).reshape(nc, nc) / nc, np.eye(nm) * 4 + c.cx(nm * nm).reshape(nm, nm) / max(1, nm)
    couple = c.p(0.5)
    K1, K2 = (c.cx(nc * nm).reshape(nc, nm) / 10, c.cx(nc * nm).reshape(nm, nc) / 10) if couple else (np.zeros((nc, nm)), np.zeros((nm, nc)))
    Ai, Bi = np.linalg.inv(A), np.linalg.inv(B) if nm else B
    r = (c.cx(nc), c.cx(nm))
    c.note(n_electric=nc, n_magnetic=nm, coupled=couple)
    so = prob.tolerance()["solver_options"]
    out = call("lib_solver.equation_solver", "get_solver", None, (lambda y: K1 @ y, lambda x: K2 @ x), (lambda x: A @ x, lambda y: B @ y),
               (lambda x: Ai @ x, lambda y: Bi @ y), r, lambda s: complex(np.sum(s)), so)
    sol, res = out[0], out[1]
    M = np.block([[A, K1], [K2, B]])
    b = np.concatenate(r)
    close(sol, np.linalg.solve(M, b), 1e-6, msg="solution of the combined system")
    close(res, M @ sol - b, atol=1e-12 * np.max(np.abs(b)) * (nc + nm) * 10, msg="residuum")
    need(out[3] is True, "not converged")
    if not couple:
        need(out[4]["n_sys_eval"] <= 6, "an exact preconditioner needs more than one step", out[4]["n_sys_eval"])


@contract("run.solver.run", "solution and residuum of the documented equations", 20)
def whole(c):
    case = prob.random_problem(c, 3, dense=True)
    rough = c.p(0.5)
    c.note(rough=rough, **case["note"])
    y = oracle.solve(case)
    tol = prob.tolerance()
    if rough:                         # a solution that is not converged: the residuum shows the equations
        tol["solver_options"]["direct_options"].update(n_inner=1, n_outer=1)
        tol["solver_options"]["tolerance_options"].update(ignore_status=True, ignore_res=True)
    r = prob.solve(case, tol)["data_sweep"]["sim"]
    F, V, S, H, U = y["slices"]
    if not rough:
        close(r["var"]["V_c"]["var"], y["x"][V], atol=1e-6, msg="electric potential")
        close(r["var"]["V_m"]["var"], y["x"][U], atol=1e-6, msg="magnetic potential")
        return
    # magnetic potential equation V + P A I = residuum, balance A I - I_src = residuum
    vol = case["d"][0] * case["d"][1] * case["d"][2]
    v = r["var"]
    close(r["res"][U], v["V_m"]["var"] + y["P"] @ (v["Q_m"]["var"] * vol), atol=1e-6 * (1 + np.max(np.abs(y["b"]))), msg="residuum of the magnetic potential equation")
    src = [k for k in y["src"]]
    bal = v["S_c"]["var"] * vol - r["res"][V]
    pos = {w: k for k, w in enumerate(y["ic"])}
    tot = np.zeros(len(y["ic"]), complex)
    for t, w in prob.spec_geometry(case)["source"].items():
        close(np.sum([bal[pos[q]] for q in w]), r["source"][t]["I"] if w else 0, atol=1e-9, msg="current balance of " + t)
        for q in w:
            tot[pos[q]] = bal[pos[q]]
    close(bal, tot, atol=1e-9, msg="current balance away from the sources")
