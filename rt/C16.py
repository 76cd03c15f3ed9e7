from rt.common import *  # noqa
from rt import prob
import scipy.sparse as sps
import scipy.sparse.linalg as sla

EQ = "lib_solver.equation_solver"


class Counting:
    def __init__(self, f):
        self.f, self.n = f, 0

    def __call__(self, x):
        self.n += 1
        return self.f(x)


def options(c):
    it = {"solver": c.pick(["gmres", "gcrot"]), "rel_tol": c.pick([1e-2, 1e-5, 1e-10]), "abs_tol": 1e-13, "n_inner": c.pick([1, 2, 3, 20]), "n_outer": c.pick([1, 2, 5, 20])}
    seg = {"rel_tol": c.pick([1e-2, 1e-6]), "abs_tol": 1e-13, "n_min": c.i(0, 6), "n_max": c.i(1, 12), "relax_electric": c.pick([1.0, 0.7]), "relax_magnetic": c.pick([1.0, 0.6]),
           "iter_electric_options": dict(it, solver=c.pick(["gmres", "gcrot"])), "iter_magnetic_options": dict(it, rel_tol=c.pick([1e-3, 1e-9]), n_inner=c.pick([1, 20]))}
    if c.p(0.5):                       # accurate inner solutions
        for k in ("iter_electric_options", "iter_magnetic_options"):
            seg[k] = {"solver": "gmres", "rel_tol": 1e-10, "abs_tol": 1e-14, "n_inner": 40, "n_outer": 20}
    return {"coupling": c.pick(["direct", "segregated"]),
            "tolerance_options": {"ignore_status": c.p(0.3), "ignore_res": c.p(0.3), "rel_tol": c.pick([1e-2, 1e-4, 1e-9, 0.0]), "abs_tol": c.pick([1e-14, 1e-4, 0.5])},
            "power_options": {"stop": c.p(0.6), "n_min": c.i(0, 8), "n_cmp": c.i(0, 4), "rel_tol": c.pick([1e-1, 1e-3, 1e-6]), "abs_tol": c.pick([1e-14, 1e-3])},
            "direct_options": it, "segregated_options": seg}


def fires(pw, po):
    """does the power criterion hold after these iterations? None: too close to decide"""
    k = len(pw)
    if not po["stop"] or k < max(2, po["n_cmp"] + 1, po["n_min"]):
        return False
    err = max([abs(pw[-1] - q) for q in pw[-(po["n_cmp"] + 1):-1]], default=0.0)
    thr = max(po["rel_tol"] * abs(pw[-1]), po["abs_tol"])
    if abs(err - thr) <= 1e-9 * thr:
        return None
    return err <= thr


def iterate(op, pc, b, x0, o, cb=None):
    n = len(b)
    if n == 0:                          # nothing to solve: converged
        return x0, True
    A = sla.LinearOperator((n, n), matvec=op, dtype=complex)
    M = sla.LinearOperator((n, n), matvec=pc, dtype=complex)
    if o["solver"] == "gmres":
        x, flag = sla.gmres(A, b, M=M, x0=x0, rtol=o["rel_tol"], atol=o["abs_tol"], restart=o["n_inner"], maxiter=o["n_outer"], callback=cb, callback_type="x")
    else:
        x, flag = sla.gcrotmk(A, b, M=M, x0=x0, rtol=o["rel_tol"], atol=o["abs_tol"], m=o["n_inner"], maxiter=o["n_outer"], callback=cb)
    return x, flag == 0


class Stop(Exception):
    pass


def reference(o, A, B, K1, K2, Ai, Bi, r, x0, conv):
    """documented procedure; returns (solution, convergence flag, powers)"""
    nc = len(r[0])
    pw = []
    po = o["power_options"]

    def step(x):
        pw.append(conv(x))
        f = fires(pw, po)
        if f is None:
            raise Skip2
        if f:
            raise Stop(x.copy())
    try:
        if o["coupling"] == "direct":
            M = np.block([[A, K1], [K2, B]])
            x, ok = iterate(lambda v: M @ v, lambda v: np.concatenate((Ai @ v[:nc], Bi @ v[nc:])), np.concatenate(r), x0, o["direct_options"], step)
            return x, ok, pw
        g = o["segregated_options"]
        xc, xm = x0[:nc], x0[nc:]
        b = np.concatenate(r)
        k = 0
        while True:
            u, ok1 = iterate(lambda v: A @ v, lambda v: Ai @ v, r[0] - K1 @ xm, xc, g["iter_electric_options"])
            xc = (1 - g["relax_electric"]) * xc + g["relax_electric"] * u
            u, ok2 = iterate(lambda v: B @ v, lambda v: Bi @ v, r[1] - K2 @ xc, xm, g["iter_magnetic_options"])
            xm = (1 - g["relax_magnetic"]) * xm + g["relax_magnetic"] * u
            k += 1
            x = np.concatenate((xc, xm))
            res = np.linalg.norm(np.concatenate((A @ xc + K1 @ xm - r[0], B @ xm + K2 @ xc - r[1])))
            thr = max(g["rel_tol"] * np.linalg.norm(b), g["abs_tol"])
            step(x)
            if abs(res - thr) < 1e-6 * thr:
                raise Skip2
            ok = ok1 and ok2 and res <= thr
            if (ok and k >= g["n_min"]) or k >= g["n_max"]:
                return x, ok, pw
    except Stop as e:
        return e.args[0], True, pw


class Skip2(Exception):
    pass


def setup(c):
    nc, nm = c.i(2, 8), c.pick([0, 1, 4, 6])
    sc = c.pick([0.05, 0.4, 1.2])
    A = np.eye(nc) * 3 + c.cx(nc * nc).reshape(nc, nc) / 2
    B = np.eye(nm) * 3 + c.cx(nm * nm).reshape(nm, nm) / 2
    K1, K2 = sc * c.cx(nc * nm).reshape(nc, nm), sc * c.cx(nc * nm).reshape(nm, nc)
    Ai = np.diag(1 / np.diag(A)) if c.p(0.7) else np.linalg.inv(A)
    Bi = np.diag(1 / np.diag(B)) if c.p(0.7) else (np.linalg.inv(B) if nm else B)
    r = (c.cx(nc) * c.pick([1, 1, 0.0]), c.cx(nm))
    if not np.any(np.concatenate(r)):
        r = (c.cx(nc), r[1])
    w = c.cx(nc + nm)
    return A, B, K1, K2, Ai, Bi, r, (lambda x: np.complex128(np.sum(w * x)))


def one(c, coupling):
    o = options(c)
    o["coupling"] = coupling
    A, B, K1, K2, Ai, Bi, r, conv = setup(c)
    nc, nm = len(r[0]), len(r[1])
    x0 = None if c.p(0.6) else c.cx(nc + nm)
    c.note(options=o, n_electric=nc, n_magnetic=nm, initial=x0 is not None)
    try:
        x, ok, pw = reference(o, A, B, K1, K2, Ai, Bi, r, np.zeros(nc + nm, complex) if x0 is None else x0, conv)
    except Skip2:
        c.nontrivial = False
        return
    if not np.all(np.isfinite(x)) or np.linalg.norm(x) > 1e9:
        c.nontrivial = False
        return
    calls = [Counting(lambda v: A @ v), Counting(lambda v: B @ v)]
    x0c = None if x0 is None else x0.copy()
    r0 = freeze(r)
    sol, res, cv, status, st = call(EQ, "get_solver", x0, (lambda y: K1 @ y, lambda y: K2 @ y), (calls[0], calls[1]), (lambda v: Ai @ v, lambda v: Bi @ v), r, conv, o)
    need(x0 is None or np.array_equal(x0, x0c), "initial value modified")
    need(equal_data(r, r0), "excitation modified")
    M = np.block([[A, K1], [K2, B]])
    b = np.concatenate(r)
    close(sol, x, atol=1e-6 * (1 + np.max(np.abs(x))), msg="returned solution")
    close(res, M @ sol - b, atol=1e-10 * (1 + np.max(np.abs(sol))), msg="residuum of the returned solution")
    to = o["tolerance_options"]
    rv, rt = np.linalg.norm(M @ sol - b), max(to["rel_tol"] * np.linalg.norm(b), to["abs_tol"])
    close(st["res_val"], rv, atol=1e-10 * (1 + np.max(np.abs(sol))), msg="reported residuum")
    close(st["res_thr"], rt, 1e-12, msg="reported threshold")
    need(st["n_iter"] == len(pw), "number of iterations", st["n_iter"], len(pw))
    close(np.array(cv["power_vec"]), np.array(pw), atol=1e-6 * (1 + np.max(np.abs(pw), initial=0)), msg="tracked power")
    close(cv["power_final"], conv(sol), atol=1e-9 * (1 + abs(conv(sol))), msg="final power")
    close(cv["power_init"], conv(np.zeros(nc + nm) if x0 is None else x0), 1e-9, msg="initial power")
    need((st["n_dof_electric"], st["n_dof_magnetic"], st["n_dof_total"]) == (nc, nm, nc + nm), "degrees of freedom")
    if coupling == "segregated":
        need(st["n_iter"] <= o["segregated_options"]["n_max"], "more than the maximum number of iterations", st["n_iter"])
    need(0 < st["n_sys_eval"] <= calls[0].n + calls[1].n, "system evaluations", st["n_sys_eval"], calls[0].n, calls[1].n)
    if abs(rv - rt) < 1e-7 * rt:
        return
    spec = (to["ignore_res"] or rv < rt) and (to["ignore_status"] or ok)
    need(status is True or status is False, "status is not a truth value", status)
    need(status == spec and st["status"] == spec, "success reported %s, specified %s" % (status, spec), "residuum", rv, rt, "converged", ok)


for _c in ("direct", "segregated"):
    contract("equation_solver.get_solver", "status, residuum, iterations and power criterion (%s)" % _c, 250)(lambda c, k=_c: one(c, k))


@contract("equation_solver.get_condition", "passes exactly when off or both below the limits", 150)
def condition(c):
    nc, nm = c.i(1, 6), c.i(0, 6)
    A = c.cx(nc * nc).reshape(nc, nc) + 3 * np.eye(nc)
    B = c.cx(nm * nm).reshape(nm, nm) + 3 * np.eye(nm)
    if c.p(0.3):
        A = A @ np.diag([10.0 ** c.i(-4, 0) for _ in range(nc)])
    ca, cb = float(abs(np.linalg.cond(A, 1))), float(abs(np.linalg.cond(B, 1))) if nm else 0.0
    o = {"check": c.p(0.8), "tolerance_electric": float(ca * c.pick([1e-3, 20, 1e6])), "tolerance_magnetic": float((cb or 1.0) * c.pick([1e-3, 20, 1e6])),
         "norm_options": {"t_accuracy": 2, "n_iter_max": 25}}
    c.note(n=(nc, nm), cond=(ca, cb), options=o)
    ok, st = call(EQ, "get_condition", (sps.csc_matrix(A), sps.csc_matrix(B)), o)
    if not o["check"]:
        need(ok is True and st["status"] is True, "switched off check fails", ok)
        return
    e, m = st["cond_electric"], st["cond_magnetic"]
    need(0.1 * ca <= e <= ca * (1 + 1e-9), "electric condition number", e, ca)
    need(0.1 * cb <= m <= cb * (1 + 1e-9), "magnetic condition number", m, cb)
    spec = e < o["tolerance_electric"] and m < o["tolerance_magnetic"]
    need(ok == spec and st["status"] == spec, "condition check reports %s, specified %s" % (ok, spec), e, m)


@contract("run.solver.run", "overall success requires every check of every sweep", 14)
def whole(c):
    case = prob.random_problem(c, 3, dense=True)
    c.note(**case["note"])
    tol = prob.tolerance()
    mode = c.k % 5
    p1 = {"freq": case["freq"], "material_val": case["material_val"], "source_val": case["source_val"]}
    p2 = dict(p1, freq=case["freq"] + 1e4)
    sweeps = {"b": {"init": None, "param": p1}, "a": {"init": "b", "param": p2}, "z": {"init": None, "param": dict(p1)}}
    bad_c = bad_s = None
    if mode == 1:
        tol["condition_options"]["tolerance_electric"] = 1e-9
    if mode == 2:
        tol["solver_options"]["tolerance_options"].update(rel_tol=0.0, abs_tol=0.0)
    if mode == 3:
        tol["condition_options"]["check"] = False
    if mode == 4:                    # only one of the sweeps misses the tolerance
        zero = {t: {k: (0.0 if not isinstance(v, list) else [0.0] * len(v)) if k[0] in "IV" else v for k, v in s.items()} for t, s in case["source_val"].items()}
        if case["source_val"]:
            sweeps = {"z": {"init": None, "param": dict(p1, source_val=zero)}, "b": {"init": None, "param": p1}, "a": {"init": None, "param": dict(p1, source_val=zero)}}
        tol["solver_options"]["direct_options"].update(n_inner=1, n_outer=1, rel_tol=0.0, abs_tol=1e-30)
        tol["solver_options"]["tolerance_options"].update(ignore_status=True, rel_tol=0.0, abs_tol=1e-22)
    r = prob.solve(case, tol, sweeps)
    al = True
    for t, s in r["data_sweep"].items():
        so, co = s["solver_ok"], s["condition_ok"]
        need(s["has_converged"] == (so and co), "sweep success", s["has_converged"], so, co)
        need(so == s["solver_status"]["status"] and co == s["condition_status"]["status"], "status dictionaries")
        st, to = s["solver_status"], tol["solver_options"]["tolerance_options"]
        close(st["res_val"], np.linalg.norm(s["res"]), 1e-9, msg="reported residuum")
        if so and not to["ignore_res"]:
            need(st["res_val"] < st["res_thr"], "success in spite of the residuum", st["res_val"], st["res_thr"])
        al = al and so and co
    need(r["status"] == al, "overall status", r["status"], al)
    if mode in (1, 2):
        need(not r["status"], "a failed check is reported as success")
