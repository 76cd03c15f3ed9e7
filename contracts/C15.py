"""The solved equations are the documented circuit equations."""
from contracts.common import *  # noqa

ES = "pypeec.lib_solver.equation_system"
EQ = "pypeec.lib_solver.equation_solver"
MF = "pypeec.lib_matrix.matrix_factorization"
S = Cx(0, s_mul(2, PI))


class System:
    """matrices of any content: incidence matrices, source matrices, resistances, dense operators"""

    def __init__(self, v):
        self.v = v
        self.nvc, self.nfc, self.ns = v.int("n_vc", lo=0), v.int("n_fc", lo=0), v.int("n_src", lo=0)
        self.nvm, self.nfm = v.int("n_vm", lo=0), v.int("n_fm", lo=0)
        m = lambda name, a, b, kind: v.array(name, (a, b), kind, sparse=True)  # noqa
        self.Ac, self.Am = m("A_net_c", self.nvc, self.nfc, "float"), m("A_net_m", self.nvm, self.nfm, "float")
        self.vs, self.sv, self.ss = m("A_vc_src", self.nvc, self.ns, "complex"), m("A_src_vc", self.ns, self.nvc, "complex"), m("A_src_src", self.ns, self.ns, "complex")
        self.src = (self.vs, self.sv, self.ss)
        self.Rc, self.Rm = v.array("R_c", self.nfc, "complex"), v.array("R_m", self.nfm, "complex")
        self.f = v.real("freq", lo=0)
        self.s = s_mul(S, self.f)

    def op(self, name, n_in, n_out):
        """an operator: its result is a function of the operand; every application is recorded"""
        calls = []

        def run(ip, args, kwargs):
            x = args[0]
            self.v.prove("operand of %s: size" % name, b_and(x.ndim == 1, s_eq(A.ax_len(x.axes[0]), n_in)))
            y = self.v.array(name + "_x", n_out, "complex")
            calls.append((x, y))
            return y
        return Builtin(name, run), calls

    def same(self, clause, got, axis, fn):
        self.v.equal_arr(clause, got, [Range(axis)], fn)

    def dot(self, m, i, x):
        """row i of a matrix times a vector"""
        return A.sum_over([m.axes[1]], lambda j: s_mul(m.fn(i, j), x(j)))

    def tdot(self, m, j, x):
        return A.sum_over([m.axes[0]], lambda i: s_mul(m.fn(i, j), x(i)))


def electric_vector(v, m, name):
    g = [v.fun(name + k, 1, "complex") for k in ("_fc", "_vc", "_src")]
    n1, n2 = m.nfc, s_add(m.nfc, m.nvc)
    x = v.array(name, s_add(n2, m.ns), "complex")
    return x, [lambda i: x.fn(i), lambda i: x.fn(s_add(n1, i)), lambda i: x.fn(s_add(n2, i))]


def magnetic_vector(v, m, name):
    x = v.array(name, s_add(m.nfm, m.nvm), "complex")
    return x, [lambda i: x.fn(i), lambda i: x.fn(s_add(m.nfm, i))]


@spec("equation_system.get_system_operator: electric", [ES + ":get_system_operator", ES + ":_get_system_multiply_electric"])
def system_electric(v):
    m = System(v)
    L, calls = m.op("L", m.nfc, m.nfc)
    r = v.call(ES, "get_system_operator", m.f, m.Ac, m.Am, m.src, m.Rc, m.Rm, L, Opaque("P_op"))
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    x, (I, V_, Is) = electric_vector(v, m, "sol")
    y = v.call(r[0], x)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    dc = v.branch(s_eq(m.f, 0), "zero frequency")
    if not dc:
        v.prove("the inductance operator is used once", len(calls) == 1)
        if len(calls) != 1:
            return
        m.same("operand of the inductance operator: the face currents", calls[0][0], m.nfc, I)
    ind = (lambda i: 0) if dc else (lambda i: s_mul(m.s, calls[0][1].fn(i)))
    rows(v, "electric equations", y, [
        (m.nfc, lambda i: s_sub(s_add(s_mul(m.Rc.fn(i), I(i)), ind(i)), m.tdot(m.Ac, i, V_)), "R I + s L I - A^T V"),
        (m.nvc, lambda i: s_add(m.dot(m.Ac, i, I), m.dot(m.vs, i, Is)), "A I plus the source currents"),
        (m.ns, lambda i: s_add(m.dot(m.sv, i, V_), m.dot(m.ss, i, Is)), "source equations"),
    ])


@spec("equation_system.get_system_operator: magnetic", [ES + ":get_system_operator", ES + ":_get_system_multiply_magnetic"])
def system_magnetic(v):
    m = System(v)
    P, calls = m.op("P", m.nvm, m.nvm)
    r = v.call(ES, "get_system_operator", m.f, m.Ac, m.Am, m.src, m.Rc, m.Rm, Opaque("L_op"), P)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    x, (I, V_) = magnetic_vector(v, m, "sol")
    y = v.call(r[1], x)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("the potential operator is used once", len(calls) == 1)
    if len(calls) != 1:
        return
    m.same("operand of the potential operator: the outflow of the voxels", calls[0][0], m.nvm, lambda i: m.dot(m.Am, i, I))
    rows(v, "magnetic equations", y, [
        (m.nfm, lambda i: s_sub(s_mul(m.Rm.fn(i), I(i)), m.tdot(m.Am, i, V_)), "R I - A^T V"),
        (m.nvm, lambda i: s_add(V_(i), calls[0][1].fn(i)), "V + P A I"),
    ])


@spec("equation_system.get_coupling_operator", [ES + ":get_coupling_operator", ES + ":_get_coupling_electric", ES + ":_get_coupling_magnetic", ES + ":_get_system_size"])
def coupling(v):
    m = System(v)
    Kc, cc = m.op("K_c", m.nfm, m.nfc)
    Km, cm = m.op("K_m", m.nfc, m.nfm)
    r = v.call(ES, "get_coupling_operator", m.f, m.Ac, m.Am, m.src, Kc, Km)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    xe, (I, _, _) = electric_vector(v, m, "sol_c")
    xm, (Im, _) = magnetic_vector(v, m, "sol_m")
    y = v.call(r[0], xm)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    dc = v.branch(s_eq(m.f, 0), "zero frequency")
    if not dc:
        v.prove("the coupling operator is used once", len(cc) == 1)
        if len(cc) != 1:
            return
        m.same("operand of the electric coupling: the magnetic fluxes", cc[0][0], m.nfm, Im)
    rows(v, "electric side", y, [
        (m.nfc, (lambda i: Cx(0, 0)) if dc else (lambda i: s_mul(m.s, cc[0][1].fn(i))), "s K I_m"),
        (m.nvc, lambda i: Cx(0, 0), "no coupling of the balance"),
        (m.ns, lambda i: Cx(0, 0), "no coupling of the sources"),
    ])
    y = v.call(r[1], xe)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("the transposed coupling operator is used once", len(cm) == 1)
    if len(cm) != 1:
        return
    m.same("operand of the magnetic coupling: the electric currents", cm[0][0], m.nfc, I)
    rows(v, "magnetic side", y, [
        (m.nfm, lambda i: s_neg(cm[0][1].fn(i)), "minus the transposed coupling of the electric currents"),
        (m.nvm, lambda i: Cx(0, 0), "no coupling of the balance"),
    ])


class Factor:
    """contract of a factorization of a matrix S: the solution y of a right-hand side x has S y = x"""

    def __init__(self, v):
        self.v = v
        self.made = []

    def build(self, *args):
        name, mat = args

        class F:
            pass
        f = F()
        f.mat = mat
        self.v.prove("the factorized matrix is square", b_and(mat.ndim == 2, s_eq(A.ax_len(mat.axes[0]), A.ax_len(mat.axes[1]))))
        self.made.append(f)
        return f

    def solve(self, *args):
        f, rhs = args
        mat, v = f.mat, self.v
        v.prove("right-hand side of the factorized system: size", s_eq(A.ax_len(rhs.axes[0]), A.ax_len(mat.axes[0])))
        g = v.fun("solution", len(A.ivars_of(A.cases(mat.axes[1])[0])) if False else 1, "complex")
        ax = mat.axes[1]
        y = Arr((ax,), lambda i: g(A.index_to_pos(ax, i)), "complex")
        cv = A.index_map(mat.axes[0], rhs.axes[0])
        f.rhs, f.sol = rhs, y
        f.eq = lambda i: s_eq(A.sum_over([ax], lambda j: s_mul(mat.fn(i, j), y.fn(j))), rhs.fn(i if cv is None else cv(i)))
        return y


def regular(x):
    return b_not(b_and(s_eq(x.re, 0), s_eq(x.im, 0)))


@spec("equation_system.get_cond_operator: electric", [ES + ":get_cond_operator", ES + ":_get_cond_fact_electric", ES + ":_get_cond_solve"])
def cond_electric(v):
    m = System(v)
    Lc = v.array("L_c", m.nfc, "complex")
    Z = lambda i: s_add(m.Rc.fn(i), s_mul(m.s, Lc.fn(i)))  # noqa
    v.assume(A.forall(Range(m.nfc), lambda i: regular(to_cx(Z(i)))))
    fac = Factor(v)
    v.override(MF + ":get_factorize", fac.build)
    v.override(MF + ":get_solve", fac.solve)
    r = v.call(ES, "get_cond_operator", m.f, m.Ac, m.Am, m.src, m.Rc, m.Rm, Lc, v.real("P_m"))
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    (fct, mats) = r
    v.prove("two factorizations", len(fac.made) == 2)
    v.prove("the reduced matrices are returned", mats[0] is fac.made[0].mat and mats[1] is fac.made[1].mat)
    b, (ba, bv, bs) = electric_vector(v, m, "rhs")
    y = v.call(fct[0], b)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    fe = fac.made[0]
    n2 = s_add(m.nfc, m.nvc)
    at = lambda k: y.fn(A.pos_to_index(y.axes[0], k))  # noqa
    I, V_, Is = (lambda i: at(i)), (lambda i: at(s_add(m.nfc, i))), (lambda i: at(s_add(n2, i)))
    v.prove("the solution has the size of the right-hand side", s_eq(A.ax_len(y.axes[0]), s_add(n2, m.ns)))
    for i in v.each(Range(m.nfc)):
        v.prove("(R + s L) I - A^T V = rhs", s_eq(s_sub(s_mul(Z(i), I(i)), m.tdot(m.Ac, i, V_)), ba(i)))
    for i in v.each(Range(m.nvc)):
        v.assume(fe.eq(A.pos_to_index(fe.mat.axes[0], i)))
        v.prove("A I plus the source currents = rhs", s_eq(s_add(m.dot(m.Ac, i, I), m.dot(m.vs, i, Is)), bv(i)))
    for i in v.each(Range(m.ns)):
        v.assume(fe.eq(A.pos_to_index(fe.mat.axes[0], s_add(m.nvc, i))))
        v.prove("source equations = rhs", s_eq(s_add(m.dot(m.sv, i, V_), m.dot(m.ss, i, Is)), bs(i)))


@spec("equation_system.get_cond_operator: magnetic", [ES + ":get_cond_operator", ES + ":_get_cond_fact_magnetic", ES + ":_get_cond_solve"])
def cond_magnetic(v):
    m = System(v)
    P = v.real("P_m")
    v.assume(A.forall(Range(m.nfm), lambda i: regular(to_cx(m.Rm.fn(i)))))
    v.assume(A.forall(Range(m.nfc), lambda i: regular(to_cx(m.Rc.fn(i)))))
    fac = Factor(v)
    v.override(MF + ":get_factorize", fac.build)
    v.override(MF + ":get_solve", fac.solve)
    Lc = v.array("L_c", m.nfc, "complex")
    v.assume(A.forall(Range(m.nfc), lambda i: regular(to_cx(s_add(m.Rc.fn(i), s_mul(m.s, Lc.fn(i)))))))
    r = v.call(ES, "get_cond_operator", m.f, m.Ac, m.Am, m.src, m.Rc, m.Rm, Lc, P)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    (fct, mats) = r
    b, (ba, bv) = magnetic_vector(v, m, "rhs")
    y = v.call(fct[1], b)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    fm = fac.made[1]
    at = lambda k: y.fn(A.pos_to_index(y.axes[0], k))  # noqa
    I, V_ = (lambda i: at(i)), (lambda i: at(s_add(m.nfm, i)))
    v.prove("the solution has the size of the right-hand side", s_eq(A.ax_len(y.axes[0]), s_add(m.nfm, m.nvm)))
    for i in v.each(Range(m.nfm)):
        v.prove("R I - A^T V = rhs", s_eq(s_sub(s_mul(m.Rm.fn(i), I(i)), m.tdot(m.Am, i, V_)), ba(i)))
    for i in v.each(Range(m.nvm)):
        v.assume(fm.eq(A.pos_to_index(fm.mat.axes[0], i)))
        v.prove("V + P A I = rhs", s_eq(s_add(V_(i), s_mul(P, m.dot(m.Am, i, I))), bv(i)))


@spec("equation_system.get_system_sol_idx", [ES + ":get_system_sol_idx", ES + ":_get_system_size"])
def layout(v):
    m = System(v)
    r = v.call(ES, "get_system_sol_idx", m.Ac, m.Am, m.src)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    want = [("I_fc", m.nfc), ("V_vc", m.nvc), ("I_src", m.ns), ("I_fm", m.nfm), ("V_vm", m.nvm)]
    v.prove("exactly the variables", set(r) == {k for k, _ in want})
    off = 0
    for k, n in want:
        a = Arr((r[k].axis,), r[k].elem, "int") if isinstance(r[k], SList) else A.as_arr(r[k])
        v.equal_arr("positions of " + k, a, [Range(n)], lambda i: s_add(off, i))
        off = s_add(off, n)


@spec("equation_solver._fct_sys_all", [EQ + ":_fct_sys_all"])
def combine_system(v):
    nc, nm = v.int("n_c", lo=0), v.int("n_m", lo=0)
    rhs = (v.array("rhs_c", nc, "complex"), v.array("rhs_m", nm, "complex"))
    sol = v.array("sol", s_add(nc, nm), "complex")
    calls = {}

    def op(name, n_in, n_out):
        def run(ip, args, kwargs):
            y = v.array(name, n_out, "complex")
            v.prove("%s is applied once" % name, name not in calls)
            calls[name] = (args[0], y)
            return y
        return Builtin(name, run)
    r = v.call(EQ, "_fct_sys_all", sol, rhs, (op("cpl_c", nm, nc), op("cpl_m", nc, nm)), (op("sys_c", nc, nc), op("sys_m", nm, nm)))
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("all the operators are applied", set(calls) == {"cpl_c", "cpl_m", "sys_c", "sys_m"})
    if len(calls) != 4:
        return
    for k in ("sys_c", "cpl_m"):
        v.equal_arr("operand of %s: electric part" % k, calls[k][0], [Range(nc)], lambda i: sol.fn(i))
    for k in ("sys_m", "cpl_c"):
        v.equal_arr("operand of %s: magnetic part" % k, calls[k][0], [Range(nm)], lambda i: sol.fn(s_add(nc, i)))
    rows(v, "result", r, [(nc, lambda i: s_add(calls["sys_c"][1].fn(i), calls["cpl_c"][1].fn(i)), "electric equations plus coupling"),
                          (nm, lambda i: s_add(calls["sys_m"][1].fn(i), calls["cpl_m"][1].fn(i)), "magnetic equations plus coupling")])


@spec("equation_solver._fct_pcd_all", [EQ + ":_fct_pcd_all"])
def combine_cond(v):
    nc, nm = v.int("n_c", lo=0), v.int("n_m", lo=0)
    rhs = (v.array("rhs_c", nc, "complex"), v.array("rhs_m", nm, "complex"))
    x = v.array("x", s_add(nc, nm), "complex")
    calls = {}

    def op(name, n):
        def run(ip, args, kwargs):
            y = v.array(name, n, "complex")
            v.prove("%s is applied once" % name, name not in calls)
            calls[name] = (args[0], y)
            return y
        return Builtin(name, run)
    r = v.call(EQ, "_fct_pcd_all", x, rhs, (op("pcd_c", nc), op("pcd_m", nm)))
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("both preconditioners are applied", set(calls) == {"pcd_c", "pcd_m"})
    if len(calls) != 2:
        return
    v.equal_arr("operand of the electric preconditioner", calls["pcd_c"][0], [Range(nc)], lambda i: x.fn(i))
    v.equal_arr("operand of the magnetic preconditioner", calls["pcd_m"][0], [Range(nm)], lambda i: x.fn(s_add(nc, i)))
    rows(v, "result", r, [(nc, lambda i: calls["pcd_c"][1].fn(i), "electric part"), (nm, lambda i: calls["pcd_m"][1].fn(i), "magnetic part")])


class Solver:
    """object of a solver library: solve(rhs) with the matrix it was made for"""
    __vc_methods__ = ("solve",)

    def __init__(self, v, mat):
        self.v, self.mat, self.args = v, mat, []

    def solve(self, rhs, **kwargs):
        self.args.append(rhs)
        self.res = self.v.array("x", self.mat.axes[1].n, "complex")
        return self.res


def options(lib):
    return {"library": lib, "pyamg_options": {"tol": 1e-6, "solver": "root", "krylov": Opaque("krylov")}, "pardiso_options": {"thread_pardiso": 1, "thread_mkl": 1}}


@spec("matrix_factorization.get_factorize", [MF + ":set_options", MF + ":get_factorize", MF + ":_get_factorize_sub", MF + ":_get_fact_superlu", MF + ":_get_fact_pyamg", MF + ":get_solve"])
def factorization(v):
    n = v.int("n", lo=0)
    mat = v.array("S", (n, n), "complex", sparse=True)
    lib = "SuperLU" if v.branch(v.bool("superlu"), "SuperLU") else "PyAMG"
    made = []

    def build(ip, args, kwargs):
        made.append(Solver(v, args[0]))
        return made[-1]
    path = {"SuperLU": "scipy.sparse.linalg.splu", "PyAMG": "pyamg.aggregation.rootnode_solver"}[lib]
    v.override(path, lambda *args, **kw: build(None, args, kw))
    v.override("warnings.filterwarnings", lambda *args, **kw: None)
    v.call(MF, "set_options", options(lib))
    v.prove("no error", v.raised is None)
    f = v.call(MF, "get_factorize", "electric", mat)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    rhs = v.array("rhs", n, "complex")
    y = v.call(MF, "get_solve", f, rhs)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    if v.branch(s_eq(n, 0), "empty system"):
        v.prove("empty solution of an empty system", s_eq(A.ax_len(y.axes[0]), 0))
        return
    v.prove("one factorization of the library", len(made) == 1)
    if len(made) != 1:
        return
    m = made[0]
    v.prove("one solution with the factorized matrix", len(m.args) == 1 and y is m.res)
    v.equal_arr("the given matrix is factorized", m.mat, [Range(n), Range(n)], lambda i, j: mat.fn(i, j))
    v.equal_arr("the given right-hand side is used", m.args[0], [Range(n)], lambda i: rhs.fn(i))


from contracts.wiring import solver_spec  # noqa: E402


def _system(s, w, r, d, i, p, t):
    got = [x for x in w.calls if x.name == "get_solver"]
    s.v.prove("the system is solved once", len(got) == 1)
    for x in got:
        for k, name in enumerate(("sol_init", "fct_cpl", "fct_sys", "fct_pcd")):
            if name in t:
                w.check("%s: of the documented data" % name, x.args[k], t[name])
    w.check("the solution is split with the layout of the system", [x for x in w.calls if x.name == "get_sol_extract"], [T("get_sol_extract", t["solver"][0], t["sol_idx"])])


from contracts.wiring import T  # noqa: E402
solver_spec("sweep", _system)
