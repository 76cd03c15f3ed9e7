from rt.common import *  # noqa
from rt import gen, prob, oracle

PV = "lib_solver.problem_value"
PG = "lib_solver.problem_geometry"
ES = "lib_solver.equation_system"


def indices(case):
    dom = {t: np.array(v, dtype=np.int64) for t, v in case["domains"].items()}
    sc, sv, si = call(PG, "get_source_idx", case["source_def"], dom)
    ic = np.array(prob.spec_geometry(case)["idx_vc"], dtype=np.int64)
    return ic, sc, sv, call(PG, "get_source_pos", si, ic, sc, sv)


@contract("problem_value.get_source_value/get_source_vector", "values and elements per source voxel", 200)
def vector(c):
    case = prob.random_values(c, prob.random_layout(c, 3))
    c.note(**case["note"])
    val = case["source_val"]
    if c.p(0.3):
        val = {t: {k: (np.array(x) if isinstance(x, list) else x) for k, x in v.items()} for t, v in val.items()}
    val0 = freeze(val)
    ic, sc, sv, si = indices(case)
    al = call(PV, "get_source_value", val, si)
    spec = oracle.spec_sources(case)
    for kind in ("current", "voltage"):
        v, e = call(PV, "get_source_vector", al, kind)
        close(v, np.array([x[2] for x in spec if x[1] == kind], dtype=complex), 1e-12, msg=kind + " value")
        close(e, np.array([x[3] for x in spec if x[1] == kind], dtype=complex), 1e-12, msg=kind + " element")
    need(equal_data(val, val0), "the given values were modified")


@contract("problem_value.get_source_value", "data of wrong length are rejected", 150)
def reject(c):
    case = prob.random_values(c, prob.random_layout(c, 3))
    sp = prob.spec_geometry(case)
    val = freeze(case["source_val"])
    ts = [t for t, m in case["source_def"].items() if m["var_type"] == "distributed"]
    if not ts:
        c.nontrivial = False
        return
    t = c.pick(ts)
    k = c.pick(list(val[t]))
    n = len(sp["source"][t])
    ks = [k] if c.p() else list(val[t])          # one wrong vector, or all of them
    short_ = c.p() and n > 0
    for k in ks:
        val[t][k] = val[t][k][:-1] if short_ else val[t][k] + [0.5]
    c.note(source=t, definition=case["source_def"][t], keys=ks, n_voxel=n)
    si = indices(case)[3]
    f, g = fn(PV, "get_source_value"), fn(PV, "get_source_vector")
    try:
        al = f(val, si)
        g(al, "current")
        g(al, "voltage")
    except Exception:
        return
    raise Fail("data of wrong length accepted")


@contract("problem_value.get_source_value", "missing sources are rejected", 30)
def missing(c):
    case = prob.random_values(c, prob.random_layout(c, 3))
    val = freeze(case["source_val"])
    val.pop(c.pick(list(val)))
    c.note(n=case["n"], source_def=case["source_def"])
    raises(PV, "get_source_value", val, indices(case)[3])


@contract("equation_system.get_source_matrix", "source equations and balance entries", 200)
def matrix(c):
    nv = c.i(1, 40)
    ic = c.subset(nv, 1)
    src = c.rng.permutation(ic)[: c.i(1, len(ic))]
    cut = c.i(0, len(src))
    sc, sv = src[:cut], src[cut:]
    Y, Z = c.cx(len(sc)), c.cx(len(sv))
    c.note(idx_vc=ic, idx_src_c=sc, idx_src_v=sv, Y=Y, Z=Z)
    a, b, m = call(ES, "get_source_matrix", ic, sc, sv, Y, Z)
    pos = {int(v): k for k, v in enumerate(ic)}
    n, k = len(ic), len(src)
    A, B, M = np.zeros((n, k), complex), np.zeros((k, n), complex), np.zeros((k, k), complex)
    for j, v in enumerate(src):
        p = pos[int(v)]
        A[p, j] = -1
        if j < cut:
            M[j, j], B[j, p] = 1, Y[j]
        else:
            M[j, j], B[j, p] = Z[j - cut], 1
    close(a.toarray(), A, msg="current balance")
    close(b.toarray(), B, msg="source equations, voltage part")
    close(m.toarray(), M, msg="source equations, current part")


@contract("equation_system.get_source_vector", "excitation vector", 100)
def rhs(c):
    n = [c.i(0, 8) for _ in range(4)]
    I, V = c.cx(c.i(0, 5)), c.cx(c.i(0, 5))
    c.note(n=n, I=I, V=V)
    a, b = call(ES, "get_source_vector", *[np.arange(k) for k in n], I, V)
    same(a, np.concatenate((np.zeros(n[0] + n[2], complex), I, V)), "electric excitation")
    same(b, np.zeros(n[1] + n[3], complex), "magnetic excitation")


@contract("run.solver.run", "every terminal of the solution obeys its source equation", 20)
def whole(c):
    case = prob.random_problem(c, 3, dense=True)
    c.note(**case["note"])
    r = prob.solve(case)["data_sweep"]["sim"]
    y = oracle.solve(case)
    for t, v in y["source"].items():
        for k in "VI":
            close(r["source"][t][k], v[k], atol=1e-6, msg="terminal %s of %s" % (k, t))
    # documented equations of the lumped sources, on the reported terminal values
    for t, m in case["source_def"].items():
        x = case["source_val"][t]
        if m["var_type"] != "lumped" or not y["source"][t]["I"] and not prob.spec_geometry(case)["source"][t]:
            continue
        V, I = r["source"][t]["V"], r["source"][t]["I"]
        if m["source_type"] == "current":
            close(I + (x["Y_re"] + 1j * x["Y_im"]) * V, x["I_re"] + 1j * x["I_im"], atol=1e-6, msg="I + Y V")
        else:
            close(V + (x["Z_re"] + 1j * x["Z_im"]) * I, x["V_re"] + 1j * x["V_im"], atol=1e-6, msg="V + Z I")
