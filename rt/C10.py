from rt.common import *  # noqa
from rt import gen, prob, oracle
import scipy.sparse as sps

PV = "lib_solver.problem_value"
PG = "lib_solver.problem_geometry"


def indices(case):
    dom = {t: np.array(v, dtype=np.int64) for t, v in case["domains"].items()}
    ic, im, mi = call(PG, "get_material_idx", case["material_def"], dom)
    return ic, im, call(PG, "get_material_pos", mi, ic, im)


@contract("problem_value.get_material_value/get_material_vector", "complex resistivities per voxel and axis", 200)
def vector(c):
    case = prob.random_values(c, prob.random_layout(c, 3))
    c.note(**case["note"])
    val = case["material_val"]
    if c.p(0.3):                       # numeric arrays are accepted like lists
        val = {t: {k: (np.array(x) if isinstance(x, list) else x) for k, x in v.items()} for t, v in val.items()}
    val0 = freeze(val)
    ic, im, mi = indices(case)
    al = call(PV, "get_material_value", val, mi)
    rc, rm = call(PV, "get_material_vector", al)
    src, srm = oracle.spec_resistivity(case)
    close(rc, src, 1e-9, msg="electric resistivity")
    close(rm, srm, 1e-7, msg="magnetic resistivity")
    need(equal_data(val, val0), "the given values were modified")


@contract("problem_value.get_material_value", "data of wrong length or shape are rejected", 150)
def reject(c):
    case = prob.random_values(c, prob.random_layout(c, 3))
    sp = prob.spec_geometry(case)
    val = freeze(case["material_val"])
    ts = [t for t in case["material_def"] if len(sp["material"][t]) > 0]
    t = c.pick(ts)
    m = case["material_def"][t]
    k = c.pick(list(val[t]))
    x = val[t][k]
    if m["var_type"] == "lumped" and m["orientation_type"] == "isotropic":
        c.nontrivial = False
        return
    n = len(sp["material"][t])
    if m["var_type"] == "lumped":                       # one value per axis
        val[t][k] = x[:2] if c.p() else x + [1.0]
    elif m["orientation_type"] == "isotropic":
        val[t][k] = x[:-1] if (c.p() and n > 1) else x + [1.0]
    else:
        r = c.i(0, 4)
        y = [v for row in x for v in row]
        if r == 3 and n != 3:
            val[t][k] = [y[j * n:(j + 1) * n] for j in range(3)]          # transposed
        elif r == 4:
            val[t][k] = y                                                   # flat
        else:
            r = min(r, 2)
            val[t][k] = ([row for row in x[:-1]] if n > 1 else x + x) if r == 0 else (x + [x[0]] if r == 1 else [row[:2] for row in x])
    c.note(n=case["n"], material=t, definition=m, key=k, value=val[t][k], n_voxel=n)
    ic, im, mi = indices(case)
    f = fn(PV, "get_material_value")
    g = fn(PV, "get_material_vector")
    try:
        g(f(val, mi))
    except Exception:
        return
    raise Fail("data of wrong length accepted")


@contract("problem_value.get_material_value", "missing materials are rejected", 30)
def missing(c):
    case = prob.random_values(c, prob.random_layout(c, 3))
    val = freeze(case["material_val"])
    val.pop(c.pick(list(val)))
    c.note(n=case["n"], material_def=case["material_def"])
    raises(PV, "get_material_value", val, indices(case)[2])


@contract("problem_value.get_resistance_vector", "mean resistivity times length over cross section", 200)
def resistance(c):
    n, d, _ = gen.grid(c, 4)
    nv = n[0] * n[1] * n[2]
    idx = c.subset(nv, 0)
    fc = gen.faces(n, idx)
    pos = {int(v): k for k, v in enumerate(idx)}
    A = np.zeros((len(idx), len(fc)))
    for k, (a, lo, hi) in enumerate(fc):
        A[pos[lo], k], A[pos[hi], k] = 1, -1
    rho = c.cx(3 * len(idx)).reshape(-1, 3)
    ff = np.array([a * nv + lo for a, lo, hi in fc], dtype=np.int64)
    c.note(n=n, d=d, idx_v=idx, rho=rho)
    R = call(PV, "get_resistance_vector", tuple(n), tuple(d), sps.csc_matrix(A), ff, rho)
    ar = oracle.areas(d)
    spec = np.array([(rho[pos[lo], a] + rho[pos[hi], a]) / 2 * d[a] / ar[a] for a, lo, hi in fc], dtype=complex).reshape(-1)
    close(R, spec, 1e-10, msg="face resistance")


@contract("run.solver.run", "losses and voltages of the solved problem follow the material data", 15)
def whole(c):
    case = prob.random_problem(c, 3, dense=True)
    c.note(**case["note"])
    r = prob.solve(case)["data_sweep"]["sim"]
    y = oracle.solve(case)
    for t, v in y["material"].items():
        for k, w in v.items():
            close(r["material"][t][k], w, atol=1e-6, msg="%s of %s" % (k, t))
    close(r["var"]["V_c"]["var"], y["var"]["V_c"], atol=1e-6, msg="potential")
