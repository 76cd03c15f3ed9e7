from rt.common import *  # noqa
from rt import gen, prob, oracle
from rt.C14 import net

EX = "lib_solver.extract_solution"


@contract("extract_solution.get_losses/get_energy", "powers and energies of the faces", 150)
def losses(c):
    a, b = c.i(0, 12), c.i(0, 12)
    f = c.pick([0, 0.0, c.f(0.01, 5)])
    If, Im, Rc, Rm = c.cx(a), c.cx(b), c.cx(a), c.cx(b)
    L, K = c.rng.normal(size=(a, a)), c.rng.normal(size=(a, b))
    c.note(n=(a, b), freq=f)
    s = 2 * np.pi * f
    k = 1.0 if f == 0 else 0.5
    Pf, Pm = call(EX, "get_losses", f, If, Im, Rc, Rm)
    close(Pf, k * Rc.real * np.abs(If) ** 2, 1e-9, msg="electric losses")
    # conj(s I) R I with s = j 2 pi f
    close(Pm, (k * np.conj(1j * s * Im) * Rm * Im).real, 1e-9, msg="magnetic losses")
    We, Wm = call(EX, "get_energy", f, If, Im, lambda x: L @ x, lambda x: K @ x)
    k = 0.5 if f == 0 else 0.25
    close(We, k * (np.conj(If) * (L @ If)).real, 1e-9, msg="electric energy")
    close(Wm, k * (np.conj(If) * (K @ Im)).real, 1e-9, msg="magnetic energy")


@contract("extract_solution.get_integral", "totals are the sums", 60)
def integral(c):
    v = [c.rng.normal(size=c.i(0, 9)) for _ in range(4)]
    S = np.complex128(c.cx())
    c.note(sizes=[len(x) for x in v], S=S)
    r = call(EX, "get_integral", *v, S)
    t = [x.sum() for x in v]
    for k, w in {"P_electric": t[0], "P_magnetic": t[1], "W_electric": t[2], "W_magnetic": t[3], "P_total": t[0] + t[1], "W_total": t[2] + t[3], "S_total": S}.items():
        close(r[k], w, 1e-9, msg=k)


@contract("extract_solution.get_*_density", "flux densities, loss densities and divergences of the voxels", 150)
def density(c):
    n, d, _ = gen.grid(c, 4)
    nv = n[0] * n[1] * n[2]
    idx = c.subset(nv, 0)
    fc, A, ff = net(n, idx)
    pos = {int(v): k for k, v in enumerate(idx)}
    x, P = c.cx(len(fc)), np.abs(c.rng.normal(size=len(fc)))
    c.note(n=n, d=d, idx_v=idx)
    ar = oracle.areas(d)
    vol = d[0] * d[1] * d[2]
    J, S, D = np.zeros((len(idx), 3), complex), np.zeros(len(idx)), np.zeros(len(idx), complex)
    for (a, lo, hi), i, p in zip(fc, x, P):
        for v, sg in ((lo, 1), (hi, -1)):
            J[pos[v], a] += i / 2 / ar[a]
            S[pos[v]] += p / 2 / vol
            D[pos[v]] += sg * i / vol
    close(call(EX, "get_vector_density", n, d, ff, A, x), J, 1e-9, msg="vector density")
    close(call(EX, "get_scalar_density", d, A, P), S, 1e-9, msg="scalar density")
    close(call(EX, "get_divergence_density", d, A, x), D, 1e-9, msg="divergence")


@contract("extract_solution.get_material", "losses of the materials are the sums over their voxels", 100)
def material(c):
    n, d, _ = gen.grid(c, 4)
    nv = n[0] * n[1] * n[2]
    ic, im = c.subset(nv, 0), c.subset(nv, 0)
    fc, Ac, _ = net(n, ic)
    fm, Am, _ = net(n, im)
    Pf, Pm = c.rng.normal(size=len(fc)), c.rng.normal(size=len(fm))
    al = {}
    for t in ("m2", "m1", "m3"):
        al[t] = {"idx_vc": c.subset(len(ic), 0), "idx_vm": c.subset(len(im), 0)}
    c.note(n=n, idx_vc=ic, idx_vm=im, material=al)
    r = call(EX, "get_material", al, Ac, Am, Pf, Pm)
    Pv, Pw = {int(v): 0.0 for v in ic}, {int(v): 0.0 for v in im}
    for fs, P, o in ((fc, Pf, Pv), (fm, Pm, Pw)):
        for (a, lo, hi), p in zip(fs, P):
            o[lo] += p / 2
            o[hi] += p / 2
    need(list(r) == list(al), "materials")
    for t, m in al.items():
        e, g = sum(Pv[int(ic[k])] for k in m["idx_vc"]), sum(Pw[int(im[k])] for k in m["idx_vm"])
        sc = 1e-9 * (1 + np.abs(Pf).sum() + np.abs(Pm).sum())
        close(r[t]["P_electric"], e, atol=sc, msg="electric losses of " + t)
        close(r[t]["P_magnetic"], g, atol=sc, msg="magnetic losses of " + t)
        close(r[t]["P_total"], e + g, atol=sc, msg="total losses of " + t)


@contract("extract_solution.get_source/extract_convergence.get_fct_conv", "terminal values and tracked power", 150)
def source(c):
    case = prob.random_layout(c, 4)
    sp = prob.spec_geometry(case)
    dom = {t: np.array(v, dtype=np.int64) for t, v in case["domains"].items()}
    PG = "lib_solver.problem_geometry"
    sc, sv, si = call(PG, "get_source_idx", case["source_def"], dom)
    ic = np.array(sp["idx_vc"], dtype=np.int64)
    si = call(PG, "get_source_pos", si, ic, sc, sv)
    f = c.pick([0, 0.0, c.f(0.1, 5)])
    V, I = c.cx(len(ic)), c.cx(len(sc) + len(sv))
    c.note(n=case["n"], domains=case["domains"], source_def=case["source_def"], freq=f)
    r, S = call(EX, "get_source", f, si, I, V)
    pv = {int(v): k for k, v in enumerate(ic)}
    ps = {int(v): k for k, v in enumerate(np.concatenate((sc, sv)))}
    k = 1.0 if f == 0 else 0.5
    tot = 0
    need(list(r) == list(case["source_def"]), "terminals")
    for t, v in sp["source"].items():
        vv, ii = [V[pv[w]] for w in v], [I[ps[w]] for w in v]
        s = k * sum(x * np.conj(y) for x, y in zip(vv, ii))
        close(r[t]["V"], np.mean(vv) if v else 0, atol=1e-9, msg="terminal voltage " + t)
        close(r[t]["I"], sum(ii), atol=1e-9, msg="terminal current " + t)
        close(r[t]["S"], s, atol=1e-9, msg="terminal power " + t)
        need(r[t]["source_type"] == case["source_def"][t]["source_type"] and r[t]["var_type"] == case["source_def"][t]["var_type"], "kind")
        tot += s
    close(S, tot, atol=1e-9, msg="total power")
    a, b = len(ic), len(I)
    nf = c.i(0, 4)
    idx = {"I_fc": range(0, nf), "V_vc": range(nf, nf + a), "I_src": range(nf + a, nf + a + b), "I_fm": range(nf + a + b, nf + a + b), "V_vm": range(nf + a + b, nf + a + b)}
    g = call("lib_solver.extract_convergence", "get_fct_conv", f, si, idx)
    close(g(np.concatenate((c.cx(nf), V, I))), tot, atol=1e-9, msg="tracked power")


@contract("run.solver.run", "losses, energies, terminals and densities of the returned data balance", 30)
def whole(c):
    case = prob.random_problem(c, 3, dense=True)
    c.note(**case["note"])
    out = prob.solve(case)
    r = out["data_sweep"]["sim"]
    y = oracle.solve(case)
    vol = case["d"][0] * case["d"][1] * case["d"][2]
    it = r["integral"]
    for k in ("electric", "magnetic"):
        Pv = r["var"]["P_" + k[0].replace("e", "c")]["var"] if k == "electric" else r["var"]["P_m"]["var"]
        close(np.sum(Pv) * vol, it["P_" + k], atol=1e-9 * (1e-12 + np.sum(np.abs(Pv)) * vol), msg="density and integral losses, " + k)
        close(sum(m["P_" + k] for m in r["material"].values()), it["P_" + k], atol=1e-9 * (1e-12 + np.sum(np.abs(Pv)) * vol), msg="material and integral losses, " + k)
        idx = y["ic"] if k == "electric" else y["im"]
        pos = {v: q for q, v in enumerate(idx)}
        for t, v in prob.spec_geometry(case)["material"].items():
            ty = case["material_def"][t]["material_type"]
            use = ty in (("electric", "electromagnetic") if k == "electric" else ("magnetic", "electromagnetic"))
            close(r["material"][t]["P_" + k], sum(Pv[pos[w]] for w in v) * vol if use else 0.0, atol=1e-9 * (1e-12 + np.sum(np.abs(Pv)) * vol), msg="losses of material %s, %s" % (t, k))
    close(it["P_total"], it["P_electric"] + it["P_magnetic"], 1e-12)
    close(it["W_total"], it["W_electric"] + it["W_magnetic"], 1e-12)
    for k in ("W_electric", "W_magnetic"):
        close(it[k], y[k], atol=1e-4 * (abs(y[k]) + 1e-12), msg=k)
    S = sum(s["S"] for s in r["source"].values())
    close(it["S_total"], S, atol=1e-9 * (1 + abs(S)), msg="total source power")
    close(r["conv"]["power_final"], S, atol=1e-9 * (1 + abs(S)), msg="tracked power")
    for t, v in y["source"].items():
        for k in "VIS":
            close(r["source"][t][k], v[k], atol=1e-6, msg="terminal %s of %s" % (k, t))
    for k, v in y["var"].items():
        close(r["var"][k]["var"], v, atol=(2e-6 * (1e-6 + np.max(np.abs(v), initial=0))) if k in ("Q_m", "B_m") else 1e-6 * (1 + np.max(np.abs(v), initial=0)), msg=k)
