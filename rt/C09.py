from rt.common import *  # noqa
from rt import gen, prob, oracle

PG = "lib_solver.problem_geometry"


def _arr(dom):
    return {t: np.array(v, dtype=np.int64) for t, v in dom.items()}


@contract("problem_geometry.get_material_idx/get_material_pos", "materials get the voxels of their domains in list order", 150)
def material(c):
    case = prob.random_layout(c, 4)
    dom = _arr(case["domains"])
    c.note(n=case["n"], domains=case["domains"], material_def=case["material_def"])
    sp = prob.spec_geometry(case)
    dom0 = freeze(dom)
    ic, im, mi = call(PG, "get_material_idx", case["material_def"], dom)
    same(ic, sp["idx_vc"], "electric voxels")
    same(im, sp["idx_vm"], "magnetic voxels")
    need(list(mi) == list(case["material_def"]), "materials", list(mi))
    for t, v in sp["material"].items():
        same(mi[t]["idx"], v, "voxels of material " + t)
        for k in ("var_type", "material_type", "orientation_type"):
            need(mi[t][k] == case["material_def"][t][k], k)
    mi = call(PG, "get_material_pos", mi, ic, im)
    for t, v in sp["material"].items():
        ty = case["material_def"][t]["material_type"]
        e = sorted(np.asarray(ic)[mi[t]["idx_vc"]].tolist())
        m = sorted(np.asarray(im)[mi[t]["idx_vm"]].tolist())
        need(e == (sorted(v) if ty != "magnetic" else []), "positions of the electric voxels of " + t, e, v)
        need(m == (sorted(v) if ty != "electric" else []), "positions of the magnetic voxels of " + t, m, v)
    need(equal_data(dom, dom0), "the domains were modified")


@contract("problem_geometry.get_source_idx/get_source_pos", "positions of voltages and currents refer to the same voxels", 200)
def source(c):
    case = prob.random_layout(c, 4)
    dom = _arr(case["domains"])
    c.note(n=case["n"], domains=case["domains"], source_def=case["source_def"], material_def=case["material_def"])
    sp = prob.spec_geometry(case)
    sc, sv, si = call(PG, "get_source_idx", case["source_def"], dom)
    same(sc, sp["idx_src_c"], "current source voxels")
    same(sv, sp["idx_src_v"], "voltage source voxels")
    need(list(si) == list(case["source_def"]), "sources", list(si))
    for t, v in sp["source"].items():
        same(si[t]["idx"], v, "voxels of source " + t)
        need(si[t]["source_type"] == case["source_def"][t]["source_type"] and si[t]["var_type"] == case["source_def"][t]["var_type"], "kind of source")
    ic = np.array(sp["idx_vc"], dtype=np.int64)
    si = call(PG, "get_source_pos", si, ic, sc, sv)
    both = np.concatenate((sc, sv)).astype(int)
    for t, v in sp["source"].items():
        a = ic[np.asarray(si[t]["idx_vc"], dtype=int)].tolist()
        b = both[np.asarray(si[t]["idx_src"], dtype=int)].tolist()
        need(sorted(a) == sorted(v), "voltage positions of " + t, a, v)
        need(sorted(b) == sorted(v), "current positions of " + t, b, v)
        need(a == b, "voltage and current positions refer to different voxels", a, b)


@contract("problem_geometry.get_material_idx/get_source_idx", "unknown domains are rejected", 40)
def unknown(c):
    case = prob.random_layout(c, 3)
    dom = _arr(case["domains"])
    c.note(n=case["n"], domains=case["domains"])
    if c.p():
        t = c.pick(list(case["material_def"]))
        lst = case["material_def"][t]["domain_list"]
        lst.insert(c.i(0, len(lst)), "missing")
        raises(PG, "get_material_idx", case["material_def"], dom)
    else:
        t = c.pick(list(case["source_def"]))
        lst = case["source_def"][t]["domain_list"]
        lst.insert(c.i(0, len(lst)), "missing")
        raises(PG, "get_source_idx", case["source_def"], dom)


@contract("problem_geometry.get_problem_type", "accepted exactly when electric, driven and inside the conductors", 300)
def ptype(c):
    n, _, _ = gen.grid(c, 3)
    nv = n[0] * n[1] * n[2]
    used = c.subset(nv, 1)
    k = c.i(0, 9)
    ic = c.rng.permutation(used)[: c.i(0, len(used))] if k < 3 else used
    rest = [v for v in used if v not in set(ic.tolist())]
    im = np.array(rest + [int(v) for v in ic if c.p(0.3)] if c.p(0.6) else [], dtype=np.int64)
    comps = gen.components(n, set(ic.tolist()) | set(im.tolist()))
    graph = [np.array(sorted(s), dtype=np.int64) for s in comps]
    src = []
    for s in comps:
        e = [v for v in s if v in set(ic.tolist())]
        if e and not c.p(0.12):
            src += [e[i] for i in c.rng.permutation(len(e))[: c.i(1, 2)]]
    if c.p(0.15):
        bad = [v for v in range(nv) if v not in set(ic.tolist())]
        if bad:
            src.insert(c.i(0, len(src)), c.pick(bad))
    cut = c.pick([0, len(src), c.i(0, len(src))])
    sc, sv = np.array(src[:cut], dtype=np.int64), np.array(src[cut:], dtype=np.int64)
    c.note(n=n, idx_vc=ic, idx_vm=im, idx_src_c=sc, idx_src_v=sv)
    si, es = set(src), set(ic.tolist())
    ok = len(ic) > 0 and len(src) > 0 and si <= es and all((not (s & es)) or (s & si) for s in comps)
    if ok:
        r = call(PG, "get_problem_type", ic, im, sc, sv, graph)
        need(bool(r) == (len(im) > 0), "magnetic physics", r, len(im))
    else:
        raises(PG, "get_problem_type", ic, im, sc, sv, graph)


@contract("run.solver.run", "terminal values belong to the voxels of the terminal; bad problems are rejected", 25)
def whole(c):
    case = prob.random_problem(c, 3, dense=True)
    c.note(**case["note"])
    vox = prob.voxel(case)
    mode = c.k % 5
    if mode < 3:
        r = call("run.solver", "run", vox, prob.problem(case), prob.tolerance())
        sp = prob.spec_geometry(case)
        same(r["data_init"]["idx_vc"], sp["idx_vc"], "electric voxels")
        same(r["data_init"]["idx_vm"], sp["idx_vm"], "magnetic voxels")
        same(r["data_init"]["idx_src_c"], sp["idx_src_c"], "current sources")
        same(r["data_init"]["idx_src_v"], sp["idx_src_v"], "voltage sources")
        y = oracle.solve(case)
        for t, v in y["source"].items():
            for k in "VIS":
                close(r["data_sweep"]["sim"]["source"][t][k], v[k], atol=1e-6, msg="terminal %s of %s" % (k, t))
        return
    bad = freeze(case)
    bad.pop("coeff", None)
    if mode == 3:
        t = c.pick(list(bad["source_def" if c.p() else "material_def"]))
        for d in (bad["source_def"], bad["material_def"]):
            if t in d:
                d[t]["domain_list"].append("missing")
    else:
        # drop every source of one electric component
        sp = prob.spec_geometry(bad)
        comps = [s for s in gen.components(bad["n"], set(sp["idx_vc"]) | set(sp["idx_vm"])) if s & set(sp["idx_vc"])]
        comp = c.pick(comps)
        for t in list(bad["domains"]):
            if set(bad["domains"][t]) & comp:
                for u in bad["source_def"].values():
                    u["domain_list"] = [w for w in u["domain_list"] if w != t]
        dummy = {"zz": []}
        bad["domains"].update(dummy)
        for u in bad["source_def"].values():
            u["domain_list"] = u["domain_list"] or ["zz"]
            u["var_type"] = "lumped"
        vox = prob.voxel(bad)
        for u in bad["source_val"].values():
            for k in u:
                u[k] = 0.5
    raises("run.solver", "run", vox, prob.problem(bad), prob.tolerance())
