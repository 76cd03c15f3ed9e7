"""Random complete problems (mesher and solver data) with every material and source variant."""
import copy
import os
import numpy as np
import yaml
from rt import gen, oracle
from rt.common import *  # noqa
from rt.oracle import spec_geometry  # noqa


def tolerance(**kw):
    """documented default tolerance file with tight solver tolerances"""
    import scisave
    tol = scisave.load_config(os.path.join(REPO, "examples", "config", "tolerance.yaml"))
    tol = copy.deepcopy(tol)
    so = tol["solver_options"]
    so["power_options"]["stop"] = False
    so["tolerance_options"].update(rel_tol=1e-6, abs_tol=1e-12, ignore_res=False)
    so["direct_options"].update(rel_tol=1e-11, abs_tol=1e-13, n_inner=300, n_outer=10)
    tol["parallel_sweep"] = {"n_jobs": 0, "n_threads": None}
    tol["fft_options"]["scipy_worker"] = 1
    for k, v in kw.items():
        p = tol
        ks = k.split("__")
        for u in ks[:-1]:
            p = p[u]
        p[ks[-1]] = v
    return tol


def shuffled(c, dct):
    ks = list(dct)
    return {ks[i]: dct[ks[i]] for i in c.rng.permutation(len(ks))}


def random_layout(c, nmax=3, magnetic=None, dense=False):
    """disjoint domains, materials and sources on a random voxel set"""
    while True:
        n = [c.i(1, nmax), c.i(1, nmax), c.i(1, nmax)]
        if n[0] * n[1] * n[2] >= 2:
            break
    d = [round(c.f(0.4, 1.6), 3) for _ in range(3)]
    ctr = [round(c.f(-2, 2), 3) for _ in range(3)]
    nv = n[0] * n[1] * n[2]
    lo = max(1, (3 * nv) // 4) if (dense or c.p(0.7)) else 1
    used = [int(v) for v in c.subset(nv, lo)]
    mag = c.p(0.6) if magnetic is None else magnetic
    kinds = ["electric"] + (["magnetic", "electromagnetic"] if mag else [])
    types = [c.pick(kinds) for _ in range(c.i(1, 3))]
    if "electric" not in types and "electromagnetic" not in types:
        types[0] = "electric" if len(types) > 1 else "electromagnetic"
    if mag and all(t == "electric" for t in types):
        types.append(c.pick(["magnetic", "electromagnetic"]))
    mats = ["mat_%s" % "cabd"[k] for k in range(len(types))]
    vm = {t: [] for t in mats}
    for k, v in enumerate(used):
        vm[mats[k % len(mats)] if k < len(mats) else c.pick(mats)].append(v)
    if len(used) < len(mats) and c.p(0.5):
        pass
    ty = dict(zip(mats, types))
    ev = [v for t in mats if ty[t] != "magnetic" for v in vm[t]]
    if not ev:
        return random_layout(c, nmax, magnetic, dense)
    chosen = set()
    for comp in gen.components(n, ev):      # every electrically connected part is driven
        e = [v for v in ev if v in comp]
        if e:
            k = c.i(1, min(4, len(e)))
            chosen |= {e[i] for i in c.rng.permutation(len(e))[:k]}
    srcs = ["src_%s" % "yxzw"[k] for k in range(c.i(1, 3))]
    sv = {t: [] for t in srcs}
    for v in sorted(chosen):
        sv[c.pick(srcs)].append(v)
    sv = {t: v for t, v in sv.items() if v or c.p(0.3)}
    stype = {t: c.pick(["current", "voltage"]) for t in sv}
    dom, mdom, sdom = {}, {t: [] for t in mats}, {t: [] for t in sv}
    names = ["d%02d" % k for k in range(60)]
    names = [names[i] for i in c.rng.permutation(60)]

    def add(vox):
        parts = c.i(1, 2) if len(vox) > 1 else 1
        vox = [vox[i] for i in c.rng.permutation(len(vox))]
        cut = c.i(1, len(vox) - 1) if parts == 2 else len(vox)
        out = []
        for ch in (vox[:cut], vox[cut:]):
            if ch:
                t = names.pop()
                dom[t] = ch
                out.append(t)
        return out
    for t in mats:
        rest = [v for v in vm[t] if v not in chosen]
        if rest:
            mdom[t] += add(rest)
        for u in sv:
            both = [v for v in vm[t] if v in sv[u]]
            if both:
                new = add(both)
                mdom[t] += new
                sdom[u] += new
        mdom[t] = [mdom[t][i] for i in c.rng.permutation(len(mdom[t]))]
    for u in sdom:
        sdom[u] = [sdom[u][i] for i in c.rng.permutation(len(sdom[u]))]
    for lst in list(mdom.values()) + list(sdom.values()):
        if not lst:                    # every definition lists at least one domain, a domain may be empty
            t = names.pop()
            dom[t] = []
            lst.append(t)
    material_def = {t: {"domain_list": mdom[t], "material_type": ty[t], "var_type": c.pick(["lumped", "distributed"]),
                        "orientation_type": c.pick(["isotropic", "anisotropic"])} for t in mats}
    for t in mats:                     # per-voxel rows need a voxel
        if not vm[t]:
            material_def[t]["var_type"] = "lumped"
    source_def = {t: {"domain_list": sdom[t], "source_type": stype[t], "var_type": c.pick(["lumped", "distributed"])} for t in sv}
    case = {"n": n, "d": d, "c": ctr, "domains": shuffled(c, dom), "material_def": shuffled(c, material_def), "source_def": shuffled(c, source_def)}
    return case


def random_values(c, case, freq=None):
    sp = spec_geometry(case)
    mv, sv = {}, {}

    def val(k, lo, hi, vt, ot):
        if vt == "lumped":
            return c.f(lo, hi) if ot == "isotropic" else [c.f(lo, hi) for _ in range(3)]
        return [c.f(lo, hi) for _ in range(k)] if ot == "isotropic" else [[c.f(lo, hi) for _ in range(3)] for _ in range(k)]
    for t, m in case["material_def"].items():
        k = len(sp["material"][t])
        a = (m["var_type"], m["orientation_type"])
        mv[t] = {}
        if m["material_type"] in ("electric", "electromagnetic"):
            mv[t].update(rho_re=val(k, 0.5, 2, *a), rho_im=val(k, -0.3, 0.3, *a))
        if m["material_type"] in ("magnetic", "electromagnetic"):
            mv[t].update(chi_re=val(k, 0.5, 30, *a), chi_im=val(k, 0, 5, *a))
    for t, m in case["source_def"].items():
        k = len(sp["source"][t])

        def sval(lo, hi):
            return c.f(lo, hi) if m["var_type"] == "lumped" else [c.f(lo, hi) for _ in range(k)]
        if m["source_type"] == "current":
            sv[t] = {"I_re": sval(-1, 1), "I_im": sval(-1, 1), "Y_re": sval(0.3, 1), "Y_im": sval(-0.3, 0.3)}
        else:
            sv[t] = {"V_re": sval(-1, 1), "V_im": sval(-1, 1), "Z_re": sval(0.1, 1), "Z_im": sval(-0.3, 0.3)}
    case["material_val"] = shuffled(c, mv)
    case["source_val"] = shuffled(c, sv)
    case["freq"] = (0.0 if c.p(0.25) else round(c.f(2e4, 3e5), 1)) if freq is None else freq
    case["note"] = {k: case[k] for k in ("n", "d", "c", "domains", "material_def", "source_def", "material_val", "source_val", "freq")}
    return case


def random_problem(c, nmax=3, magnetic=None, freq=None, n_cloud=0, dense=False):
    case = random_values(c, random_layout(c, nmax, magnetic, dense), freq)
    ext = [case["n"][a] * case["d"][a] for a in range(3)]
    case["pts"] = [[case["c"][a] + c.pick([-1, 1]) * (ext[a] / 2 + c.f(0.3, 2)) for a in range(3)] for _ in range(n_cloud)]
    case["note"]["pts"] = case["pts"]
    return case


def geometry(case):
    return gen.data_geometry(case["n"], case["d"], case["c"], case["domains"], cloud=case.get("pts", ()))


def voxel(case):
    """mesh of the case, through the real mesher"""
    return call("run.mesher", "run", geometry(case))


def problem(case, sweeps=None):
    sw = {"sim": {"init": None, "param": {"freq": case["freq"], "material_val": case["material_val"], "source_val": case["source_val"]}}}
    return {"material_def": case["material_def"], "source_def": case["source_def"], "sweep_solver": sweeps or sw}


def solve(case, tol=None, sweeps=None):
    return call("run.solver", "run", voxel(case), problem(case, sweeps), tol or tolerance())
