from rt.common import *  # noqa
from rt import prob

SW = "lib_solver.sweep_joblib"


def config(c, valid=None):
    """sweep -> sweep of the initial guess (or None)"""
    k = c.i(1, 8)
    tags = ["s%d" % v for v in c.rng.permutation(20)[:k]]
    dep = {}
    for j, t in enumerate(tags):
        dep[t] = c.pick([None] + tags[:j]) if c.p(0.7) else (tags[j - 1] if j else None)
    ok = True
    if valid is False or (valid is None and c.p(0.4)):
        ok = False
        m = c.i(0, 3)
        if m == 0:
            dep[c.pick(tags)] = "unknown"
        elif m == 1:
            t = c.pick(tags)
            dep[t] = t
        else:                           # a cycle reachable or not from the start
            if k >= 2:
                a, b = tags[c.i(0, k - 2)], tags[-1]
                dep[a], dep[b] = b, a
                if m == 3 and c.p():
                    tags2 = ["e%d" % v for v in range(c.i(1, 2))]
                    for t in tags2:
                        dep[t] = c.pick([a, b])
            else:
                dep[tags[0]] = tags[0]
    ks = list(dep)
    return {ks[i]: dep[ks[i]] for i in c.rng.permutation(len(ks))}, ok


@contract("sweep_joblib.get_run_sweep", "each sweep once, after its initial sweep, with its solution and parameters", 250)
def run(c):
    dep, ok = config(c)
    c.note(dependencies=dep, valid=ok)
    par = {t: {"p": c.i(0, 100)} for t in dep}
    sweep = {t: {"init": v, "param": par[t]} for t, v in dep.items()}
    log = []
    res, sol = {}, {}

    def compute(*a):
        tag, param, init = a
        log.append((tag, param, init))
        res[tag], sol[tag] = object(), object()
        return res[tag], sol[tag]
    s0 = freeze(sweep)
    pr = {"n_jobs": 0, "n_threads": None}
    if not ok:
        raises(SW, "get_run_sweep", pr, sweep, compute)
        need(not log, "sweeps computed in spite of bad dependencies", [x[0] for x in log])
        return
    out = call(SW, "get_run_sweep", pr, sweep, compute)
    need(sorted(x[0] for x in log) == sorted(dep), "computed sweeps", [x[0] for x in log])
    need(set(out) == set(dep) and all(out[t] is res[t] for t in dep), "results are not returned under their names", list(out))
    done = set()
    for tag, param, init in log:
        need(param == par[tag], "parameters of " + tag)
        d = dep[tag]
        if d is None:
            need(init is None, "initial value without dependency", tag)
        else:
            need(d in done, "computed before its initial sweep", tag, d)
            need(init is sol[d], "initial value is not the solution of " + d, tag)
        done.add(tag)
    need(sweep == s0, "sweep definition modified")


def work(tag, param, init):
    return {"tag": tag, "p": param["p"], "init": init}, (tag, param["p"], init)


@contract("sweep_joblib.get_run_sweep", "parallel jobs and listing order do not change the results", 4)
def parallel(c):
    dep, _ = config(c, True)
    par = {t: {"p": c.i(0, 100)} for t in dep}
    c.note(dependencies=dep)
    sweep = {t: {"init": v, "param": par[t]} for t, v in dep.items()}
    ref = call(SW, "get_run_sweep", {"n_jobs": 0, "n_threads": None}, sweep, work)
    perm = {t: sweep[t] for t in [list(sweep)[i] for i in c.rng.permutation(len(sweep))]}
    for jobs, s in ((0, perm), (2, sweep), (2, perm)):
        out = call(SW, "get_run_sweep", {"n_jobs": jobs, "n_threads": None if c.p() else 1}, s, work)
        need(set(out) == set(ref) and all(out[t] == ref[t] for t in ref), "results depend on the jobs or the order", jobs)
    # parallel runs reject bad dependencies too
    bad, _ = config(c, False)
    raises(SW, "get_run_sweep", {"n_jobs": 2, "n_threads": None}, {t: {"init": v, "param": {"p": 1}} for t, v in bad.items()}, work)


@contract("run.solver.run", "sweeps of the solver: own parameters, names and initial values", 8)
def whole(c):
    case = prob.random_problem(c, 3, dense=True)
    c.note(**case["note"])
    vals = {}
    for t in ("a", "b", "c"):
        q = prob.random_values(c, dict(case))
        vals[t] = {"freq": q["freq"], "material_val": q["material_val"], "source_val": q["source_val"]}
    chain = c.pick([{"a": None, "b": "a", "c": "b"}, {"c": "b", "a": "b", "b": None}, {"b": "c", "c": None, "a": None}])
    sweeps = {t: {"init": v, "param": vals[t]} for t, v in chain.items()}
    r = prob.solve(case, None, sweeps)
    need(set(r["data_sweep"]) == set(chain), "names")
    for t in chain:
        s = r["data_sweep"][t]
        need(s["freq"] == vals[t]["freq"], "frequency of " + t)
        ref = prob.solve(case, None, {"x": {"init": None, "param": vals[t]}})["data_sweep"]["x"]
        for k in s["var"]:
            a, b = s["var"][k]["var"], ref["var"][k]["var"]
            close(a, b, atol=1e-6 * (1 + np.max(np.abs(b), initial=0)), msg="%s of sweep %s" % (k, t))
        d = chain[t]
        p0 = s["conv"]["power_init"]
        if d is None:
            need(abs(p0) == 0, "initial value without dependency is not zero", p0)
        else:
            # power of the initial value = power of the previous solution (factor depends on the own frequency)
            q = r["data_sweep"][d]["conv"]["power_final"]
            f = (1.0 if vals[t]["freq"] == 0 else 0.5) / (1.0 if vals[d]["freq"] == 0 else 0.5)
            close(p0, f * q, 1e-9, msg="initial value of %s is not the solution of %s" % (t, d))
    bad = {t: {"init": v, "param": vals[t]} for t, v in {"a": "b", "b": "a", "c": None}.items()}
    raises("run.solver", "run", prob.voxel(case), prob.problem(case, bad), prob.tolerance())
