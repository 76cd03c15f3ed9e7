#!/usr/bin/env python3
"""Decides one property on the current tree: ./check.py C01

1. the deductive part (contracts/<id>.py, engine vc/) generates the proof obligations of the
   contracts from the current source and discharges them,
2. the run-time part (rt/<id>.py) evaluates the contracts on the real code over generated
   inputs: it searches for a failing input and is the bounded stand-in for what is undecided.

Exit 0: held; exit 1 with a VIOLATION line: broken; exit 2: the check itself failed.
"""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY_CODE = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
PY_VT = os.environ.get("VERIF_PYVT", "python3-vt")


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", QT_QPA_PLATFORM="offscreen", PYTHONHASHSEED="0")
    for t in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        e.setdefault(t, "2")
    return e


def start(cmd, log):
    return subprocess.Popen(cmd, cwd=HERE, env=env(), stdout=log, stderr=subprocess.STDOUT)


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    has_proof = os.path.exists(os.path.join(HERE, "contracts", pid + ".py"))
    with tempfile.TemporaryDirectory(prefix="verif_%s_" % pid) as tmp:
        o_rt, o_vc = os.path.join(tmp, "rt.json"), os.path.join(tmp, "vc.json")
        l_rt, l_vc = open(os.path.join(tmp, "rt.log"), "w+"), open(os.path.join(tmp, "vc.log"), "w+")
        procs = {"rt": start([PY_CODE, "-m", "rt.common", pid, "--tier", tier, "--seed", str(seed), "--out", o_rt], l_rt)}
        if has_proof:
            procs["vc"] = start([PY_VT, "-m", "vc.run", pid, "--tier", tier, "--out", o_vc], l_vc)
        limit = {"rt": 400 if tier == "quick" else 1500, "vc": 500 if tier == "quick" else 1500}
        for k, p in procs.items():
            try:
                p.wait(timeout=max(1, limit[k] - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        rt, vc = load(o_rt), load(o_vc) if has_proof else None
        logs = {}
        for k, f in (("rt", l_rt), ("vc", l_vc)):
            f.flush()
            f.seek(0)
            logs[k] = f.read()[-4000:]
            f.close()
    if rt is None:
        print("the run-time part gave no result\n" + logs["rt"])
        return 2
    if rt["evaluations"] == 0:
        print("no contract could be evaluated", rt["skipped"])
        return 2
    if has_proof and vc is None:
        print("the deductive part gave no result: all of its obligations are undecided\n" + logs["vc"])
        vc = {"obligations": [], "functions": [], "assumed": [], "undecided": ["all: engine gave no result"], "solver_s": 0.0, "bounded": []}
    if vc is not None and not rt["violations"]:
        if vc["undecided"] or any(o["status"] != "proved" for o in vc["obligations"]):
            search(pid, seed, rt)
    return report(pid, tier, seed, rt, vc, t0, ev_dir)


def search(pid, seed, rt, n=6, budget=150):
    """an obligation is not discharged: a longer search for a failing input"""
    with tempfile.TemporaryDirectory(prefix="verif_%s_" % pid) as tmp:
        jobs = []
        for k in range(n):
            out = os.path.join(tmp, "rt%d.json" % k)
            jobs.append((out, start([PY_CODE, "-m", "rt.common", pid, "--tier", "thorough", "--seed", str(seed + 1000 + k), "--budget", str(budget), "--out", out], subprocess.DEVNULL)))
        t0 = time.time()
        rt["search"] = {"processes": n, "budget_s": budget, "evaluations": 0}
        for out, p in jobs:
            try:
                p.wait(timeout=max(1, budget + 100 - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            r = load(out)
            if r is None:
                continue
            rt["search"]["evaluations"] += r["evaluations"]
            rt["evaluations"] += r["evaluations"]
            if r["violations"] and not rt["violations"]:
                rt["violations"] = r["violations"]
                for v in rt["violations"]:
                    v["tier"] = "thorough"
                for _, q in jobs:
                    q.kill()
                break


def report(pid, tier, seed, rt, vc, t0, ev_dir):
    bad_rt = rt["violations"]
    obl = vc["obligations"] if vc else []
    failed = [o for o in obl if o["status"] == "refuted"]
    undecided = [o for o in obl if o["status"] not in ("proved", "refuted")]
    proved = [o for o in obl if o["status"] == "proved"]
    violations = []
    if bad_rt or failed:
        replay = os.path.join(ev_dir, "%s.replay.json" % pid)
        with open(replay, "w") as f:
            json.dump({
                "property": pid, "seed": seed, "tier": tier,
                "failed_obligations": failed,
                "failing_inputs": [dict(v, replay="cd /verif && ./rtrun %s --seed %d --tier %s --replay '%s::%s::%d'" % (pid, v["seed"], v.get("tier", tier), v["function"], v["clause"], v["case"])) for v in bad_rt],
            }, f, indent=1)
        for o in failed:
            print("failed obligation: %s :: %s\n    %s" % (o["function"], o["clause"], o["detail"][:1500]))
        for v in bad_rt:
            print("contract violated: %s :: %s\n    case %d: %s\n    input: %s" % (v["function"], v["clause"], v["case"], v["message"][:1200], json.dumps(v["inputs"])[:800]))
        violations.append("VIOLATION property=%s replay=%s%s" % (pid, replay, "" if bad_rt else " no-failing-input-found"))
    level = "proof" if vc is not None else "exploration"
    cov = {
        "evaluations": rt["evaluations"],
        "distinct_nontrivial": min(rt["distinct"], rt["nontrivial"]),
        "rule": "inputs drawn at random inside the precondition of each contract (seeded); non-trivial: reaches the postcondition, distinct: by input data",
        "samples": rt["samples"],
        "contracts_evaluated": rt["contracts"],
        "skipped": rt["skipped"],
    }
    if "search" in rt:
        cov["extended_search"] = rt["search"]
    assumptions = ["machine integers and floating point numbers are treated as mathematical numbers in proofs; run-time contracts compare with tolerances"]
    if vc is not None:
        by = {}
        for o in proved:
            by[o["backend"]] = by.get(o["backend"], 0) + 1
        cov.update({
            "obligations": len(obl), "discharged": len(proved),
            "checker_cmd": "cd /verif && python3-vt -m vc.run %s" % pid,
            "trusted_base": sorted(vc["assumed"]),
            "functions_under_contract": vc["functions"],
            "discharged_by": by, "solver_s": round(vc["solver_s"], 2),
            "undecided": [{"function": o["function"], "clause": o["clause"], "status": o["status"], "detail": o["detail"][:300]} for o in undecided] + [{"detail": u} for u in vc["undecided"]],
            "bounded": vc["bounded"],
            "obligation_list": [{k: o[k] for k in ("function", "clause", "status", "backend", "seconds", "paths") if k in o} for o in obl],
            "vacuity": vc.get("vacuity", []),
        })
        assumptions += sorted(vc["assumed"])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2), "assumptions": assumptions, "violations": len(bad_rt) + len(failed)}
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for o in undecided:
        print("undecided (bounded stand-in applies): %s :: %s [%s] %s" % (o["function"], o["clause"], o["status"], o["detail"][:200].replace("\n", " ")))
    if vc is not None:
        print("%s: %d of %d obligations discharged (%.1f s solver), %d contract evaluations, %.1f s" % (pid, len(proved), len(obl), vc["solver_s"], rt["evaluations"], time.time() - t0))
    else:
        print("%s: %d contract evaluations, %.1f s" % (pid, rt["evaluations"], time.time() - t0))
    for v in violations:
        print(v)
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
