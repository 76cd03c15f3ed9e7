"""Generates and discharges the obligations of one property: python3-vt -m vc.run C01 --out F"""
import argparse
import importlib
import json
import multiprocessing
import multiprocessing.connection
import sys
import time
import traceback

sys.setrecursionlimit(20000)


def worker(sp, tier, conn):
    from vc import prove
    r = prove.Runner(tier)
    try:
        r.run_spec(sp)
    except Exception as e:  # noqa
        traceback.print_exc()
        r.undecided.append("%s: engine failure %r" % (sp["name"], e))
    sys.stdout.flush()
    conn.send(r.dump())
    conn.close()


def run_jobs(jobs, tier, limit, n):
    """the contracts are checked in separate processes"""
    mp = multiprocessing.get_context("fork")
    t0 = time.time()
    todo, running, out = list(jobs), [], []
    while todo or running:
        while todo and len(running) < n:
            sp = todo.pop(0)
            here, there = mp.Pipe(False)
            p = mp.Process(target=worker, args=(sp, tier, there))
            p.start()
            there.close()
            running.append((sp, p, here))
        ready = multiprocessing.connection.wait([h for _, _, h in running], timeout=1.0)
        late = time.time() - t0 > limit
        for sp, p, h in list(running):
            if h in ready or late:
                part = None
                if h in ready:
                    try:
                        part = h.recv()
                    except EOFError:
                        part = None
                if part is None:
                    p.kill()
                    part = {"undecided": ["%s: %s" % (sp["name"], "time limit" if late else "engine process ended")]}
                out.append((jobs.index(sp), part))
                p.join()
                running.remove((sp, p, h))
        if late:
            out += [(jobs.index(sp), {"undecided": ["%s: time limit" % sp["name"]]}) for sp in todo]
            todo = []
    return [p for _, p in sorted(out, key=lambda x: x[0])]


def main():
    p = argparse.ArgumentParser()
    p.add_argument("pid")
    p.add_argument("--tier", default="quick")
    p.add_argument("--out", default=None)
    p.add_argument("--only", default=None)
    p.add_argument("--jobs", type=int, default=4)
    a = p.parse_args()
    from vc import prove
    t0 = time.time()
    extra = {}
    try:
        mod = importlib.import_module("contracts." + a.pid)
        extra = {k: getattr(mod, k) for k in ("ASSUMED", "BOUNDED", "algebra") if hasattr(mod, k)}
        specs = prove.SPECS
    except Exception as e:  # noqa
        traceback.print_exc()
        specs = []
        extra = {"load": str(e)}
    jobs = [sp for sp in specs if not a.only or a.only in sp["name"]]
    r = prove.Runner(a.tier)
    limit = 420 if a.tier == "quick" else 1300
    for part in run_jobs(jobs, a.tier, limit, a.jobs):
        r.merge(part)
    obs = r.result()
    funcs = set(r.functions)
    if "algebra" in extra:
        # obligations decided by computer algebra
        try:
            more, fns = extra["algebra"](a.tier)
            obs += more
            funcs |= set(fns)
        except Exception as e:  # noqa
            traceback.print_exc()
            r.undecided.append("algebra: %r" % (e,))
    if not obs:
        r.undecided.append("no obligation was generated")
    declared = sorted({f for sp in specs for f in sp["functions"]})
    out = {
        "obligations": obs,
        "functions": declared,
        "executed": sorted(funcs),
        "assumed": sorted(["library contract: " + x for x in r.assumed] + list(extra.get("ASSUMED", [])) + [x for sp in specs for x in sp["assumed"]]),
        "undecided": r.undecided + (["contracts could not be loaded: " + extra["load"]] if "load" in extra else []),
        "solver_s": round(r.solver_s, 2),
        "queries": r.queries,
        "bounded": list(extra.get("BOUNDED", [])),
        "vacuity": r.vacuity,
        "wall_s": round(time.time() - t0, 1),
    }
    if a.out:
        with open(a.out, "w") as f:
            json.dump(out, f, indent=1)
    n = {}
    for o in obs:
        n[o["status"]] = n.get(o["status"], 0) + 1
    print(a.pid, n, "undecided constructs: %d" % len(r.undecided), "%.1fs" % (time.time() - t0))
    if not a.out:
        for o in obs:
            print("  %-10s %s :: %s [%s, %.2fs, %d paths]" % (o["status"], o["function"], o["clause"], o["backend"], o["seconds"], o["paths"]))
        for u in r.undecided:
            print("  UNDECIDED", u)


if __name__ == "__main__":
    main()
