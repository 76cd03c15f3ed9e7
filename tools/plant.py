#!/usr/bin/env python3
"""Confirms planted bugs: tools/plant.py SPEC.py [ID...]

SPEC.py defines BUGS, a list of dicts (id, property, file, old, new, needs, breaks, demo).
Each bug is applied to a scratch copy which is mounted over /repo in a private mount
namespace; kept under seeded/<id> only if it builds, passes the tests, and its demo
succeeds without and fails with the change.
"""
import json, os, subprocess, sys, shutil, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def in_copy(copy, cmd, timeout=1500):
    return sh(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)], timeout=timeout)

def one(b):
    tmp = tempfile.mkdtemp(prefix="plant_%s_" % b["id"], dir="/tmp/w")
    try:
        copy = tmp + "/repo"
        sh(["cp", "-a", "/repo", copy])
        out = tmp + "/seed"
        os.makedirs(out)
        with open(out + "/demo.py", "w") as f: f.write(b["demo"])
        with open(out + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen PYTHONPATH=/repo\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        r = in_copy(copy, "bash %s/demo.sh" % out)
        if r.returncode: return b["id"], "demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-800:]
        for fname, old, new in b["edits"]:
            p = copy + "/" + fname
            s = open(p).read()
            if s.count(old) != 1: return b["id"], "text occurs %d times in %s: %s" % (s.count(old), fname, old[:60])
            open(p, "w").write(s.replace(old, new))
        d = sh(["git", "-C", copy, "diff"]).stdout
        with open(out + "/patch.diff", "w") as f: f.write(d)
        r = in_copy(copy, "bash %s/demo.sh" % out)
        if r.returncode == 0: return b["id"], "demo passes with the change"
        msg = (r.stdout + r.stderr).strip().split("\n")[-1]
        r = in_copy(copy, "bash /opt/vp/build.sh")
        if r.returncode: return b["id"], "build fails"
        r = in_copy(copy, "bash /opt/vp/test.sh %s/out.json" % tmp)
        res = json.load(open(tmp + "/out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        ok = res.get("passed") if isinstance(res, dict) else None
        txt = r.stdout[-600:]
        if "failed" in txt.split("\n")[-2] + txt.split("\n")[-1] and ", 0 failed" not in txt: return b["id"], "tests fail: " + txt[-300:]
        with open(out + "/meta.json", "w") as f:
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
        dst = VERIF + "/seeded/" + b["id"]
        if os.path.exists(dst): shutil.rmtree(dst)
        shutil.copytree(out, dst)
        return b["id"], "kept (%s) %s" % (msg[:100], txt.strip().split("\n")[-1])
    finally:
        shutil.rmtree(tmp)

def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if len(sys.argv) > 2: bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(one, bugs): print(r[0], r[1], flush=True)
main()
