#!/usr/bin/env python3
"""Runs the check of the property of every planted bug against a scratch copy with the bug,
mounted over /repo in a private mount namespace: tools/trybugs.py [ID...]"""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def one(b):
    d = VERIF + "/seeded/" + b
    prop = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="try_", dir="/tmp/w")
    try:
        subprocess.run(["cp", "-a", "/repo", tmp + "/repo"], check=True)
        subprocess.run(["git", "-C", tmp + "/repo", "apply", d + "/patch.diff"], check=True)
        subprocess.run(["cp", "-a", VERIF, tmp + "/verif"], check=True)
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && ./check.py %s" % (tmp, tmp, prop)], capture_output=True, text=True)
        return b, prop, r.returncode, [x for x in r.stdout.split("\n") if "VIOLATION" in x], r.stderr[-300:] if r.returncode not in (0, 1) else ""
    finally:
        shutil.rmtree(tmp)

if __name__ == "__main__":
    os.makedirs("/tmp/w", exist_ok=True)
    ids = sys.argv[1:] or sorted(os.listdir(VERIF + "/seeded"))
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, ids): print(*r, flush=True)
