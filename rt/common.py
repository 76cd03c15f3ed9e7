"""Run-time evaluation of the contracts on the real code (/repo/pypeec, unmodified).

Every contract is a function of a seeded random generator: it builds an input inside the
precondition, calls the real function and compares against an independent specification.
A contract that does not hold raises `Fail`; `Skip` means that the function under contract
does not exist (or has another signature) in this tree.
"""
import os
import sys
import time
import json
import zlib
import inspect
import importlib
import logging
import traceback
import contextlib
import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
logging.disable(logging.CRITICAL)


class Fail(Exception):
    pass


class Skip(Exception):
    pass


CONTRACTS = []


class Contract:
    def __init__(self, fct, name, clause, n, n_thorough):
        self.fct, self.name, self.clause, self.n, self.nt = fct, name, clause, n, n_thorough


def contract(name, clause, n=40, thorough=None):
    """register `name` (function under contract) with the clause that is checked"""
    def deco(fct):
        CONTRACTS.append(Contract(fct, name, clause, n, thorough or 10 * n))
        return fct
    return deco


class Case:
    def __init__(self, rng, k, tier):
        self.rng = rng
        self.k = k
        self.tier = tier
        self.inputs = {}
        self.nontrivial = True

    def note(self, **kw):
        self.inputs.update(kw)

    # generators
    def i(self, a, b):
        """integer in [a, b]"""
        return int(self.rng.integers(a, b + 1))

    def f(self, a, b):
        return float(a + (b - a) * self.rng.random())

    def p(self, q=0.5):
        return bool(self.rng.random() < q)

    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def cx(self, n=None):
        r = self.rng
        if n is None:
            return complex(r.normal(), r.normal())
        return r.normal(size=n) + 1j * r.normal(size=n)

    def wide(self, n):
        """values of very different magnitude"""
        return self.cx(n) * 10.0 ** self.rng.uniform(-12, 0, size=n)

    def subset(self, n, lo=0, hi=None, order=True):
        """random subset of range(n), in random order"""
        hi = n if hi is None else min(hi, n)
        k = self.i(min(lo, hi), hi)
        s = self.rng.permutation(n)[:k]
        return s if order else np.sort(s)


def need(cond, msg="postcondition violated", *detail):
    if not bool(cond):
        raise Fail(msg + ("" if not detail else ": " + ", ".join(short(d) for d in detail)))


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def close(a, b, rtol=1e-7, atol=None, msg="values differ"):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Fail("%s: shape %s instead of %s" % (msg, a.shape, b.shape))
    if a.size == 0:
        return
    scale = np.max(np.abs(b)) if np.all(np.isfinite(b)) else 1.0
    if atol is None:
        atol = rtol * scale + 1e-300
    d = np.abs(a - b)
    ok = np.isfinite(a).all() and bool(np.all(d <= atol))
    if not ok:
        k = np.unravel_index(np.nanargmax(d) if np.isfinite(d).any() else 0, a.shape) if a.shape else ()
        raise Fail("%s: got %s, specified %s (at %s)" % (msg, short(a[k]), short(b[k]), tuple(int(u) for u in k)))


def same(a, b, msg="values differ"):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape or not np.array_equal(a, b):
        raise Fail("%s: got %s, specified %s" % (msg, short(a), short(b)))


_MOD = {}


def module(mod):
    if mod not in _MOD:
        try:
            _MOD[mod] = importlib.import_module(mod)
        except ImportError as e:
            if "pypeec" in str(e):
                raise Skip("no module %s" % mod)
            raise
    return _MOD[mod]


def fn(mod, name):
    m = module("pypeec." + mod)
    f = getattr(m, name, None)
    if f is None:
        raise Skip("no function pypeec.%s.%s" % (mod, name))
    return f


def call(mod, name, /, *args, **kw):
    f = fn(mod, name)
    try:
        inspect.signature(f).bind(*args, **kw)
    except TypeError:
        raise Skip("signature of pypeec.%s.%s changed" % (mod, name))
    return f(*args, **kw)


def raises(mod, name, /, *args, **kw):
    """the call must raise an exception"""
    f = fn(mod, name)
    try:
        inspect.signature(f).bind(*args, **kw)
    except TypeError:
        raise Skip("signature of pypeec.%s.%s changed" % (mod, name))
    try:
        r = f(*args, **kw)
    except Exception as e:
        return e
    raise Fail("pypeec.%s.%s accepted an input that must be rejected (returned %s)" % (mod, name, short(r, 200)))


def freeze(x):
    """deep snapshot used to check frame conditions"""
    import copy
    return copy.deepcopy(x)


def equal_data(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(equal_data(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal_data(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)
        return a.shape == b.shape and np.array_equal(a, b)
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return type(a) is type(b) and a == b if not hasattr(a, "__dict__") else True


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 400:
            return "array%s %s..." % (x.shape, jsonable(x.ravel()[:50]))
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:500]


def in_repo(tb):
    return any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + "/") for f in traceback.extract_tb(tb))


def run_one(c, seed, k, tier):
    rng = np.random.default_rng([seed, zlib.crc32(c.name.encode() + c.clause.encode()), k])
    np.random.seed((seed * 1000003 + k) % (2 ** 31))
    case = Case(rng, k, tier)
    out = None
    try:
        with np.errstate(all="ignore"), contextlib.redirect_stdout(open(os.devnull, "w")):
            c.fct(case)
    except Skip as e:
        return case, "skip", str(e)
    except Fail as e:
        return case, "fail", str(e)
    except Exception as e:
        txt = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        where = "raised by the code" if in_repo(e.__traceback__) else "while reading the result"
        return case, "fail", "unexpected %s %s: %s\n%s" % (type(e).__name__, where, e, txt)
    return case, "ok", ""


def run_property(pid, seed, tier, budget, only=None):
    importlib.import_module("rt." + pid)
    t0 = time.time()
    res = {"evaluations": 0, "nontrivial": 0, "distinct": 0, "contracts": {}, "violations": [], "skipped": [], "samples": []}
    keys = set()
    # contracts of this property only (modules may import helpers from each other)
    todo = [c for c in CONTRACTS if c.fct.__module__ == "rt." + pid and (only is None or (c.name, c.clause) == only)]
    stats = {}
    active = []
    for c in todo:
        n = c.n if tier == "quick" else c.nt
        stats[c.name + " :: " + c.clause] = {"function": c.name, "clause": c.clause, "ran": 0, "planned": n, "status": "ok"}
        active.append((c, n))
    k = 0
    # round robin so that a short budget still reaches every contract
    while active:
        nxt = []
        for c, n in active:
            key = c.name + " :: " + c.clause
            st = stats[key]
            if k >= n:
                continue
            if k > 0 and time.time() - t0 > budget:
                st["status"] = "budget" if st["status"] == "ok" else st["status"]
                continue
            case, status, msg = run_one(c, seed, k, tier)
            if status == "skip":
                st["status"] = "skip: " + msg
                res["skipped"].append({"contract": key, "why": msg})
                continue
            st["ran"] += 1
            res["evaluations"] += 1
            if case.nontrivial:
                res["nontrivial"] += 1
                try:
                    keys.add(hash(json.dumps(jsonable(case.inputs), sort_keys=True, default=str) + key))
                except Exception:
                    keys.add((key, k))
            if len(res["samples"]) < 6 and (k == 1 or n == 1):
                res["samples"].append({"contract": key, "case": k, "inputs": short(jsonable(case.inputs), 600)})
            if status == "fail":
                st["status"] = "fail"
                res["violations"].append({"function": c.name, "clause": c.clause, "case": k, "seed": seed, "message": msg, "inputs": jsonable(case.inputs)})
                continue      # stop this contract
            nxt.append((c, n))
        active = nxt
        k += 1
    res["distinct"] = len(keys)
    res["contracts"] = list(stats.values())
    res["wall_s"] = time.time() - t0
    return res


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--out", default=None)
    ap.add_argument("--replay", default=None, help="function::clause::case")
    a = ap.parse_args()
    from rt import common as cm
    budget = a.budget or (120.0 if a.tier == "quick" else 600.0)
    if a.replay:
        importlib.import_module("rt." + a.pid)
        name, clause, k = a.replay.rsplit("::", 2)
        for c in cm.CONTRACTS:
            if c.name == name.strip() and c.clause == clause.strip():
                case, status, msg = cm.run_one(c, a.seed, int(k), a.tier)
                print(status, msg)
                print(json.dumps(jsonable(case.inputs)))
                return 1 if status == "fail" else 0
        print("no such contract")
        return 2
    r = cm.run_property(a.pid, a.seed, a.tier, budget)
    if a.out:
        with open(a.out, "w") as f:
            json.dump(r, f)
    else:
        for c in r["contracts"]:
            print(c["status"][:60].ljust(12), c["ran"], "/", c["planned"], c["function"], "::", c["clause"])
        for v in r["violations"]:
            print("VIOLATION", v["function"], "::", v["clause"], "case", v["case"], "\n   ", v["message"][:1500], "\n   ", short(v["inputs"], 800))
        print("evaluations", r["evaluations"], "wall", round(r["wall_s"], 1))
    return 1 if r["violations"] else 0


if __name__ == "__main__":
    sys.exit(main())
