"""Contracts and their obligations.

A specification is a Python function decorated with @spec.  It declares symbolic inputs and
preconditions, calls the real function (interpreted symbolically from its source) and states the
postcondition.  The specification is executed once per path; every clause is one obligation per
path, and it is discharged only if the solver accepts it on all paths.
"""
import itertools
import os
import subprocess
import tempfile
import time
import traceback
import z3
from vc import core
from vc.core import *  # noqa
from vc import arr as A
from vc.arr import Arr, Range
from vc.values import *  # noqa
from vc import interp as IN
from vc import inst

SPECS = []


def spec(name, functions, timeout=8000, max_paths=200, overrides=None, assumed=(), loops=None):
    def deco(f):
        SPECS.append(dict(name=name, functions=list(functions), run=f, timeout=timeout, max_paths=max_paths, overrides=dict(overrides or {}), loops=dict(loops or {}), assumed=list(assumed)))
        return f
    return deco


class Skip(Exception):
    """the rest of the specification does not apply on this path"""


# symbols introduced by the engine whose meaning is not fixed by the facts: a model is no witness
VAGUE = ("SUM", "sel", "rank_", "dig_", "pos_", "search", "sqrt", "len_", "uniq", "inter", "union", "diff", "argsort", "inv_", "perm", "max", "min", "opaque")


def decls(fs):
    out, seen, stack = {}, set(), list(fs)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[t.decl().name()] = t.decl()
            stack += t.children()
    return out


class V:
    """state of one execution of a specification"""

    def __init__(self, runner, sp, c, ip):
        self.runner, self.sp, self.c, self.ip = runner, sp, c, ip
        self.inputs = set()
        self.results = []
        self.raised = None

    # -- inputs
    def _sym(self, name, sort, lo=None, hi=None, gt=None):
        t = self.c.fresh(name, sort)
        for u in ([t.re, t.im] if isinstance(t, Cx) else [t]):
            self.inputs.add(u.decl().name())
        if lo is not None:
            self.c.assume(t >= lo)
        if gt is not None:
            self.c.assume(t > gt)
        if hi is not None:
            self.c.assume(t < zint(hi))
        return t

    def int(self, name, lo=None, hi=None):
        return self._sym(name, "int", lo, hi)

    def real(self, name, lo=None, gt=None):
        return self._sym(name, "real", lo, None, gt)

    def bool(self, name):
        return self._sym(name, "bool")

    def cx(self, name):
        return self._sym(name, "complex")

    def str(self, name):
        return SymStr(self._sym(name, "int"))

    def fun(self, name, nargs, sort="int"):
        """uninterpreted input function of nargs integers"""
        nm = self.c.fresh_name(name)
        if sort == "complex":
            fr, fi = (z3.Function(nm + s, *([I] * nargs + [R])) for s in (".re", ".im"))
            self.inputs.update([fr.name(), fi.name()])
            return lambda *a: Cx(fr(*[zint(x) for x in a]), fi(*[zint(x) for x in a]))
        s = {"int": I, "real": R, "bool": z3.BoolSort()}[sort]
        f = z3.Function(nm, *([I] * nargs + [s])) if nargs else z3.Const(nm, s)
        self.inputs.add(nm)
        if not nargs:
            return lambda: f
        return lambda *a: f(*[zint(x) for x in a])

    def array(self, name, shape, kind="int", elem=None, sparse=False):
        """array of symbolic content; shape: lengths or axes"""
        axes = [a if isinstance(a, A.Axis) else Range(a) for a in (shape if isinstance(shape, (tuple, list)) else [shape])]
        nargs = sum(len(A.flat_idx(A.cases(a, "z")[0])) for a in axes)
        g = elem or self.fun(name, nargs, {"float": "real", "int": "int", "bool": "bool", "complex": "complex"}[kind])
        r = Arr(axes, lambda *i: g(*A.flat_idx(list(i))), kind)
        r.sparse = sparse
        return r

    def assume(self, f):
        self.c.assume(f)

    def forall(self, axes, fn):
        return A.forall(axes, fn)

    def override(self, qual, f):
        """contract used instead of the body of a function (mod:name) on this path"""
        self.ip.overrides[qual] = f

    def loop(self, qual, handler):
        """loop invariant of the loops of a function: handler(ip, st, seq, frame)"""
        self.ip.loops[qual] = handler

    # -- code
    def fn(self, mod, name):
        f = self.ip.function(mod, name)
        return f

    def call(self, mod, *args, **kwargs):
        """call the real function; self.raised is the exception or None"""
        self.raised = None
        f = mod
        if isinstance(mod, str):
            f, args = self.ip.function(mod, args[0]), args[1:]
        try:
            return self.ip.call(f, [wrap(a) for a in args], {k: wrap(v) for k, v in kwargs.items()})
        except PyRaise as e:
            self.raised = e
            return None

    def call_recursive(self, mod, name, contract, *args, **kwargs):
        """call a recursive function: its body is executed, the calls of itself follow the contract"""
        self.override(mod + ":" + name, contract)
        self.ip.entry = mod + ":" + name
        try:
            return self.call(mod, name, *args, **kwargs)
        finally:
            self.ip.entry = None

    def branch(self, cond, what=""):
        """case split of the specification"""
        return self.c.truth(cond, what)

    # -- obligations
    def prove(self, clause, f, timeout=None):
        self.runner.obligation(self, clause, f, timeout or self.sp["timeout"])

    def lemma(self, clause, f, timeout=None):
        """an obligation which is used afterwards"""
        self.prove("lemma: " + clause, f, timeout)
        self.c.assume(f)

    def each(self, axes, name="i"):
        return A.each(axes, name)

    def lemma_inst(self, clause, f, terms=()):
        """a proved obligation which is then used"""
        self.prove_inst(clause, f, terms)
        self.c.assume(f)

    def induction(self, clause, n, prop, terms=lambda k: ()):
        """prop(k) for all 0 <= k < n: proved at an arbitrary k from prop at all smaller indices, then known"""
        c = self.c
        k, j = c.ivar("k"), c.ivar("j")
        with scope():
            c.hyp(z3.And(k >= 0, k < zint(n)))
            c.hyp(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), zbool(prop(j)))))
            self.prove_inst(clause + " (induction step)", prop(k), terms(k))
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(n)), zbool(prop(j)))))

    def reindex(self, clause, ax1, f1, ax2, guard, f2, fwd, inv):
        """a finite sum is invariant under a bijection of its indices: the conditions are proved, then the
        sum of f1 over the axis ax1 is known to be the sum of f2 over the indices of ax2 with the guard"""
        ax1 = ax1 if isinstance(ax1, A.Axis) else Range(ax1)
        ax2 = [a if isinstance(a, A.Axis) else Range(a) for a in ax2]
        for idx in A.each(ax2, "u"):
            g = guard(*idx)
            k = fwd(*idx)
            back = inv(k)
            ok = b_and(A.in_axis(ax1, k), *[s_eq(a, b) for u, w in zip(back, idx) for a, b in zip(A.flat_idx(u), A.flat_idx(w))])
            self.prove(clause + ": index map", b_implies(g, ok))
            with scope():
                self.c.hyp(g)
                self.prove(clause + ": terms", s_eq(f1(k), f2(*idx)))
        for k in A.each(ax1, "k"):
            idx = inv(k)
            ok = b_and(*[A.in_axis(a, u) for a, u in zip(ax2, idx)])
            self.prove(clause + ": inverse map", b_and(ok, guard(*idx), s_eq(fwd(*idx), k)))
        self.c.assume(s_eq(A.sum_over([ax1], f1), A.sum_over(ax2, lambda *u: s_ite(guard(*u), f2(*u), 0))))

    def prove_inst(self, clause, f, terms=(), timeout=None):
        """an obligation with quantifiers: the facts are instantiated at the terms, at the constants of the
        existential facts and at those of the refuted goal (instances of facts are facts)"""
        c = self.c
        if isinstance(f, bool):
            return self.prove(clause, f, timeout)
        t = time.time()
        ok = self.refute_inst(f, terms, 2500)
        if not ok:
            memo = {}
            ok = inst.refute([inst.abstract(g, memo) for g in c.facts], inst.abstract(zbool(f), memo), [zint(u) for u in terms], timeout=timeout or self.sp["timeout"], budget=6.0)
        ok = ok or inst.refute(list(c.facts), zbool(f), [zint(u) for u in terms], timeout=timeout or self.sp["timeout"], budget=6.0)
        c.solver_s += time.time() - t
        ok = ok or self.refute_inst(f, terms, timeout)
        if ok:
            self.runner.record(self, clause, "proved", "z3", "", t)
        else:
            self.prove(clause, f, timeout)

    def refute_inst(self, f, terms, timeout):
        c = self.c
        with scope():
            T = [zint(t) for t in terms]
            neg = z3.Not(zbool(f))

            def skolem(g):
                """g with its outer existential quantifiers replaced by constants"""
                out = []
                if z3.is_not(g) and z3.is_quantifier(g.arg(0)) and g.arg(0).is_forall():
                    q, sign = g.arg(0), False
                elif z3.is_not(g) and z3.is_not(g.arg(0)):
                    return skolem(g.arg(0).arg(0))
                elif z3.is_quantifier(g) and g.is_exists():
                    q, sign = g, True
                elif z3.is_and(g):
                    for h in g.children():
                        out += skolem(h)
                    return out
                else:
                    return [g]
                ks = [z3.FreshConst(q.var_sort(k), "sk") for k in range(q.num_vars())]
                T.extend(k for k in ks if k.sort() == I)
                b = z3.substitute_vars(q.body(), *reversed(ks))
                return skolem(b if sign else z3.Not(b))
            base = skolem(neg)
            for h in list(c.facts):
                if (z3.is_quantifier(h) and h.is_exists()) or z3.is_not(h):
                    base += skolem(h)
            inst = []
            for h in list(c.facts) + base:
                if z3.is_not(h) and z3.is_quantifier(h.arg(0)) and h.arg(0).is_exists():
                    q, sign = h.arg(0), False
                elif z3.is_quantifier(h) and h.is_forall():
                    q, sign = h, True
                else:
                    continue
                n = q.num_vars()
                if n > 2 or any(q.var_sort(k) != I for k in range(n)) or len(T) ** n > 64:
                    continue
                for combo in itertools.product(T, repeat=n):
                    b = z3.substitute_vars(q.body(), *reversed(combo))
                    inst.append(b if sign else z3.Not(b))
            for h in base + inst:
                c.hyp(h)
            # the facts contradict the negated goal
            if c.check([], timeout=timeout or self.sp["timeout"]) == z3.unsat:
                ok = True
            else:
                ok = False
        return ok

    def witness(self, clause, axes, fn, pool, timeout=None):
        """some index of the axes has the property: the witness is built from the terms of the pool"""
        axl = [x if isinstance(x, A.Axis) else Range(x) for x in (axes if isinstance(axes, (list, tuple)) else [axes])]
        pool = [u for u in pool if not isinstance(u, (tuple, list))]
        for idx in A.multi_cases(axl, "w"):
            vs = A.ivars_of(idx)
            if len(pool) ** len(vs) > 300:
                continue
            for combo in itertools.product(pool, repeat=len(vs)):
                cand = A.rebuild_index(idx, combo)
                parts = [A.in_axis(a, u) for a, u in zip(axl, cand)]
                if not all(self.c.valid(g, timeout=1500) for g in parts):
                    continue
                f = fn(*cand); print("CAND", cand, f) if self.runner.verbose == "4" else None
                if self.c.valid(f, timeout=timeout or 3000):
                    for g in parts + [f]:
                        self.prove(clause, g, timeout)
                    return
        self.prove(clause, A.exists(axl, fn), timeout)

    def same_axis(self, clause, a, b):
        self.prove(clause, A.ax_same(a, b) or s_eq(A.ax_len(a), A.ax_len(b)))

    def equal_arr(self, clause, a, axes, fn, timeout=None):
        """a has the shape of the axes and its elements are fn(index)"""
        if not isinstance(a, Arr):
            self.prove(clause + ": is an array", False)
            return
        axes = [x if isinstance(x, A.Axis) else Range(x) for x in axes]
        self.prove(clause + ": dimension", a.ndim == len(axes))
        if a.ndim != len(axes):
            return
        maps = []
        for p, q in zip(axes, a.axes):
            if A.ax_same(p, q):
                self.prove(clause + ": shape", True)
                maps.append(None)
            else:
                self.prove(clause + ": shape", s_eq(A.ax_len(p), A.ax_len(q)))
                maps.append((p, q))
        if any(isinstance(q, Range) and isinstance(q.n, int) and q.n == 0 for q in a.axes):
            return
        for idx in A.each(axes, "e"):
            j = [u if m is None else A.pos_to_index(m[1], A.index_to_pos(m[0], u)) for u, m in zip(idx, maps)]
            self.prove(clause + ": values", s_eq(a.fn(*j), fn(*idx)), timeout)


class Runner:
    def __init__(self, tier="quick"):
        self.tier = tier
        self.acc = {}
        self.undecided = []
        self.assumed = set()
        self.functions = set()
        self.solver_s = 0.0
        self.queries = 0
        self.vacuity = []
        self.verbose = os.environ.get("VC_VERBOSE")

    def dump(self):
        return dict(acc=self.acc, undecided=self.undecided, assumed=self.assumed, functions=self.functions, solver_s=self.solver_s, queries=self.queries, vacuity=self.vacuity)

    def merge(self, d):
        self.acc.update(d.get("acc", {}))
        self.undecided += d.get("undecided", [])
        self.assumed |= d.get("assumed", set())
        self.functions |= d.get("functions", set())
        self.solver_s += d.get("solver_s", 0)
        self.queries += d.get("queries", 0)
        self.vacuity += d.get("vacuity", [])

    def obligation(self, v, clause, f, timeout):
        t = time.time()
        status, backend, detail = self.decide(v, f, timeout)
        self.record(v, clause, status, backend, detail, t)

    def record(self, v, clause, status, backend, detail, t=None):
        c = v.c
        t = t or time.time()
        key = (v.sp["name"], clause)
        e = self.acc.setdefault(key, dict(status="proved", backends=set(), seconds=0.0, detail="", paths=0, instances=0))
        e["seconds"] += time.time() - t
        e["backends"].add(backend)
        e["instances"] += 1
        e.setdefault("pathset", set()).add(tuple(c.decisions))
        if status != "proved":
            if e["status"] == "proved" or status == "refuted":
                e["status"] = status
                e["detail"] = "path: %s\n%s" % (" / ".join(c.trail) or "-", detail)
        if self.verbose and (status != "proved" or time.time() - t > 3):
            print("   ", status, clause, "%.1fs" % (time.time() - t), "path:", c.trail)
            if self.verbose == "2" and status != "proved":
                print(detail[:3000])

    def decide(self, v, f, timeout):
        c = v.c
        if isinstance(f, bool):
            if f:
                return "proved", "simplifier", ""
            r = c.check([], timeout=timeout)
            if r == z3.unsat:
                return "proved", "z3", ""
            if v.raised is None:
                # a difference of structure (axes, types): no statement about values
                return "undecided", "simplifier", "the structure of the result is not the expected one"
            f = z3.BoolVal(False)
        f = zbool(f)
        sf = z3.simplify(f)
        if z3.is_true(sf):
            return "proved", "simplifier", ""
        if z3.is_eq(f) and z3.is_arith(f.arg(0)) and not A.sum_apps([f]) and A.poly_equal(f.arg(0), f.arg(1)):
            return "proved", "polynomial normal form", ""
        r = c.check([z3.Not(f)], timeout=timeout)
        if r == z3.unsat:
            return "proved", "z3", ""
        model = None
        if r == z3.sat:
            try:
                model = c.last_solver.model()
            except z3.Z3Exception:
                model = None
        if A.sum_apps([f]):
            if A.sum_lemmas([f]) and c.check([z3.Not(f)], timeout=timeout) == z3.unsat:
                return "proved", "z3", ""
            r = z3.unknown if r == z3.sat else r
        if r == z3.unknown or r == z3.sat:
            if r == z3.unknown and cvc5_unsat(c, f, timeout):
                return "proved", "cvc5", ""
        if r == z3.sat:
            names = decls(list(c.facts) + [f])
            vague = [n for n in names if n not in v.inputs and not n.startswith("$") and n not in ("pi", "mu_0")]
            txt = show_model(model, v, names)
            if not vague and not c.tainted:
                return "refuted", "z3", "counter-model: %s\nobligation: %s" % (txt, str(sf)[:600])
            return "undecided", "z3", "satisfiable over abstracted symbols %s: %s\nobligation: %s" % (vague[:6], txt, str(sf)[:1500])
        return "undecided", "z3", "unknown\nobligation: %s" % str(sf)[:1500]

    def run_spec(self, sp):
        pending = [[]]
        paths = 0
        live = 0
        t0 = time.time()
        while pending:
            dec = pending.pop()
            if paths >= sp["max_paths"]:
                self.undecided.append("%s: more than %d paths" % (sp["name"], paths))
                break
            c = Ctx(sp["timeout"])
            c.decisions = list(dec)
            core.CTX.append(c)
            ip = IN.Interp(sp["overrides"])
            v = V(self, sp, c, ip)
            ip.loops = {k: (lambda h: lambda *a: h(v, *a))(h) for k, h in sp["loops"].items()}
            paths += 1
            before = {k: dict(e, backends=set(e["backends"]), pathset=set(e.get("pathset", ()))) for k, e in self.acc.items()}
            try:
                sp["run"](v)
                r = c.check([], timeout=1000)
                if r == z3.unsat:
                    # vacuous path: what was proved on it does not count
                    self.acc = before
                else:
                    live += 1
                    self.safety(v)
            except Skip:
                if c.check([], timeout=1000) == z3.unsat:
                    self.acc = before
                else:
                    live += 1
                    self.safety(v)
            except PathAbort:
                self.acc = before
            except Unsupported as e:
                self.unsup(sp, c, e)
            except PyRaise as e:
                self.unsup(sp, c, Unsupported("exception outside of a contract call: %s" % e))
            except (z3.Z3Exception, RecursionError, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, NotImplementedError) as e:
                self.unsup(sp, c, e, True)
            finally:
                core.CTX.pop()
            pending += c.pending
            self.assumed |= c.assumed
            self.functions |= ip.called
            self.solver_s += c.solver_s
            self.queries += c.queries
        if not live:
            self.undecided.append("%s: no feasible path was completed" % sp["name"])
        self.vacuity.append("%s: %d paths, %d feasible" % (sp["name"], paths, live))
        if self.verbose:
            print("  %s: %d paths, %d feasible, %.1fs" % (sp["name"], paths, live, time.time() - t0))

    def unsup(self, sp, c, e, internal=False):
        if c.check([], timeout=2000) == z3.unsat:
            return
        txt = "%s: %s%s [path: %s]" % (sp["name"], "engine: " if internal else "", e, " / ".join(c.trail))
        if internal and self.verbose:
            traceback.print_exc()
        if self.verbose:
            print("    undecided", txt)
            if self.verbose == "3":
                traceback.print_exc()
        self.undecided.append(txt)

    def safety(self, v):
        """the executed code cannot fail by itself: indices in range, shapes agree, ..."""
        c = v.c
        seen = set()
        for text, cond, facts in c.safety:
            f = zbool(cond)
            k = (z3.simplify(f).get_id(), len(facts))
            if k in seen:
                continue
            seen.add(k)
            t = time.time()
            if z3.is_true(z3.simplify(f)):
                ok = True
            else:
                ok = c.check([z3.Not(f)], timeout=1500, facts=facts) == z3.unsat
                if not ok:
                    ok = all(inst.refute(list(facts), g, [], timeout=v.sp["timeout"], budget=6.0) for g in conjuncts(f))
                if not ok:
                    ok = c.check([z3.Not(f)], timeout=v.sp["timeout"], facts=facts) == z3.unsat
                if not ok:
                    ok = c.check([z3.Not(f)], timeout=v.sp["timeout"], facts=facts + c.facts) == z3.unsat
            key = (v.sp["name"], "no failure: " + text)
            e = self.acc.setdefault(key, dict(status="proved", backends=set(), seconds=0.0, detail="", paths=0, instances=0))
            e["seconds"] += time.time() - t
            e["backends"].add("z3")
            e["instances"] += 1
            e.setdefault("pathset", set()).add(tuple(c.decisions))
            if not ok and e["status"] == "proved":
                e["status"] = "undecided"
                e["detail"] = "path: %s\n%s" % (" / ".join(c.trail) or "-", str(z3.simplify(f))[:800])
                if self.verbose:
                    print("    undecided safety:", text, str(z3.simplify(f))[:300 if self.verbose != "2" else 3000])

    def result(self):
        obs = []
        bad = {u.split(":")[0] for u in self.undecided}
        for (name, clause), e in self.acc.items():
            st, det = e["status"], e["detail"]
            if st == "proved" and name in bad:
                st, det = "undecided", "some path of this contract is outside of the supported subset"
            obs.append(dict(function=name, clause=clause, status=st, backend="+".join(sorted(e["backends"])), seconds=round(e["seconds"], 3), detail=det, paths=len(e["pathset"]), instances=e["instances"]))
        return obs


def conjuncts(f):
    """the conjuncts of an obligation, bound variables at arbitrary constants"""
    f = z3.simplify(f)
    if z3.is_and(f):
        return [h for g in f.children() for h in conjuncts(g)]
    if z3.is_quantifier(f) and f.is_forall():
        xs = [z3.FreshConst(f.var_sort(k), "sk") for k in range(f.num_vars())]
        return conjuncts(z3.substitute_vars(f.body(), *reversed(xs)))
    return [f]


def show_model(m, v, names):
    if m is None:
        return "-"
    out = []
    for d in m.decls():
        if d.name() in v.inputs:
            out.append("%s = %s" % (d.name(), str(m[d]).replace("\n", " ")[:160]))
    return "; ".join(sorted(out))[:1500]


def cvc5_unsat(c, f, timeout):
    s = z3.Solver()
    for g in c.facts:
        s.add(g)
    s.add(z3.Not(f))
    txt = s.to_smt2()
    if len(txt) > 400000:
        return False
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
        fh.write("(set-logic ALL)\n" + txt)
    t = time.time()
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % min(timeout, 8000), fh.name], capture_output=True, text=True, timeout=30)
        return r.stdout.strip().startswith("unsat")
    except (OSError, subprocess.TimeoutExpired):
        return False
    finally:
        c.solver_s += time.time() - t
        os.unlink(fh.name)
