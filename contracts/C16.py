"""Convergence and condition are reported honestly and the solver terminates."""
from contracts.common import *  # noqa
from contracts.wiring import Wiring, Tok, T, solver_spec
from vc import loops
from vc.values import Closure
from vc.interp import Instance

EQ = "pypeec.lib_solver.equation_solver"
MI = "pypeec.lib_matrix.matrix_iterative"
MC = "pypeec.lib_matrix.matrix_condition"
RUN = "pypeec.run.solver"
ASSUMED = ["the complex power of an iteration is a numpy number (its difference to a list is taken elementwise)",
           "contract of the iterative library: a flag of zero is returned when the method has converged"]


def norm(*parts):
    """Euclidean norm of the vector which is made of the parts (length, element function)"""
    s = 0
    for n, f in parts:
        s = s_add(s, A.sum_over([Range(n)], lambda i: mag2(f(i))))
    return s_sqrt(s)


def same(a, b):
    """the same objects (containers are copied by the calls)"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b


def mag2(x):
    x = to_cx(x)
    return s_add(s_mul(x.re, x.re), s_mul(x.im, x.im))


def vectors(v):
    nc, nm = v.int("n_c", lo=0), v.int("n_m", lo=0)
    return nc, nm, (v.array("rhs_c", nc, "complex"), v.array("rhs_m", nm, "complex"))


def both(pair, nc):
    """element function of the concatenation"""
    return lambda i: s_ite(s_cmp("<", i, nc), pair[0].fn(i), pair[1].fn(s_sub(i, nc)))


@spec("equation_solver._get_status", [EQ + ":_get_status"])
def status(v):
    nc, nm, rhs = vectors(v)
    n = s_add(nc, nm)
    sol = v.array("sol", n, "complex")
    out = [v.array("out_c", nc, "complex"), v.array("out_m", nm, "complex")]
    w = Wiring(v)
    full = A.concat(out)
    seen = []

    def fct(*args):
        seen.append(args)
        return full
    v.override(EQ + ":_fct_sys_all", fct)
    cpl, sy = Opaque("fct_cpl"), Opaque("fct_sys")
    ok = v.bool("status")
    o = {"ignore_status": v.bool("ignore_status"), "ignore_res": v.bool("ignore_res"), "rel_tol": v.real("rel_tol"), "abs_tol": v.real("abs_tol")}
    r = v.call(EQ, "_get_status", ok, sol, rhs, cpl, sy, o)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("the full system is evaluated at the returned solution", len(seen) == 1 and seen[0][0] is sol and seen[0][2] is cpl and seen[0][3] is sy)
    (st, res, val, thr) = r
    rows(v, "residuum", res, [(nc, lambda i: s_sub(out[0].fn(i), rhs[0].fn(i)), "electric equations"), (nm, lambda i: s_sub(out[1].fn(i), rhs[1].fn(i)), "magnetic equations")])
    nr = norm((nc, lambda i: s_sub(out[0].fn(i), rhs[0].fn(i))), (nm, lambda i: s_sub(out[1].fn(i), rhs[1].fn(i))))
    v.prove("the reported residuum is the norm of the residuum", s_eq(val, nr))
    want = s_max(s_mul(o["rel_tol"], norm((nc, rhs[0].fn), (nm, rhs[1].fn))), o["abs_tol"])
    v.prove("the threshold is the larger one of the tolerances", s_eq(thr, want))
    v.prove("success exactly if the residuum and the solver are accepted or not considered",
            s_eq(zbool(st), b_and(b_or(o["ignore_res"], s_cmp("<", val, thr)), b_or(o["ignore_status"], ok))))


# ------------------------------------------------------------ power criterion
class Counter:
    """the object which follows the iterations, in the state after any number k of iterations.

    The state is found by running the real code: a counter and the list of the powers are the only
    attributes which an iteration changes (checked, from an arbitrary state); nothing depends on
    the names of the attributes.
    """

    def __init__(self, v, opts):
        self.v = v
        self.opts = opts
        self.power = [v.cx("p0")]
        self.conv = Builtin("fct_conv", lambda ip, args, kwargs: self.fct(args[0]))
        self.seen = []
        self.obj = self.make()

    def fct(self, sol):
        self.seen.append(sol)
        return self.power[-1]

    def make(self, **kw):
        v = self.v
        o = v.call(v.fn(EQ, "_IterCounter"), self.conv, PDict(dict(self.opts, **kw)))
        if v.raised:
            raise Unsupported("the counter cannot be made: %s" % v.raised)
        return o

    def call(self, name, *args):
        v = self.v
        return v.call(v.ip.getattr(self.obj, name), *args)

    def state(self, k, powers):
        """brings the object into the state after k iterations with the given powers"""
        probe = self.make(stop=False, n_min=0)
        before = {n: (list(x) if isinstance(x, list) else x) for n, x in probe.attrs.items()}
        v = self.v
        p = v.cx("probe")
        self.power.append(p)
        v.call(v.ip.getattr(probe, "get_callback_run"), Opaque("sol"))
        self.power.pop()
        self.seen.clear()
        if v.raised:
            raise Unsupported("iteration without power criterion fails: %s" % v.raised)
        cnt, lst = [], []
        for n, x in probe.attrs.items():
            if n in before and isinstance(before[n], list) and before[n] == [] and isinstance(x, list) and len(x) == 1 and x[0] is p:
                lst.append(n)
            elif n in before and before[n] == 0 and not isinstance(before[n], bool) and isinstance(x, int) and x == 1:
                cnt.append(n)
            elif n not in before or not (x is before[n] or before[n] == x):
                raise Unsupported("state of the counter")
        if len(cnt) != 1 or len(lst) != 1:
            raise Unsupported("state of the counter")
        self.cnt, self.lst = cnt[0], lst[0]
        v.prove("no iteration at the start", s_eq(self.obj.attrs[self.cnt], 0) and len(self.obj.attrs[self.lst]) == 0)
        self.obj.attrs[self.cnt] = k
        self.obj.attrs[self.lst] = SList(Range(k), powers)
        return before


def power_options(v):
    return {"stop": v.bool("stop"), "n_min": v.int("n_min", lo=0), "n_cmp": v.int("n_cmp", lo=0), "rel_tol": v.real("rel_tol"), "abs_tol": v.real("abs_tol", lo=0)}


@spec("equation_solver._IterCounter.get_callback_run", [EQ + ":_IterCounter.__init__", EQ + ":_IterCounter.get_callback_run", EQ + ":_IterCounter.get_n_iter", EQ + ":_IterCounter.get_conv", EQ + ":PowerConvergenceError.__init__"])
def power(v):
    o = power_options(v)
    k = v.int("k", lo=0)
    hist = v.fun("power", 1, "complex")
    c = Counter(v, o)
    c.state(k, hist)
    others = {n: x for n, x in c.obj.attrs.items() if n not in (c.cnt, c.lst)}
    sol = v.array("sol", v.int("n", lo=0), "complex")
    P = v.cx("P")
    c.power.append(P)
    c.call("get_callback_run", sol)
    exc = v.raised
    v.raised = None
    if exc is not None:
        v.prove("the only error is the signal of the convergence", isinstance(exc.cls, ClassV) and exc.cls.is_exception())
    n = s_add(k, 1)
    q = v.fun("q", 0)()                    # any of the compared iterations
    m = lambda j: s_abs(s_sub(P, hist(j)))  # noqa
    thr = s_max(s_mul(o["rel_tol"], s_abs(P)), o["abs_tol"])
    cmp_ = A.forall(Range(o["n_cmp"]), lambda j: s_cmp("<=", m(s_add(s_sub(k, o["n_cmp"]), j)), thr))
    enough = b_and(s_cmp(">=", n, o["n_min"]), s_cmp(">=", n, s_add(o["n_cmp"], 1)), s_cmp(">=", n, 2))
    if exc is not None:
        v.prove("stops only if requested", o["stop"])
        v.prove("stops only after the minimum number of iterations", enough)
        for j in v.each(Range(o["n_cmp"])):
            v.prove_inst("stops only if the power agrees with each of the compared ones", s_cmp("<=", m(s_add(s_sub(k, o["n_cmp"]), j)), thr), [j])
        a = exc.value.attrs
        v.prove("the solution of the iteration is kept", any(x is sol for x in a.values()))
        v.prove("the convergence is kept", any(is_bool(x) and v.c.valid(zbool(x)) for x in a.values()))
    else:
        v.prove_inst("goes on only if the criterion is not met", b_not(b_and(o["stop"], enough, cmp_)), [0])
    v.prove("the power of the iterate is evaluated", len(c.seen) == 1 and c.seen[0] is sol)
    v.prove("one more iteration", s_eq(c.call("get_n_iter"), n))
    conv = c.call("get_conv")
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    pv = conv["power_vec"]
    v.prove("one power per iteration", isinstance(pv, SList) and s_eq(pv.length(), n))
    if isinstance(pv, SList):
        for j in v.each(Range(k)):
            v.prove("the powers of the iterations are kept", s_eq(pv.elem(j), hist(j)))
        v.prove("the power of the iteration is added", s_eq(pv.elem(k), P))
    v.prove("nothing else is changed", all(c.obj.attrs.get(x) is y for x, y in others.items()) and set(c.obj.attrs) == set(others) | {c.cnt, c.lst})


# ------------------------------------------------------------ alternating method
class Iterations:
    """object which counts the iterations (contract of the counter above)"""
    __vc_methods__ = ("get_callback_run", "get_n_iter")

    def __init__(self, k):
        self.k, self.sols = k, []

    def get_callback_run(self, sol):
        self.k = s_add(self.k, 1)
        self.sols.append(sol)

    def get_n_iter(self):
        return self.k


@spec("equation_solver._get_solver_segregated", [EQ + ":_get_solver_segregated"], timeout=20000)
def segregated(v):
    nc, nm, rhs = vectors(v)
    n = s_add(nc, nm)
    o = {"rel_tol": v.real("rel_tol"), "abs_tol": v.real("abs_tol"), "n_min": v.int("n_min", lo=0), "n_max": v.int("n_max", lo=1),
         "relax_electric": v.real("relax_electric"), "relax_magnetic": v.real("relax_magnetic"), "iter_electric_options": Opaque("iter_electric"), "iter_magnetic_options": Opaque("iter_magnetic")}
    init = v.array("sol_init", n, "complex")
    it, ops = Iterations(0), Opaque("op_obj")
    log = []

    def op(name, n_out):
        def run(ip, args, kwargs):
            y = v.array(name, n_out, "complex")
            log.append((name, args[0], y))
            return y
        return Builtin(name, run)
    cpl, sy, pcd = (op("cpl_c", nc), op("cpl_m", nm)), (op("sys_c", nc), op("sys_m", nm)), (Opaque("pcd_c"), Opaque("pcd_m"))

    def solve(*args, **kwargs):
        f = v.fn(EQ, "_get_solver_domain")
        e = {}
        v.ip.bind(f, list(args), kwargs, e)
        size = nc if e["rhs"] is rhs[0] else nm
        y = v.array("solution", size, "complex")
        s = v.bool("domain_ok")
        log.append(("solve", e, s, y))
        return (s, y)
    v.override(EQ + ":_get_solver_domain", solve)
    start = {}

    def havoc(name, val):
        if isinstance(val, Arr):
            x = v.array("state_" + name, val.axes, val.kind)
            start[name] = (val, x)
            return x
        if isinstance(val, bool):
            return v.bool("state_" + name)
        if val is None:
            return Poison("value of the previous iteration")
        raise Unsupported("carried variable %s" % name)

    def loop(ip, st, seq, fr):
        if not isinstance(st, __import__("ast").While):
            raise Unsupported("the loop has another form")
        k = v.int("k", lo=0)
        v.prove("the iterations start at zero", it.k == 0)

        def again(env):
            for name, (x0, x) in start.items():
                y = env.get(name)
                v.prove("shape of the iterate", isinstance(y, Arr) and y.kind == x0.kind and len(y.axes) == 1 and s_eq(A.ax_len(y.axes[0]), A.ax_len(x0.axes[0])))
            v.prove("one iteration at a time", s_eq(it.k, s_add(k, 1)))
            v.prove("another iteration only below the maximum (the loop ends)", s_cmp("<", it.k, o["n_max"]))
            iteration(False)
        old = it.k

        def hv(name, val):
            return havoc(name, val)
        # invariant: below the maximum number of iterations
        v.assume(s_cmp("<", k, o["n_max"]))
        it.k = k
        log.clear()
        loops.while_by_invariant(ip, st, fr, hv, again)
        return True

    def iteration(stopped, status=None):
        """the documented iteration"""
        calls = [x for x in log if x[0] == "solve"]
        v.prove("one solution per domain", len(calls) == 2)
        if len(calls) != 2:
            raise Skip()
        e, m = calls[0], calls[1]
        by = {id(x): n_ for n_, (_, x) in start.items()}
        v.prove("the carried iterates", len(start) == 2)
        old_c, old_m = e[1]["sol_init"], m[1]["sol_init"]
        v.prove("the electric domain continues from its last iterate", id(old_c) in by and id(old_m) in by and old_c is not old_m)
        v.prove("with the last magnetic iterate", e[1]["sol_other"] is old_m)
        relax = lambda r, a, b: (lambda i: s_add(s_mul(s_sub(1, r), a.fn(i)), s_mul(r, b.fn(i))))  # noqa
        new_c, new_m = relax(o["relax_electric"], old_c, e[3]), relax(o["relax_magnetic"], old_m, m[3])
        v.equal_arr("then the magnetic domain with the relaxed electric iterate", m[1]["sol_other"], [Range(nc)], new_c)
        for x, names in ((e, ("c", 0, "electric")), (m, ("m", 1, "magnetic"))):
            v.prove("data of the %s domain" % names[2], x[1]["fct_cpl"] is cpl[names[1]] and x[1]["fct_sys"] is sy[names[1]] and x[1]["fct_pcd"] is pcd[names[1]] and x[1]["rhs"] is rhs[names[1]]
                    and x[1]["iter_options"] is o["iter_%s_options" % names[2]] and x[1]["op_obj"] is ops)
        use = {}
        for x in log:
            if x[0] != "solve":
                v.prove("each operator is applied once", x[0] not in use)
                use[x[0]] = x
        v.prove("all the operators are applied", set(use) == {"sys_c", "sys_m", "cpl_c", "cpl_m"})
        if len(use) != 4:
            raise Skip()
        for name, size, f in (("sys_c", nc, new_c), ("cpl_m", nc, new_c), ("sys_m", nm, new_m), ("cpl_c", nm, new_m)):
            v.equal_arr("operand of the operator " + name, use[name][1], [Range(size)], f)
        y = {k_: x[2].fn for k_, x in use.items()}
        res = norm((nc, lambda i: s_sub(s_add(y["sys_c"](i), y["cpl_c"](i)), rhs[0].fn(i))), (nm, lambda i: s_sub(s_add(y["sys_m"](i), y["cpl_m"](i)), rhs[1].fn(i))))
        thr = s_max(s_mul(o["rel_tol"], norm((nc, rhs[0].fn), (nm, rhs[1].fn))), o["abs_tol"])
        good = b_and(e[2], m[2], s_cmp("<=", res, thr))
        v.prove("the iterate is reported", len(it.sols) == 1)
        if len(it.sols) == 1:
            rows(v, "reported iterate", it.sols[0], [(nc, new_c, "electric part"), (nm, new_m, "magnetic part")])
        done = b_and(good, s_cmp(">=", it.k, o["n_min"]))
        if stopped:
            v.prove("stops at convergence or at the maximum", b_or(s_cmp(">=", it.k, o["n_max"]), done))
            v.prove("never more than the maximum number of iterations", s_cmp("<=", it.k, o["n_max"]))
            v.prove("the status is the convergence of the domains and of the residuum", s_eq(zbool(status), good))
        else:
            v.prove("goes on only without convergence", b_not(done))
        return new_c, new_m
    v.loop(EQ + ":_get_solver_segregated", lambda ip, st, seq, fr: loop(ip, st, seq, fr))
    r = v.call(EQ, "_get_solver_segregated", init, cpl, sy, pcd, rhs, o, ops, it)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("the loop has been entered", len(start) > 0)
    if not start:
        return
    for name, (x0, x) in start.items():
        pass
    new_c, new_m = iteration(True, r[0])
    rows(v, "solution", r[1], [(nc, new_c, "last electric iterate"), (nm, new_m, "last magnetic iterate")])
    old_c = [x for x in log if x[0] == "solve"][0][1]["sol_init"]
    first = {id(x): x0 for _, (x0, x) in start.items()}
    old_m = [x for x in log if x[0] == "solve"][1][1]["sol_init"]
    v.equal_arr("the first electric iterate is the initial guess", first[id(old_c)], [Range(nc)], lambda i: init.fn(i))
    v.equal_arr("the first magnetic iterate is the initial guess", first[id(old_m)], [Range(nm)], lambda i: init.fn(s_add(nc, i)))


# ------------------------------------------------------------ operators and library
class LinOp:
    """operator of the library: matvec is applied to the vectors"""

    def __init__(self, shape, matvec, rmatvec=None):
        self.shape, self.mv, self.rmv = shape, matvec, rmatvec


def linear_operator(v):
    def make(shape=None, matvec=None, rmatvec=None, dtype=None, **kw):
        if kw:
            raise Unsupported("options of a linear operator")
        return LinOp(shape, matvec, rmatvec)
    v.override("scipy.sparse.linalg.LinearOperator", make)


def counts(v, obj):
    return v.call(v.ip.getattr(obj, "get_n_sys_eval")), v.call(v.ip.getattr(obj, "get_n_pcd_eval"))


@spec("equation_solver._OpCounter", [EQ + ":_OpCounter.__init__", EQ + ":_OpCounter.get_fct_pcd", EQ + ":_OpCounter.get_fct_sys", EQ + ":_OpCounter.get_n_pcd_eval", EQ + ":_OpCounter.get_n_sys_eval"])
def operators(v):
    linear_operator(v)
    obj = v.call(v.fn(EQ, "_OpCounter"))
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("nothing is evaluated at the start", tuple(counts(v, obj)) == (0, 0))
    n = v.int("n", lo=0)
    seen = []
    y = v.array("y", n, "complex")
    f = Builtin("op", lambda ip, args, kwargs: (seen.append(args[0]), y)[1])
    # any number of evaluations before
    ks, kp = v.int("k_sys", lo=0), v.int("k_pcd", lo=0)
    zero = [a for a, x in obj.attrs.items() if x == 0 and not isinstance(x, bool)]
    which = v.branch(v.bool("sys"), "system operator")
    op = v.call(v.ip.getattr(obj, "get_fct_sys" if which else "get_fct_pcd"), f, n)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    if len(zero) != 2:
        raise Unsupported("state of the counter of the evaluations")
    for a, k in zip(zero, (ks, kp)):
        obj.attrs[a] = k
    c0 = counts(v, obj)
    v.prove("counters of the evaluations", {str(c0[0]), str(c0[1])} == {str(ks), str(kp)})
    x = v.array("x", n, "complex")
    r = v.call(op.mv, x)
    v.prove("no error", v.raised is None)
    v.prove("the operator is applied once to the vector", len(seen) == 1 and seen[0] is x and r is y)
    v.prove("shape of the operator", b_and(s_eq(op.shape[0], n), s_eq(op.shape[1], n)))
    c1 = counts(v, obj)
    v.prove("one evaluation more of this operator", s_eq(c1[0 if which else 1], s_add(c0[0 if which else 1], 1)))
    v.prove("the other counter is kept", s_eq(c1[1 if which else 0], c0[1 if which else 0]))


@spec("matrix_iterative.get_solve", [MI + ":get_solve"])
def iterative(v):
    n = v.int("n", lo=0)
    rhs, init = v.array("rhs", n, "complex"), v.array("init", n, "complex")
    flag = v.int("flag")
    x = v.array("x", n, "complex")
    lib = "gmres" if v.branch(v.bool("gmres"), "GMRES") else "gcrot"
    o = {"solver": lib, "rel_tol": v.real("rel_tol"), "abs_tol": v.real("abs_tol"), "n_inner": v.int("n_inner"), "n_outer": v.int("n_outer")}
    cb = Opaque("callback")
    ops, pcd = Opaque("sys"), Opaque("pcd")
    calls = []

    def method(name):
        def run(*args, **kw):
            calls.append((name, args, kw))
            return (x, flag)
        return run
    v.override("scipy.sparse.linalg.gmres", method("gmres"))
    v.override("scipy.sparse.linalg.gcrotmk", method("gcrot"))
    r = v.call(MI, "get_solve", init, ops, pcd, rhs, cb, o)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    if v.branch(s_eq(n, 0), "empty system"):
        v.prove("an empty system is solved", b_and(zbool(r[0]), s_eq(A.ax_len(r[1].axes[0]), 0)))
        return
    v.prove("one call of the selected method", len(calls) == 1 and calls[0][0] == lib)
    if len(calls) != 1:
        return
    _, args, kw = calls[0]
    kw = dict(kw)
    kw.update(zip(("A", "b", "x0"), args))
    v.prove("the given system and excitation", kw.get("A") is ops and kw.get("b") is rhs and kw.get("x0") is init and kw.get("M") is pcd and kw.get("callback") is cb)
    v.prove("tolerances of the options", b_and(s_eq(kw["rtol"], o["rel_tol"]), s_eq(kw["atol"], o["abs_tol"])))
    v.prove("iterations of the options", b_and(s_eq(kw["restart" if lib == "gmres" else "m"], o["n_inner"]), s_eq(kw["maxiter"], o["n_outer"])))
    if lib == "gmres":
        v.prove("the callback gets the iterate", kw.get("callback_type") == "x")
    v.prove("converged exactly with a flag of zero", s_eq(zbool(r[0]), s_eq(flag, 0)))
    v.prove("the solution of the method", r[1] is x)


def system_of(v, nc, nm):
    """coupled operators: each application is recorded"""
    log = []

    def op(name, n_out):
        def run(ip, args, kwargs):
            y = v.array(name, n_out, "complex")
            log.append((name, args[0], y))
            return y
        return Builtin(name, run)
    return log, (op("cpl_c", nc), op("cpl_m", nm)), (op("sys_c", nc), op("sys_m", nm)), (op("pcd_c", nc), op("pcd_m", nm))


@spec("equation_solver._get_solver_domain", [EQ + ":_get_solver_domain"])
def domain(v):
    linear_operator(v)
    n, m = v.int("n", lo=0), v.int("m", lo=0)
    rhs, init, other = v.array("rhs", n, "complex"), v.array("init", n, "complex"), v.array("other", m, "complex")
    log, cpl, sy, pcd = system_of(v, n, m)
    got = []
    ok, sol = v.bool("ok"), v.array("sol", n, "complex")

    def solve(sol_init, op_sys, op_pcd, rhs_, callback, options):
        got.append((sol_init, op_sys, op_pcd, rhs_, callback, options))
        return (ok, sol)
    v.override(MI + ":get_solve", solve)
    obj = v.call(v.fn(EQ, "_OpCounter"))
    opts = Opaque("options")
    r = v.call(EQ, "_get_solver_domain", init, other, cpl[0], sy[0], pcd[0], rhs, opts, obj)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("one solution", len(got) == 1)
    if len(got) != 1:
        return
    (si, os_, op_, b, cb, oo) = got[0]
    v.prove("result of the method", r[0] is ok and r[1] is sol)
    v.prove("initial guess and options", si is init and oo is opts)
    v.prove("the coupling is evaluated once for the other domain", len(log) == 1 and log[0][0] == "cpl_c" and log[0][1] is other)
    if len(log) != 1:
        return
    v.equal_arr("excitation minus coupling", b, [Range(n)], lambda i: s_sub(rhs.fn(i), log[0][2].fn(i)))
    x = v.array("x", n, "complex")
    for op, name in ((os_, "sys_c"), (op_, "pcd_c")):
        log.clear()
        y = v.call(op.mv, x)
        v.prove("no error", v.raised is None)
        v.prove("the operator of the domain: " + name, len(log) == 1 and log[0][0] == name and log[0][1] is x and log[0][2] is y)


@spec("equation_solver.get_solver: direct", [EQ + ":get_solver", EQ + ":_get_solver_direct", EQ + ":_fct_sys_all", EQ + ":_fct_pcd_all"])
def direct(v):
    run_solver(v, "direct")


@spec("equation_solver.get_solver: segregated", [EQ + ":get_solver"])
def alternating(v):
    run_solver(v, "segregated")


def run_solver(v, coupling):
    linear_operator(v)
    nc, nm, rhs = vectors(v)
    n = s_add(nc, nm)
    log, cpl, sy, pcd = system_of(v, nc, nm)
    o = {"coupling": coupling, "tolerance_options": Tok("tolerance"), "direct_options": Tok("direct"), "segregated_options": Tok("segregated"),
         "power_options": {"stop": v.bool("stop"), "n_min": 0, "n_cmp": 1, "rel_tol": v.real("rel_tol", lo=0), "abs_tol": v.real("abs_tol", lo=0)}}
    given = v.branch(v.bool("given"), "initial guess given")
    init = v.array("init", n, "complex") if given else None
    P, seen = v.cx("P"), []
    conv = Builtin("fct_conv", lambda ip, args, kwargs: (seen.append(args[0]), P)[1])
    sols = [v.array("sol%d" % k, n, "complex") for k in range(4)]
    ok = v.bool("ok")
    more = v.branch(v.bool("more"), "three iterations")
    K = 3 if more else 1
    stop = v.branch(o["power_options"]["stop"], "power criterion")
    got = []
    w = Wiring(v)
    x0 = []

    def check_init(x):
        x0.append(x)
        v.equal_arr("initial guess (zero if none is given)", x, [Range(n)], (lambda i: init.fn(i)) if given else (lambda i: Cx(0, 0)))

    def solve(sol_init, op_sys, op_pcd, b, callback, options):
        check_init(sol_init)
        got.append("solve")
        v.prove("options of the direct method", options is o["direct_options"])
        rows(v, "excitation", b, [(nc, rhs[0].fn, "electric part"), (nm, rhs[1].fn, "magnetic part")])
        x = v.array("x", n, "complex")
        y = v.call(op_sys.mv, x)
        v.prove("no error", v.raised is None)
        names = {q[0]: q for q in log}
        v.prove("the coupled system is applied", len(log) == 4 and set(names) == {"sys_c", "cpl_c", "sys_m", "cpl_m"})
        if len(log) == 4 and len(names) == 4:
            f = {k: q[2].fn for k, q in names.items()}
            rows(v, "system operator", y, [(nc, lambda i: s_add(f["sys_c"](i), f["cpl_c"](i)), "electric equations"), (nm, lambda i: s_add(f["sys_m"](i), f["cpl_m"](i)), "magnetic equations")])
        log.clear()
        for k in range(2):
            y = v.call(op_pcd.mv, x)
            v.prove("no error", v.raised is None)
            names = {q[0]: q for q in log}
            v.prove("the preconditioners are applied", len(log) == 2 and set(names) == {"pcd_c", "pcd_m"})
            if len(log) == 2 and len(names) == 2:
                rows(v, "preconditioner", y, [(nc, names["pcd_c"][2].fn, "electric part"), (nm, names["pcd_m"][2].fn, "magnetic part")])
            log.clear()
        for k in range(K):
            v.ip.call(callback, [sols[k]], {})
        return (ok, sols[3])
    v.override(MI + ":get_solve", solve)

    def alternate(*args, **kwargs):
        e = {}
        v.ip.bind(v.fn(EQ, "_get_solver_segregated"), list(args), kwargs, e)
        got.append("solve")
        check_init(e["sol_init"])
        v.prove("data of the alternating method", same(e["fct_cpl"], cpl) and same(e["fct_sys"], sy) and same(e["fct_pcd"], pcd) and same(e["rhs"], rhs) and e["segregated_options"] is o["segregated_options"])
        x = v.array("x", n, "complex")
        for name, k in (("get_fct_sys", 1), ("get_fct_pcd", 2)):
            op = v.ip.call(v.ip.getattr(e["op_obj"], name), [Builtin("f", lambda ip, a, kw: a[0]), n], {})
            for _ in range(k):
                v.ip.call(op.mv, [x], {})
        for k in range(K):
            v.ip.call(v.ip.getattr(e["iter_obj"], "get_callback_run"), [sols[k]], {})
        return (ok, sols[3])
    if coupling == "segregated":
        v.override(EQ + ":_get_solver_segregated", alternate)
    st = v.bool("global_status")
    seen_status = []

    def status_(*args, **kwargs):
        e = {}
        v.ip.bind(v.fn(EQ, "_get_status"), list(args), kwargs, e)
        seen_status.append(e)
        return (st, Tok("res"), Tok("res_val"), Tok("res_thr"))
    v.override(EQ + ":_get_status", status_)
    r = v.call(EQ, "get_solver", init, cpl, sy, pcd, rhs, conv, o)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("one solution", len(got) == 1 and len(seen_status) == 1)
    if len(got) != 1 or len(seen_status) != 1:
        return
    (sol, res, cv, s, info) = r
    fired = stop and more
    last = sols[1] if fired else sols[3]
    iters = 2 if fired else K
    e = seen_status[0]
    v.prove("the returned solution is the one which met the criterion", sol is last)
    v.prove("the status is evaluated for the returned solution", e["sol_all"] is last and same(e["rhs"], rhs) and same(e["fct_cpl"], cpl) and same(e["fct_sys"], sy) and e["tolerance_options"] is o["tolerance_options"])
    v.prove("convergence of the method or of the power", s_eq(zbool(e["status"]), True if fired else ok))
    v.prove("reported status", s is st and info["status"] is st)
    w.check("reported residuum", (res, info["res_val"], info["res_thr"]), (Tok("res"), Tok("res_val"), Tok("res_thr")))
    v.prove("reported iterations", s_eq(info["n_iter"], iters))
    v.prove("reported evaluations", b_and(s_eq(info["n_sys_eval"], 1), s_eq(info["n_pcd_eval"], 2)))
    v.prove("reported size", b_and(s_eq(info["n_dof_electric"], nc), s_eq(info["n_dof_magnetic"], nm), s_eq(info["n_dof_total"], n)))
    v.prove("power of each iterate", len(cv["power_vec"]) == iters and all(x is P for x in cv["power_vec"]) and cv["power_init"] is P and cv["power_final"] is P)
    want = [x0[0]] + sols[:iters] + [last] if x0 else []
    v.prove("powers of the initial guess, of the iterates and of the solution", len(seen) == len(want) and all(a is b for a, b in zip(seen[1:], want[1:])))


# ------------------------------------------------------------ condition
@spec("equation_solver.get_condition", [EQ + ":get_condition"])
def condition(v):
    vals = {"electric": v.real("cond_c"), "magnetic": v.real("cond_m")}
    mats, opts = (Opaque("S_c"), Opaque("S_m")), Opaque("norm_options")
    seen = []

    def cond(name, mat, norm_options):
        seen.append((name, mat, norm_options))
        return vals["electric" if mat is mats[0] else "magnetic"]
    v.override(MC + ":get_condition_matrix", cond)
    o = {"check": v.bool("check"), "tolerance_electric": v.real("tol_c"), "tolerance_magnetic": v.real("tol_m"), "norm_options": opts}
    r = v.call(EQ, "get_condition", mats, o)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    (st, info) = r
    on = v.branch(o["check"], "condition check")
    v.prove("status in the summary", s_eq(zbool(info["status"]), zbool(st)))
    v.prove("check in the summary", s_eq(zbool(info["check"]), on))
    if not on:
        v.prove("accepted without check", zbool(st))
        v.prove("no values without check", isinstance(info["cond_electric"], NaN) and isinstance(info["cond_magnetic"], NaN))
        return
    v.prove("accepted exactly if both condition numbers are below their limits", s_eq(zbool(st), b_and(s_cmp("<", vals["electric"], o["tolerance_electric"]), s_cmp("<", vals["magnetic"], o["tolerance_magnetic"]))))
    v.prove("condition numbers of the given matrices", len(seen) == 2 and {id(m) for _, m, _ in seen} == {id(m) for m in mats} and all(q is opts for _, _, q in seen))
    v.prove("reported condition numbers", b_and(s_eq(info["cond_electric"], vals["electric"]), s_eq(info["cond_magnetic"], vals["magnetic"])))


@spec("matrix_condition.get_condition_matrix", [MC + ":get_condition_matrix", MC + ":_get_condition_matrix_sub", MC + ":_get_inverse_operator"])
def condition_matrix(v):
    linear_operator(v)
    n = v.int("n", lo=0)
    mat = v.array("S", (n, n), "complex", sparse=True)
    solved = []

    class LU:
        __vc_methods__ = ("solve",)

        def __init__(self, m):
            self.m = m

        def solve(self, rhs, trans="N"):
            y = v.array("y", n, "complex")
            solved.append((self, rhs, trans, y))
            return y
    lus = []

    def splu(m):
        lus.append(LU(m))
        return lus[-1]
    v.override("scipy.sparse.linalg.splu", splu)
    est = []

    def onenormest(op, t=2, itmax=5, **kw):
        r = v.real("norm", lo=0)
        est.append((op, t, itmax, r))
        return r
    v.override("scipy.sparse.linalg.onenormest", onenormest)
    o = {"t_accuracy": v.int("t"), "n_iter_max": v.int("it")}
    r = v.call(MC, "get_condition_matrix", "electric", mat, o)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    if v.branch(s_eq(n, 0), "empty matrix"):
        v.prove("an empty matrix is well conditioned", s_eq(r, 0))
        return
    v.prove("two estimates of norms", len(est) == 2 and len(lus) == 1)
    if len(est) != 2 or len(lus) != 1:
        return
    inv = [x for x in est if isinstance(x[0], LinOp)]
    own = [x for x in est if isinstance(x[0], Arr)]
    v.prove("norm of the matrix and of its inverse", len(inv) == 1 and len(own) == 1)
    if len(inv) != 1 or len(own) != 1:
        return
    v.prove("options of the estimates", b_and(*[b_and(s_eq(x[1], o["t_accuracy"]), s_eq(x[2], o["n_iter_max"])) for x in est]))
    v.equal_arr("norm of the given matrix", own[0][0], [Range(n), Range(n)], lambda i, j: mat.fn(i, j))
    v.equal_arr("inverse of the given matrix", lus[0].m, [Range(n), Range(n)], lambda i, j: mat.fn(i, j))
    x = v.array("x", n, "complex")
    for f, tr in ((inv[0][0].mv, "N"), (inv[0][0].rmv, "H")):
        solved.clear()
        y = v.call(f, x)
        v.prove("no error", v.raised is None)
        v.prove("inverse operator: " + tr, len(solved) == 1 and solved[0][0] is lus[0] and solved[0][1] is x and solved[0][2] == tr and solved[0][3] is y)
    v.prove("shape of the inverse", b_and(s_eq(inv[0][0].shape[0], n), s_eq(inv[0][0].shape[1], n)))
    v.prove("product of the norms", s_eq(r, s_mul(est[0][3], est[1][3])))


# ------------------------------------------------------------ overall result
@spec("solver._get_data", [RUN + ":_get_data"])
def overall(v):
    n = v.int("n_sweep", lo=0)
    name = v.fun("name", 1)
    f = {k: v.fun(k, 1, "bool") for k in ("has_converged", "solver_ok", "condition_ok")}
    v.assume(A.forall([Range(n), Range(n)], lambda i, j: b_or(s_eq(i, j), b_not(s_eq(name(i), name(j))))))
    d = SDict(Range(n), lambda i: SymStr(name(i)), lambda i: PDict({k: g(i) for k, g in f.items()}))
    v.override("scilogger.get_duration", lambda *a: (Opaque("seconds"), Opaque("duration"), Opaque("date")))
    init = Opaque("init")
    r = v.call(RUN, "_get_data", init, d, Opaque("timestamp"))
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("success exactly if every sweep has converged with an accepted condition", s_eq(zbool(r["status"]), zbool(A.forall(Range(n), lambda i: b_and(*[g(i) for g in f.values()])))))
    v.prove("the data are returned", r["data_init"] is init and r["data_sweep"] is d)


def _sweep(s, w, r, d, i, p, t):
    v = s.v
    w.check("condition of the system matrix", [x for x in w.calls if x.name == "get_condition"], [t["condition"]])
    v.prove("success needs the solver and the condition", s_eq(zbool(r[0]["has_converged"]), b_and(s.solver_ok, s.condition_ok)))
    v.prove("status of the solver", s_eq(zbool(r[0]["solver_ok"]), s.solver_ok))
    v.prove("status of the condition", s_eq(zbool(r[0]["condition_ok"]), s.condition_ok))
    w.check("summaries", (r[0]["solver_status"], r[0]["condition_status"], r[0]["res"], r[0]["conv"]), (t["solver"][4], t["condition"][1], t["solver"][1], t["solver"][2]))
    w.check("solution", r[1], t["solver"][0])


solver_spec("sweep", _sweep)
