"""Sweeps run exactly once, in dependency order, with the right initial value."""
from contracts.common import *  # noqa
from contracts.wiring import Tok, T, Wiring, key
from vc import loops

M = "pypeec.lib_solver.sweep_joblib"
RUN = "pypeec.run.solver"
ASSUMED = ["joblib.Parallel calls every delayed function once and returns the results in the order of the calls",
           "the sweeps are finitely many: a sweep whose chain of initial sweeps does not end with nothing depends on a cycle or on an unknown name"]


class Forest:
    """sweeps (codes of their names), initial sweep of each of them, and what follows from that.

    reach(x): the chain of initial sweeps of x ends with nothing (least fixpoint: the depth is a
    natural number); anc(x, j): the member of this chain at depth j.
    """

    def __init__(self, v):
        self.v = v
        self.n = v.int("n_sweep", lo=0)
        self.name, where = v.fun("sweep", 1), v.fun("where_sweep", 1)
        self.parent = v.fun("initial", 1)
        self.reach, self.depth, self.anc = v.fun("reach", 1, "bool"), v.fun("depth", 1), v.fun("anc", 2)
        self.count, self.child, self.pos = v.fun("n_child", 1), v.fun("child", 2), v.fun("pos_child", 1)
        self.where = where
        i, x, j = v.c.ivar("i"), v.c.ivar("x"), v.c.ivar("j")

        def every(vs, f, pat):
            v.assume(z3.ForAll(vs, zbool(f), patterns=[pat]))
        # the sweeps have distinct names
        every([i], b_implies(b_and(s_cmp("<=", 0, i), s_cmp("<", i, self.n)), b_and(s_eq(where(self.name(i)), i), b_not(s_eq(self.name(i), NONE)))), self.name(i))
        self.x, self.j = x, j
        tag, up = self.tag, self.parent
        # the chain of the initial sweeps
        v.assume(b_and(self.reach(NONE), s_eq(self.depth(NONE), 0), s_eq(self.anc(NONE, 0), NONE)))
        every([x], b_implies(b_and(b_not(tag(x)), b_not(s_eq(x, NONE))), b_not(self.reach(x))), self.reach(x))
        every([x], b_implies(tag(x), s_eq(self.reach(x), self.reach(up(x)))), up(x))
        every([x], b_implies(b_and(tag(x), self.reach(x)), b_and(s_eq(self.depth(x), s_add(self.depth(up(x)), 1)), s_cmp(">=", self.depth(up(x)), 0))), up(x))
        every([x], b_implies(self.reach(x), b_and(s_cmp(">=", self.depth(x), 0), s_eq(self.anc(x, self.depth(x)), x))), self.depth(x))
        every([x, j], b_implies(b_and(tag(x), self.reach(x), s_cmp("<=", 0, j), s_cmp("<", j, self.depth(x))), s_eq(self.anc(x, j), self.anc(up(x), j))), self.anc(x, j))

    def tag(self, x):
        w = self.where(x)
        return b_and(s_cmp("<=", 0, w), s_cmp("<", w, self.n), s_eq(self.name(w), x))

    def chain(self):
        """the members of the chains (by induction on the depth of the sweep)"""
        v = self.v
        x, j = v.c.ivar("x"), v.c.ivar("j")

        def prop(x, j):
            a, b = self.anc(x, j), self.anc(x, s_add(j, 1))
            ok = b_and(self.reach(a), s_eq(self.depth(a), j), b_or(s_eq(a, NONE), self.tag(a)))
            up = b_implies(s_cmp("<", j, self.depth(x)), b_and(self.tag(b), self.reach(b), s_eq(self.depth(b), s_add(j, 1)), s_eq(self.parent(b), a)))
            return b_implies(b_and(self.reach(x), b_or(s_eq(x, NONE), self.tag(x)), s_cmp("<=", 0, j), s_cmp("<=", j, self.depth(x))), b_and(ok, up))
        with scope():
            # the initial sweep of x has a smaller depth
            y = self.parent(x)
            v.c.hyp(z3.ForAll([j], zbool(prop(y, j)), patterns=[self.anc(y, j)]))
            v.c.hyp(z3.Implies(zbool(self.reach(x)), zbool(b_or(s_eq(x, NONE), self.tag(x)))))
            v.prove("the members of a chain (induction step)", prop(x, self.j))
        v.assume(z3.ForAll([x, j], zbool(prop(x, j)), patterns=[self.anc(x, j)]))

    def children(self):
        """contract of _get_tree_create: the entry of a sweep lists the sweeps which start from it, each once"""
        v = self.v
        t, k, x = v.c.ivar("t"), v.c.ivar("k"), v.c.ivar("x")
        v.assume(z3.ForAll([t], zbool(s_cmp(">=", self.count(t), 0)), patterns=[self.count(t)]))
        c = self.child(t, k)
        v.assume(z3.ForAll([t, k], zbool(b_implies(b_and(b_or(self.tag(t), s_eq(t, NONE)), s_cmp("<=", 0, k), s_cmp("<", k, self.count(t))),
                                                   b_and(self.tag(c), s_eq(self.parent(c), t), s_eq(self.pos(c), k)))), patterns=[c]))
        p = self.parent(x)
        v.assume(z3.ForAll([x], zbool(b_implies(self.tag(x), b_and(s_cmp("<=", 0, self.pos(x)), s_cmp("<", self.pos(x), self.count(p)), s_eq(self.child(p, self.pos(x)), x)))), patterns=[self.pos(x)]))

    def below(self, t, x):
        """x depends (directly or not) on t"""
        return b_and(self.tag(x), self.reach(x), s_cmp(">", self.depth(x), self.depth(t)), s_eq(self.anc(x, self.depth(t)), t))

    def direct(self, t, x):
        return b_and(self.tag(x), self.reach(x), s_eq(self.parent(x), t))

    def top(self, t, x):
        """the sweep starting from t on which x depends"""
        return self.anc(x, s_add(self.depth(t), 1))

    def node(self, name="t"):
        """a node which is reached: nothing, or a sweep"""
        t = self.v.int(name)
        self.v.assume(b_and(self.reach(t), b_or(s_eq(t, NONE), self.tag(t))))
        return t

    def until(self, t, i, x):
        """x is a direct child of t, or below one of the first i of them"""
        return b_and(self.below(t, x), b_or(s_eq(self.depth(x), s_add(self.depth(t), 1)), s_cmp("<", self.pos(self.top(t, x)), i)))


class Tree:
    """the result of _get_tree_create"""

    def __init__(self, f):
        self.f = f

    def vc_item(self, ip, key):
        t = str_term(key)
        if not ctx().valid(b_or(s_eq(t, NONE), self.f.tag(t))):
            raise Unsupported("entry of the tree")
        return SList(Range(self.f.count(t)), lambda k: SymStr(self.f.child(t, k)))


def code(x):
    return str_term(x)


@spec("sweep_joblib._get_tree_create", [M + ":_get_tree_create", M + ":_get_tree_tag"])
def create(v):
    f = Forest(v)
    d = SDict(Range(f.n), lambda i: SymStr(f.name(i)), lambda i: SymStr(f.parent(f.name(i)), True))
    r = v.call(M, "_get_tree_create", d)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("the tree has the sweeps and the root", isinstance(r, SDict) and list(r.extra) == [None])

    def check(t, lst):
        v.prove("the entry of a sweep lists sweeps", isinstance(lst, SList))
        for k in v.each(lst.axis):
            e = code(lst.elem(k))
            v.prove("every listed sweep starts from this sweep", b_and(f.tag(e), s_eq(f.parent(e), t)))
        for i in v.each(Range(f.n)):
            with scope():
                v.c.hyp(s_eq(f.parent(f.name(i)), t))
                v.witness("every sweep which starts from this sweep is listed", lst.axis, lambda k: s_eq(code(lst.elem(k)), f.name(i)), [i])
        v.prove("a sweep is listed once", A.forall([lst.axis, lst.axis], lambda k, m: b_implies(s_eq(code(lst.elem(k)), code(lst.elem(m))), s_eq(A.index_to_pos(lst.axis, k), A.index_to_pos(lst.axis, m)))))
    check(NONE, r.extra[None])
    t = v.int("t")
    v.assume(f.tag(t))
    v.prove("every sweep has an entry", r.has(SymStr(t)))
    for i in v.each(Range(f.n)):
        check(f.name(i), r.lookup(SymStr(f.name(i))))


class Bag:
    """list of sweeps: number of occurrences of each name"""

    def __init__(self, f, count):
        self.f, self.count = f, count

    def vc_iadd(self, ip, other):
        old = self.count
        if not isinstance(other, SList) or not ctx().valid(A.forall([other.axis, other.axis], lambda k, m: b_implies(s_eq(code(other.elem(k)), code(other.elem(m))), s_eq(k, m)))):
            raise Unsupported("list added to a list of sweeps")
        self.count = lambda x: s_add(old(x), s_ite(A.exists(other.axis, lambda k: s_eq(code(other.elem(k)), x), "k"), 1, 0))
        return self

    def vc_binop(self, ip, op, other, rev):
        if op != "+" or rev:
            raise Unsupported("operator of a list of sweeps")
        return Bag(self.f, self.count).vc_iadd(ip, other)

    def vc_len(self, ip):
        # all of the elements are sweeps
        from vc.npmodel import count_facts
        f = self.f
        with scope():
            x = ctx().ivar("x")
            if not ctx().valid(b_implies(b_not(f.tag(x)), s_eq(self.count(x), 0))) or not ctx().valid(b_and(s_cmp("<=", 0, self.count(x)), s_cmp("<=", self.count(x), 1))):
                raise Unsupported("length of a list of sweeps")
        has = lambda i: s_eq(self.count(f.name(i)), 1)  # noqa
        return count_facts(A.sum_over([Range(f.n)], lambda i: zint(zbool(has(i)))), Range(f.n), has)


def bags(env):
    return {k for k, u in env.items() if isinstance(u, (Bag, Map))}


@spec("sweep_joblib._get_tree_check", [M + ":_get_tree_check"])
def check_tree(v):
    f = Forest(v)
    f.chain()
    f.children()
    t = f.node()
    c0 = v.fun("count", 1)
    bag = Bag(f, c0)
    tree = Tree(f)

    def contract(tr, tag, lst):
        s = code(tag)
        v.prove("the recursion descends to a sweep which is reached", b_and(tr is tree, f.reach(s), f.tag(s), s_cmp(">", f.depth(s), f.depth(t))))
        if not isinstance(lst, Bag):
            raise Unsupported("list of the recursion")
        old = lst.count
        lst.count = lambda x: s_add(old(x), s_ite(f.below(s, x), 1, 0))
        return lst

    def handler(ip, st, seq, fr):
        cur = [u for u in fr.env.values() if isinstance(u, Bag)]
        if len({id(u) for u in cur}) != 1:
            return False
        b = cur[0]
        inv = lambda i: (lambda x: s_add(c0(x), s_ite(f.until(t, i, x), 1, 0)))  # noqa
        x = v.c.ivar("x")
        v.prove("the children are listed before the loop", s_eq(b.count(x), inv(0)(x)))
        v.prove("loop over the children", s_eq(A.ax_len(seq.axis), f.count(t)))
        for i in v.each(seq.axis):
            v.prove("loop over the children in order", s_eq(code(seq.elem(i)), f.child(t, i)))

        def before(i):
            b.count = inv(i)

        def check(i):
            if any(fr.env[k] is not b for k in bags(fr.env)):
                raise Unsupported("another list")
            y = v.c.ivar("y")
            v.prove("the sweeps below the next child are listed", s_eq(b.count(y), inv(s_add(i, 1))(y)))
        loops.by_invariant(ip, st, seq, fr, bags(fr.env), before, check)
        b.count = inv(f.count(t))
        return True
    v.loop(M + ":_get_tree_check", handler)
    r = v.call_recursive(M, "_get_tree_check", contract, tree, SymStr(t, True), bag)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("the list is extended and returned", r is bag)
    x = v.c.ivar("x")
    v.prove("every sweep which depends on the start is added once, no other one", s_eq(r.count(x), s_add(c0(x), s_ite(f.below(t, x), 1, 0))))


class Map:
    """dictionary of the names: presence and value of a name"""

    def __init__(self, has, val):
        self.has, self.val = has, val

    def vc_item(self, ip, key):
        t = code(key)
        if not ctx().truth(self.has(t), "the entry is present"):
            raise PyRaise(KeyError)
        return SymStr(self.val(t))

    def vc_store(self, ip, key, x):
        t, u = code(key), code(x)
        h, w = self.has, self.val
        self.has = lambda k: b_or(s_eq(k, t), h(k))
        self.val = lambda k: s_ite(s_eq(k, t), u, w(k))

    def vc_contains(self, ip, key):
        return self.has(code(key))

    def vc_iter(self, ip):
        raise Unsupported("iteration over the results")


class Run:
    """results of the sweeps: out(x), sol(x) are what computing x with its own parameters and with the
    solution of its initial sweep (or nothing) returns"""

    def __init__(self, v, f):
        self.v, self.f = v, f
        self.out, self.sol, self.param = v.fun("result", 1), v.fun("solution", 1), v.fun("param", 1)
        self.calls = v.fun("calls", 1)

    def add(self, where):
        """the sweeps of the predicate are computed"""
        old = self.calls
        self.calls = lambda x: s_add(old(x), s_ite(where(x), 1, 0))

    def init(self, x):
        """initial value of a sweep"""
        p = self.f.parent(x)
        return s_ite(s_eq(p, NONE), NONE, self.sol(p))


@spec("sweep_joblib._get_tree_compute", [M + ":_get_tree_compute"])
def compute(v):
    f = Forest(v)
    f.chain()
    f.children()
    run = Run(v, f)
    t = f.node()
    tree, par, fct = Tree(f), Tok("parallel_sweep"), Tok("fct_compute")
    out = Map(v.fun("has_output", 1, "bool"), v.fun("output", 1))
    sol = Map(v.fun("has_init", 1, "bool"), v.fun("init", 1))
    params = Map(f.tag, run.param)
    h0, o0, i0, s0, n0 = out.has, out.val, sol.has, sol.val, run.calls
    v.assume(b_implies(b_not(s_eq(t, NONE)), b_and(sol.has(t), s_eq(sol.val(t), run.sol(t)))))

    def put(where):
        """the results of the sweeps of the predicate have been stored"""
        out.has, out.val = (lambda x: b_or(h0(x), where(x))), (lambda x: s_ite(where(x), run.out(x), o0(x)))
        sol.has, sol.val = (lambda x: b_or(i0(x), where(x))), (lambda x: s_ite(where(x), run.sol(x), s0(x)))

    def stored(where, clause):
        x = v.c.ivar("x")
        v.prove(clause + ": results", b_and(s_eq(out.has(x), b_or(h0(x), where(x))), b_implies(out.has(x), s_eq(out.val(x), s_ite(where(x), run.out(x), o0(x))))))
        v.prove(clause + ": solutions", b_and(s_eq(sol.has(x), b_or(i0(x), where(x))), b_implies(sol.has(x), s_eq(sol.val(x), s_ite(where(x), run.sol(x), s0(x))))))

    def parallel(p, g, args):
        """contract of _get_parallel_loop: the function is called once per element, the results are in order"""
        args = v.ip.iterate(args)
        if not isinstance(args, SList):
            raise Unsupported("arguments of the sweeps")
        v.prove("the function of the sweeps is called", p is par and g is fct)
        for k in v.each(args.axis):
            a = args.elem(k)
            v.prove("three arguments", isinstance(a, tuple) and len(a) == 3)
            x = code(a[0])
            v.prove("a sweep is computed", f.tag(x))
            v.prove("a sweep is computed with its own parameters", s_eq(code(a[1]), run.param(x)))
            v.prove("a sweep is computed with the solution of its initial sweep, or with nothing", s_eq(code(a[2]), run.init(x)))
        ok = A.forall([args.axis, args.axis], lambda k, m: b_implies(s_eq(code(args.elem(k)[0]), code(args.elem(m)[0])), s_eq(k, m)))
        v.prove("the sweeps of a call are different", ok)
        run.add(lambda x: A.exists(args.axis, lambda k: s_eq(code(args.elem(k)[0]), x), "k"))
        return SList(args.axis, lambda k: (SymStr(run.out(code(args.elem(k)[0]))), SymStr(run.sol(code(args.elem(k)[0])))))

    def contract(p, tr, pr, g, tag, o, i):
        s = code(tag)
        v.prove("the recursion gets the same tree, parameters and function", p is par and tr is tree and pr is params and g is fct and o is out and i is sol)
        v.prove("the recursion descends to a sweep which is reached", b_and(f.reach(s), f.tag(s), s_cmp(">", f.depth(s), f.depth(t))))
        v.prove("the solution of the sweep is known before its dependent sweeps are computed", b_and(sol.has(s), s_eq(sol.val(s), run.sol(s))))
        where = lambda x: f.below(s, x)  # noqa
        a, b, c, d = out.has, out.val, sol.has, sol.val
        out.has, out.val = (lambda x: b_or(a(x), where(x))), (lambda x: s_ite(where(x), run.out(x), b(x)))
        sol.has, sol.val = (lambda x: b_or(c(x), where(x))), (lambda x: s_ite(where(x), run.sol(x), d(x)))
        run.add(where)
        return out, sol
    state = {"at": 0}

    def handler(ip, st, seq, fr):
        """first loop: the results of the children; second loop: the recursion"""
        kind = state["at"]
        state["at"] += 1
        if kind == 0:
            where = lambda i: (lambda x: b_and(f.direct(t, x), s_cmp("<", f.pos(x), i)))  # noqa
        elif kind == 1:
            where = lambda i: (lambda x: f.until(t, i, x))  # noqa
        else:
            return False
        v.prove("loop over the children", s_eq(A.ax_len(seq.axis), f.count(t)))
        calls = run.calls
        n1 = (lambda i: calls) if kind == 0 else (lambda i: lambda x: s_add(n0(x), s_ite(where(i)(x), 1, 0)))
        y = v.c.ivar("y")
        stored(where(0), "the invariant holds before the loop")
        v.prove("the invariant holds before the loop: calls", s_eq(calls(y), n1(0)(y)))

        def before(i):
            put(where(i))
            run.calls = n1(i)

        def check(i):
            if any(not any(fr.env[k] is u for u in (out, sol, params)) for k in bags(fr.env)):
                raise Unsupported("another dictionary")
            stored(where(s_add(i, 1)), "the invariant is kept by the loop")
            x = v.c.ivar("x")
            v.prove("the invariant is kept by the loop: calls", s_eq(run.calls(x), n1(s_add(i, 1))(x)))
        loops.by_invariant(ip, st, seq, fr, bags(fr.env), before, check)
        put(where(f.count(t)))
        run.calls = n1(f.count(t))
        return True
    v.override(M + ":_get_parallel_loop", parallel)
    v.loop(M + ":_get_tree_compute", handler)
    r = v.call_recursive(M, "_get_tree_compute", contract, par, tree, params, fct, SymStr(t, True), out, sol)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("the dictionaries are returned", isinstance(r, tuple) and len(r) == 2 and r[0] is out and r[1] is sol)
    stored(lambda x: f.below(t, x), "the results of the dependent sweeps are stored under their names")
    x = v.c.ivar("x")
    v.prove("every dependent sweep is computed exactly once, no other one", s_eq(run.calls(x), s_add(n0(x), s_ite(f.below(t, x), 1, 0))))


def parallel_loop(jobs):
    def run(v):
        m = v.int("n_args", lo=0)
        a = [v.fun(k, 1) for k in ("tag", "param", "init")]
        res = [z3.Function(k, I, I, I, I) for k in ("result", "solution")]
        log = []

        def fct(ip, args, kwargs):
            log.append(args)
            x = [code(u) for u in args]
            return tuple(SymStr(r(*x)) for r in res)
        args = SList(Range(m), lambda i: tuple(SymStr(g(i), k == 2) for k, g in enumerate(a)))
        args.once = True
        if jobs == 0:
            n_jobs = 0
        else:
            n_jobs = v.int("n_jobs")
            v.assume(b_not(s_eq(n_jobs, 0)))

        def run_all(ip, args_, kwargs):
            lst = ip.iterate(args_[0])
            if not isinstance(lst, SList):
                raise Unsupported("jobs")
            return SList(lst.axis, lambda i: (lambda d: ip.call(d[1], list(d[2]), d[3]))(lst.elem(i)))
        v.override("scilogger.get_global", lambda: (Opaque("timestamp"), Opaque("level")))
        v.override("joblib.Parallel", lambda *b, **k: Builtin("Parallel", run_all))
        v.override("joblib.delayed", lambda g: Builtin("delayed", lambda ip, b, k: ("delayed", g, tuple(b), PDict(k))))
        v.override("joblib.parallel_config", lambda *b, **k: Opaque("config"))
        r = v.call(M, "_get_parallel_loop", {"n_jobs": n_jobs, "n_threads": Opaque("n_threads")}, Builtin("fct_compute", fct), args)
        v.prove("no error", v.raised is None)
        if v.raised:
            return
        v.prove("one result per call", isinstance(r, SList) and zbool(s_eq(A.ax_len(r.axis), m)))
        if jobs == 0:
            v.prove("every call is made once", len(log) == 1)
        for i in v.each(Range(m)):
            got = r.elem(A.pos_to_index(r.axis, i))
            v.prove("the result of a call is its value", isinstance(got, tuple) and len(got) == 2)
            for u, g in zip(got, res):
                v.prove("the results are in the order of the calls", s_eq(code(u), g(*[h(i) for h in a])))
    spec("sweep_joblib._get_parallel_loop: " + ("in sequence" if jobs == 0 else "in parallel"), [M + ":_get_parallel_loop"])(run)


parallel_loop(0)
parallel_loop(1)


@spec("sweep_joblib.get_run_sweep", [M + ":get_run_sweep"])
def run_sweep(v):
    f = Forest(v)
    run = Run(v, f)
    d = SDict(Range(f.n), lambda i: SymStr(f.name(i)), lambda i: PDict({"init": SymStr(f.parent(f.name(i)), True), "param": SymStr(run.param(f.name(i)))}))
    par, fct, tree = Tok("parallel_sweep"), Tok("fct_compute"), Tree(f)
    state = []

    def create(conf):
        v.prove("the tree of the initial sweeps is built", isinstance(conf, SDict))
        v.prove("the tree has all of the sweeps", s_eq(A.ax_len(conf.axis), f.n))
        for i in v.each(Range(f.n)):
            v.prove("the tree has the initial sweep of each sweep", b_and(conf.has(SymStr(f.name(i))), s_eq(code(conf.lookup(SymStr(f.name(i)))), f.parent(f.name(i)))))
        return tree

    def check(tr, tag, lst):
        v.prove("the check starts with nothing", b_and(tr is tree, s_eq(code(tag), NONE), isinstance(lst, PList) and len(lst) == 0))
        lst.stale = "list given to the check"
        return Bag(f, lambda x: s_ite(f.below(NONE, x), 1, 0))

    def comp(p, tr, pr, g, tag, o, i):
        v.prove("the computation starts with nothing", b_and(p is par and tr is tree and g is fct, s_eq(code(tag), NONE)))
        v.prove("no results before the computation", all(isinstance(u, PDict) and len(u) == 0 for u in (o, i)))
        v.prove("the parameters of the sweeps", isinstance(pr, SDict))
        for k in v.each(Range(f.n)):
            v.prove("the parameters of each sweep", b_and(pr.has(SymStr(f.name(k))), s_eq(code(pr.lookup(SymStr(f.name(k)))), run.param(f.name(k)))))
        v.prove("nothing is computed if some sweep cannot be reached", A.forall(Range(f.n), lambda k: f.reach(f.name(k))))
        state.append(1)
        o.stale = i.stale = "dictionary given to the computation"
        where = lambda x: f.below(NONE, x)  # noqa
        return Map(where, run.out), Map(where, run.sol)
    v.override(M + ":_get_tree_create", create)
    v.override(M + ":_get_tree_check", check)
    v.override(M + ":_get_tree_compute", comp)
    r = v.call(M, "get_run_sweep", par, d, fct)
    ok = A.forall(Range(f.n), lambda k: f.reach(f.name(k)))
    f.chain()
    k = v.c.ivar("k")
    if v.raised:
        v.prove("an error is raised only if the chain of some sweep does not end with nothing", b_not(ok))
        v.prove("nothing is computed before the error", not state)
        return
    v.prove("sweeps with cycles or unknown names are rejected", ok)
    v.prove("the sweeps are computed once", len(state) == 1)
    for i in v.each(Range(f.n)):
        x = f.name(i)
        v.prove("every result is returned under the name of its sweep", b_and(r.has(x), s_eq(r.val(x), run.out(x))) if isinstance(r, Map) else False)


@spec("solver.run: sweeps", [RUN + ":run", RUN + ":_run_parallel_sweep"])
def whole(v):
    w = Wiring(v)
    calls = {}
    tok = {k: Tok(k) for k in ("geom", "problem", "tolerance", "tag", "param", "initial")}
    v.override("copy.deepcopy", lambda x: x)
    v.override("pypeec.lib_check.check_data_options:check_data_voxel", lambda d: (v.bool("status"), PDict({"geom": tok["geom"]})))
    for k in ("problem", "tolerance"):
        v.override("pypeec.lib_check.check_data_format:check_data_" + k, lambda d: None)
    init = [T("init"), T("internal"), T("sweeps"), T("parallel")]
    w.stub(RUN, "_run_solver_init", lambda t: tuple(init))
    w.stub(RUN, "_run_solver_sweep", lambda t: (t[0], t[1]))
    w.stub(RUN, "_get_data")

    def get_run(p, s, g):
        calls["sweep"] = (p, s)
        calls["value"] = v.ip.call(g, [tok["tag"], tok["param"], tok["initial"]])
        return T("data_sweep")
    v.override(M + ":get_run_sweep", get_run)
    r = v.call(RUN, "run", PDict({}), PDict({"problem": tok["problem"]}), PDict({"tolerance": tok["tolerance"]}))
    v.prove("no error", v.raised is None)
    if v.raised or "sweep" not in calls:
        return
    data = {k: tok[k] for k in ("geom", "problem", "tolerance")}
    one = T("_run_solver_sweep", data, init[1], tok["param"], tok["initial"])
    w.check("the sweeps of the problem are run", calls["sweep"], (init[3], init[2]))
    w.check("a sweep is solved with its own parameters and its initial value", calls["value"], (one[0], one[1]))
    v.prove("the results of the sweeps are returned", isinstance(r, Tok) and r.name == "_get_data" and key(r.args[0]) == key(init[0]) and key(r.args[1]) == key(T("data_sweep")))
