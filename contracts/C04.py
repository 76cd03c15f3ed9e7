"""Shared voxels are resolved by the rules and never survive the mesher."""
from contracts.common import *  # noqa
from vc import loops

M = "pypeec.lib_mesher.voxel_conflict"


class State:
    """contents of the domains after some steps: membership, lengths and elements are ghost functions of the step"""

    def __init__(self, v, dom, nstep, name):
        self.v, self.dom = v, dom
        self.has = v.fun("in_" + name, nstep + 2, "bool")
        self.len = v.fun("len_" + name, nstep + 1)
        self.el = v.fun("idx_" + name, nstep + 2)

    def array(self, step, i):
        step = tuple(step)
        self.v.c.assume(s_cmp(">=", self.len(*step, i), 0))
        return Arr((Range(self.len(*step, i)),), lambda j: self.el(*step, i, j), "int", lambda x: self.has(*step, i, x))

    def put(self, step):
        """the domains have the contents of the step"""
        d = self.dom.dict
        d.val = lambda i: self.array(step, i)
        d.cur = None
        d.birth = next(self.v.c.epoch)


def missing(dom, tag):
    return b_not(A.exists(dom.axis, lambda i: s_eq(dom.key(i), tag)))


@spec("voxel_conflict._get_solve_overlap", [M + ":_get_solve_overlap"])
def overlap(v):
    dom = Domains(v)
    nk, nr = v.int("n_keep", lo=0), v.int("n_resolve", lo=0)
    keep, res = v.fun("keep", 1), v.fun("resolve", 1)
    S = State(v, dom, 2, "S")
    c = v.c
    depth = [0]

    def name_list(n, f):
        return SList(Range(n), lambda i: SymStr(f(i)))

    def step(a, b, i, x):
        """contents after the rule `b is fixed against a`, given the contents before"""
        p = dom.dict.pos(zint(keep(a)))
        return b_and(S.has(a, b, i, x), b_not(b_and(s_eq(dom.key(i), res(b)), S.has(a, b, p, x))))

    def is_dom(x):
        return x is dom.dict

    def handler(ip, st, seq, fr):
        ax = seq.axis
        if depth[0] == 0:
            depth[0] = 1
            try:
                outer = {}

                def before(a):
                    outer["a"] = a
                    c.outer = a
                    S.put((a, 0))

                def check(a):
                    v.prove("the fixing of all domains against one domain is complete", dom.dict.step == (a, "end"))
                v.prove("outer loop: over the domains to keep", A.ax_same(ax, Range(nk)))
                loops.by_invariant(ip, st, seq, fr, {"domain_def"}, before, check)
                S.put((nk, 0))
                dom.dict.step = "done"
            finally:
                depth[0] = 0
            return True
        a = c.outer

        def before(b):
            S.put((a, b))

        def check(b):
            i, x = c.ivar("i"), c.ivar("x")
            with scope():
                A.assume_in(dom.axis, i)
                old = S.array((a, b), i)
                new = dom.dict.val(i)
                v.prove("a domain to resolve loses exactly the voxels of the domain to keep", s_eq(zbool(A.mem(new, x)), zbool(step(a, b, i, x))))
                with scope():
                    c.hyp(b_not(s_eq(dom.key(i), res(b))))
                    v.equal_arr("all other domains are unchanged", dom.dict.val(i), old.axes, old.fn)
                v.prove("integer indices", new.kind == "int")
        v.prove("inner loop: over the domains to resolve", A.ax_same(ax, Range(nr)))
        loops.by_invariant(ip, st, seq, fr, {"domain_def"}, before, check)
        S.put((a, nr))
        dom.dict.step = (a, "end")
        return True
    v.loop(M + ":_get_solve_overlap", handler)
    rule = {"domain_keep": name_list(nk, keep), "domain_resolve": name_list(nr, res)}
    dom.dict.step = None
    r = v.call(M, "_get_solve_overlap", dom.dict, rule)
    bad = A.exists([Range(nk), Range(nr)], lambda a, b: b_or(missing(dom, keep(a)), missing(dom, res(b))))
    if v.raised:
        v.prove("an error is raised only for unknown domains", bad)
        return
    v.prove("unknown domains are rejected", b_not(bad))
    v.prove("the domains are returned", is_dom(r) and dom.dict.step == "done")


@spec("voxel_conflict._get_solve_overlap: closed form", [M + ":_get_solve_overlap"])
def overlap_closed(v):
    """a rule whose kept and resolved domains differ: the voxels of all domains to keep are removed"""
    dom = Domains(v)
    nk, nr = v.int("n_keep", lo=0), v.int("n_resolve", lo=0)
    keep, res = v.fun("keep", 1), v.fun("resolve", 1)
    c = v.c
    v.assume(A.forall([Range(nk), Range(nr)], lambda a, b: b_not(s_eq(keep(a), res(b)))))
    S = State(v, dom, 2, "S")
    init = v.fun("in_start", 2, "bool")
    at = lambda a: dom.dict.pos(zint(keep(a)))  # noqa
    old_val = dom.dict.val

    def known(n, f):
        return A.forall(Range(n), lambda a: A.exists(dom.axis, lambda i: s_eq(dom.key(i), f(a))))
    v.assume(known(nk, keep))
    v.assume(known(nr, res))

    def target(i, m):
        return A.exists(Range(m), lambda b: s_eq(dom.key(i), res(b)))

    def inv(a, b, i, x):
        """removed: the voxels of the first a domains from all, those of domain a from the first b"""
        full = b_and(target(i, nr), A.exists(Range(a), lambda k: init(at(k), x)))
        part = b_and(target(i, b), A.exists(Range(s_add(a, 1)), lambda k: b_and(s_eq(k, a), init(at(k), x))))
        return b_and(init(i, x), b_not(full), b_not(part))
    depth = [0]

    def assume_inv(a, b):
        i, x = c.ivar("i"), c.ivar("x")
        with scope() as sc:
            A.assume_in(dom.axis, i)
            f = zbool(s_eq(zbool(S.has(a, b, i, x)), zbool(inv(a, b, i, x))))
            new = sc.new()
        A.keep_facts([i, x], new)
        v.assume(z3.ForAll([i, x], z3.Implies(zbool(A.in_axis(dom.axis, i)), f), patterns=[S.has(a, b, i, x)]))
        S.put((a, b))

    def prove_inv(clause, a, b):
        i, x = c.ivar("i"), c.ivar("x")
        with scope():
            A.assume_in(dom.axis, i)
            v.prove(clause, s_eq(zbool(A.mem(dom.dict.val(i), x)), zbool(inv(a, b, i, x))))

    def handler(ip, st, seq, fr):
        if depth[0] == 0:
            depth[0] = 1
            v.prove("outer loop: over the domains to keep", A.ax_same(seq.axis, Range(nk)))
            prove_inv("invariant of the outer loop at the start", 0, 0)

            def before(a):
                c.outer = a
                assume_inv(a, 0)
            loops.by_invariant(ip, st, seq, fr, {"domain_def"}, before, lambda a: prove_inv("invariant of the outer loop is kept", s_add(a, 1), 0))
            assume_inv(nk, 0)
            depth[0] = 0
            return True
        a = c.outer
        v.prove("inner loop: over the domains to resolve", A.ax_same(seq.axis, Range(nr)))
        prove_inv("invariant of the inner loop at the start", a, 0)
        loops.by_invariant(ip, st, seq, fr, {"domain_def"}, lambda b: assume_inv(a, b), lambda b: prove_inv("invariant of the inner loop is kept", a, s_add(b, 1)))
        assume_inv(a, nr)
        return True
    v.loop(M + ":_get_solve_overlap", handler)
    # the contents at the start
    dom.dict.val = lambda i: Arr((Range(dom.len(i)),), lambda j: dom.idx(i, j), "int", lambda x: init(i, x))
    rule = {"domain_keep": SList(Range(nk), lambda i: SymStr(keep(i))), "domain_resolve": SList(Range(nr), lambda i: SymStr(res(i)))}
    r = v.call(M, "_get_solve_overlap", dom.dict, rule)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    i, x = c.ivar("i"), c.ivar("x")
    with scope():
        A.assume_in(dom.axis, i)
        got = zbool(A.mem(r.val(i), x))
        kept = A.exists(Range(nk), lambda k: init(at(k), x))
        v.prove("a domain to resolve loses exactly the voxels of the domains to keep", s_eq(got, zbool(b_and(init(i, x), b_not(b_and(target(i, nr), kept))))))


@spec("voxel_conflict.get_conflict", [M + ":get_conflict", M + ":_get_resolution"])
def conflict(v):
    dom = Domains(v)
    n = v.int("n_rules", lo=0)
    keep_n, res_n = v.fun("keep_len", 1), v.fun("resolve_len", 1)
    keep, res = v.fun("keep", 2), v.fun("resolve", 2)
    v.assume(A.forall(Range(n), lambda r: b_and(s_cmp(">=", keep_n(r), 0), s_cmp(">=", res_n(r), 0))))
    S = State(v, dom, 1, "T")
    Q = State(v, dom, 0, "random")
    fails = v.fun("fails", 1, "bool")
    c = v.c
    state = {"at": "start", "random": False, "rule": None}

    def is_rule(r, rule):
        k, s = rule["domain_keep"], rule["domain_resolve"]
        ok = b_and(s_eq(A.ax_len(k.axis), keep_n(r)), s_eq(A.ax_len(s.axis), res_n(r)))
        ok = b_and(ok, A.forall(k.axis, lambda a: s_eq(str_term(k.elem(a)), keep(r, a))))
        return b_and(ok, A.forall(s.axis, lambda a: s_eq(str_term(s.elem(a)), res(r, a))))

    def contract(d, rule):
        """contract of _get_solve_overlap: fails, or the next contents"""
        r = state["rule"]
        if d is not dom.dict or state["at"] != "rule":
            raise Unsupported("unexpected use of the rule")
        v.prove("the rule of the iteration is applied", is_rule(r, rule))
        if c.truth(fails(r), "the rule names an unknown domain"):
            raise PyRaise(RuntimeError, "unknown domain")
        S.put((s_add(r, 1),))
        state["at"] = "applied"
        return dom.dict

    def handler(ip, st, seq, fr):
        if state["at"] != "start":
            raise Unsupported("second loop over the rules")
        v.prove("loop over the rules in the given order", A.ax_same(seq.axis, Range(n)))

        def before(r):
            state["at"], state["rule"] = "rule", r
            S.put((r,))

        def check(r):
            if state["at"] != "applied" or fr.env.get("domain_def") is not dom.dict:
                raise Unsupported("a rule is not applied once")
            state["at"] = "start"
        loops.by_invariant(ip, st, seq, fr, {"domain_def"}, before, check)
        S.put((n,))
        state["at"] = "end"
        return True

    def random(d):
        if d is not dom.dict or state["random"]:
            raise Unsupported("unexpected use of the random assignment")
        state["random"] = state["at"]
        Q.put(())
        return d
    v.override(M + ":_get_solve_overlap", contract)
    v.override(M + ":_get_random", random)
    v.loop(M + ":get_conflict", handler)
    rules, rand = v.bool("resolve_rules"), v.bool("resolve_random")
    rule = SList(Range(n), lambda r: PDict({"domain_keep": SList(Range(keep_n(r)), lambda a: SymStr(keep(r, a))), "domain_resolve": SList(Range(res_n(r)), lambda a: SymStr(res(r, a)))}))
    r = v.call(M, "get_conflict", dom.dict, {"resolve_rules": rules, "resolve_random": rand, "conflict_rules": rule})

    def unique():
        sig = A.Sigma(dom.axis, lambda i: dom.dict.val(i).axes[0])
        return A.forall([sig, sig], lambda p, q: b_implies(s_eq(dom.dict.val(p[0]).fn(p[1]), dom.dict.val(q[0]).fn(q[1])), b_and(s_eq(p[0], q[0]), s_eq(p[1], q[1]))))
    if v.raised:
        unknown = b_and(rules, A.exists(Range(n), lambda k: fails(k)))
        v.prove("an error is raised only for unknown domains or a voxel that is shared at the end", b_or(unknown, b_not(unique())))
        return
    v.prove("rules with unknown domains are rejected", b_implies(rules, A.forall(Range(n), lambda k: b_not(fails(k)))))
    v.prove("no voxel belongs to two domains or twice to one domain", unique())
    want = "end" if state["at"] == "end" else "start"
    v.prove("the rules are applied exactly if they are requested", s_eq(rules, want == "end"))
    v.prove("the random assignment runs exactly if it is requested, after the rules", s_eq(rand, state["random"] is not False) if state["random"] in (False, want) else False)
    v.prove("the resolved domains are returned", r is dom.dict)


@spec("voxel_conflict._get_random", [M + ":_get_random"])
def random(v):
    dom = Domains(v)
    r = v.call(M, "_get_random", dom.dict)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    for i in v.each(dom.axis):
        a = r.val(i)
        x = v.c.ivar("x")
        got = A.mem(a, x)
        for k in v.each(a.axes[0]):
            v.prove("a domain only keeps voxels of its own", dom.member(i, a.fn(k)))
        for j in v.each(dom.axis):
            got2 = A.mem(r.val(j), x)
            v.prove("no voxel is left in two domains", b_implies(b_and(got, got2), s_eq(i, j)))
    for i, j in v.each(dom.fiber()):
        x = dom.idx(i, j)
        v.prove("every used voxel is still in a domain", A.exists(dom.axis, lambda k: A.mem(r.val(k), x)))


from contracts.wiring import mesher_spec  # noqa: E402
mesher_spec("domain_def")
