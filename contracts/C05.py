"""Components and rules follow the adjacency by shared faces."""
from contracts.common import *  # noqa

M = "pypeec.lib_mesher.voxel_integrity"


def touching(t, u):
    """the same voxel, or voxels with a shared face"""
    out = [b_and(*[s_eq(t[k], u[k]) for k in range(3)])]
    for k in range(3):
        rest = [s_eq(t[j], u[j]) for j in range(3) if j != k]
        out.append(b_and(b_or(s_eq(u[k], s_add(t[k], 1)), s_eq(t[k], s_add(u[k], 1))), *rest))
    return b_or(*out)


@spec("voxel_integrity._get_connection_matrix", [M + ":_get_connection_matrix"])
def matrix(v):
    n = grid(v)
    nv = prod(n)
    m = v.call(M, "_get_connection_matrix", PList(n))
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.same_axis("one row per voxel", m.axes[0], Range(nv))
    v.same_axis("one column per voxel", m.axes[1], Range(nv))
    t, u = [tuple(v.c.ivar("t") for _ in n) for _ in range(2)]
    with scope():
        v.c.hyp(inside(n, t))
        v.c.hyp(inside(n, u))
        e = m.fn(number(n, t), number(n, u))
        v.prove("entry is positive exactly for the same voxel and for shared faces", s_eq(s_cmp(">", e, 0), touching(t, u)))
        v.prove("entries are not negative", s_cmp(">=", e, 0))


class Groups:
    """list of groups of domain names"""

    def __init__(self, v, dom):
        self.v, self.dom = v, dom
        self.n = v.int("n_groups", lo=0)
        self.len = v.fun("len_group", 1)
        self.name = v.fun("name_group", 2)
        v.assume(A.forall(Range(self.n), lambda g: s_cmp(">=", self.len(g), 0)))
        self.list = SList(Range(self.n), lambda g: SList(Range(self.len(g)), lambda a: SymStr(self.name(g, a))))

    def names(self):
        return A.Sigma(Range(self.n), lambda g: Range(self.len(g)))

    def fiber(self, g):
        """all voxels of all domains of the group"""
        at = lambda a: self.dom.dict.pos(zint(self.name(g, a)))  # noqa
        return A.Sigma(Range(self.len(g)), lambda a: Range(self.dom.len(at(a))))

    def known(self):
        return A.forall(self.names(), lambda u: A.exists(self.dom.axis, lambda i: s_eq(self.dom.key(i), self.name(u[0], u[1]))))

    def has(self, g, x):
        """the group contains the voxel"""
        return A.exists(Range(self.len(g)), lambda a: A.exists(self.dom.axis, lambda i: b_and(s_eq(self.dom.key(i), self.name(g, a)), self.dom.member(i, x))))


@spec("voxel_integrity._get_group_indices", [M + ":_get_group_indices"])
def group(v):
    dom = Domains(v)
    G = Groups(v, dom)
    r = v.call(M, "_get_group_indices", dom.dict, G.list)
    if v.raised:
        v.prove("an error is raised only for unknown domains", b_not(G.known()))
        return
    v.prove("unknown domains are rejected", G.known())
    if not isinstance(r.axis, A.Sub):
        raise Unsupported("structure of the group list")
    x = v.c.ivar("x")
    v.prove("groups are selected in order", A.ax_same(r.axis.base, Range(G.n)))
    for g in v.each(Range(G.n)):
        v.prove("a group is kept exactly if it has a voxel", s_eq(zbool(r.axis.mask(g)), zbool(A.exists(G.fiber(g), lambda u: True))))
    for g in v.each(r.axis):
        v.prove("a group has the voxels of its domains", s_eq(zbool(A.mem(r.elem(g), x)), zbool(G.has(g, x))))


class Sets:
    """list of non empty index arrays, given by their members"""

    def __init__(self, v, name, n):
        self.has = v.fun("in_" + name, 2, "bool")
        self.len = v.fun("n_" + name, 1)
        self.el = v.fun("el_" + name, 2)
        v.assume(A.forall(Range(n), lambda g: s_cmp(">", self.len(g), 0)))
        v.assume(A.forall(A.Sigma(Range(n), lambda g: Range(self.len(g))), lambda u: self.has(u[0], self.el(u[0], u[1]))))
        self.list = SList(Range(n), lambda g: Arr((Range(self.len(g)),), lambda a: self.el(g, a), "int", lambda x: self.has(g, x)))


def rule(v, name, fct):
    """contract of a rule: link(i, g) holds if the element i of the rows is linked with the group g"""
    dom = Domains(v)
    ng = v.int("n_sets", lo=0)
    group = Sets(v, "set", ng)
    names = SList(Range(v.int("n_groups", lo=0)), lambda g: PList([]))

    def get(d, a):
        if d is not dom.dict or a is not names:
            raise Unsupported("unexpected use of the groups")
        return group.list
    v.override(M + ":_get_group_indices", get)
    return dom, ng, group, names


@spec("voxel_integrity._check_domain_connected", [M + ":_check_domain_connected"])
def connected(v):
    dom, ng, group, names = rule(v, "connected", None)
    nk = v.int("n_components", lo=0)
    comp = Sets(v, "comp", nk)
    want = v.bool("connected")
    link = v.fun("link", 2, "bool")
    # link(k, g): the component and the group share a voxel
    x, k, g = v.c.ivar("x"), v.c.ivar("k"), v.c.ivar("g")
    shared = zbool(b_and(comp.has(k, x), group.has(g, x)))
    v.assume(z3.ForAll([k, g, x], z3.Implies(shared, link(k, g)), patterns=[z3.MultiPattern(comp.has(k, x), group.has(g, x))]))
    v.assume(z3.ForAll([k, g], z3.Implies(link(k, g), z3.Exists([x], shared)), patterns=[link(k, g)]))
    v.assume(A.forall([Range(nk), Range(ng)], lambda k, g: s_eq(link(k, g), z3.Exists([x], zbool(b_and(comp.has(k, x), group.has(g, x)))))))
    v.call(M, "_check_domain_connected", dom.dict, comp.list, {"domain_group": names, "connected": want}, v.str("tag"))
    if v.branch(want, "required"):
        ok = A.exists(Range(nk), lambda k: A.forall(Range(ng), lambda g: link(k, g)))
    else:
        ok = A.forall([Range(nk), Range(ng), Range(ng)], lambda k, g, h: b_implies(b_and(link(k, g), link(k, h)), s_eq(g, h)))
    if v.raised:
        v.prove_inst("an error is raised only for a violated rule", b_not(ok))
    else:
        v.prove_inst("a violated rule is rejected", ok)


@spec("voxel_integrity._check_domain_adjacent", [M + ":_check_domain_adjacent"])
def adjacent(v):
    dom, ng, group, names = rule(v, "adjacent", None)
    nv = v.int("nv", lo=1)
    near = v.fun("entry", 2)
    mat = v.array("voxel_matrix", (nv, nv), "int", near, sparse=True)
    x, y, g, h = [v.c.ivar(a) for a in "xygh"]
    v.assume(A.forall(Range(nv), lambda w: s_cmp(">", near(w, w), 0)))
    v.assume(A.forall([Range(nv), Range(nv)], lambda w, u: s_cmp(">=", near(w, u), 0)))
    v.assume(A.forall([Range(nv), Range(nv)], lambda w, u: s_eq(near(w, u), near(u, w))))
    v.assume(A.forall(A.Sigma(Range(ng), lambda g: Range(group.len(g))), lambda u: b_and(s_cmp("<=", 0, group.el(*u)), s_cmp("<", group.el(*u), nv))))
    want = v.bool("connected")
    link = v.fun("link", 2, "bool")
    sig = lambda g, h: [Range(group.len(g)), Range(group.len(h))]  # noqa
    v.assume(A.forall([Range(ng), Range(ng)], lambda g, h: s_eq(link(g, h), A.exists(sig(g, h), lambda a, b: b_not(s_eq(near(group.el(g, a), group.el(h, b)), 0))))))
    v.call(M, "_check_domain_adjacent", dom.dict, mat, {"domain_group": names, "connected": want}, v.str("tag"))
    if v.branch(want, "required"):
        ok = A.exists(Range(ng), lambda g: A.forall(Range(ng), lambda h: link(g, h)))
    else:
        ok = A.forall([Range(ng), Range(ng)], lambda g, h: b_implies(link(g, h), s_eq(g, h)))
    if v.raised:
        v.prove_inst("an error is raised only for a violated rule", b_not(ok))
    else:
        v.prove_inst("a violated rule is rejected", ok)


@spec("voxel_integrity.get_integrity", [M + ":get_integrity", M + ":_get_all_indices", M + ":_get_connected_components"])
def integrity(v):
    n = grid(v)
    nv = prod(n)
    dom = Domains(v, hi=nv)
    # no voxel is shared (conflicts are resolved before)
    v.assume(A.forall([dom.fiber(), dom.fiber()], lambda p, q: b_implies(s_eq(dom.idx(*p), dom.idx(*q)), b_and(s_eq(p[0], q[0]), s_eq(p[1], q[1])))))
    entry = v.fun("entry", 2)
    v.assume(A.forall([Range(nv), Range(nv)], lambda w, u: s_cmp(">=", entry(w, u), 0)))
    v.assume(A.forall([Range(nv), Range(nv)], lambda w, u: s_eq(entry(w, u), entry(u, w))))
    mat = v.array("voxel_matrix", (nv, nv), "int", entry, sparse=True)
    state = {"graph": None}

    def matrix(a):
        if [zint(x).get_id() for x in a] != [zint(x).get_id() for x in n]:
            raise Unsupported("connection matrix of another grid")
        return mat
    fails = {k: v.fun("fails_" + k, 1, "bool") for k in ("adjacent", "connected")}

    class Rules:
        def __init__(self, kind):
            self.n = v.int("n_" + kind, lo=0)
            self.key = v.fun("rule_" + kind, 1)
            v.assume(A.forall([Range(self.n), Range(self.n)], lambda i, j: b_implies(s_eq(self.key(i), self.key(j)), s_eq(i, j))))
            self.dict = SDict(Range(self.n), lambda i: SymStr(self.key(i)), lambda i: PDict({"id": SymStr(self.key(i))}), kind)
    adj, con = Rules("adjacent"), Rules("connected")

    def check(kind, first):
        def f(d, other, rule, tag):
            if d is not dom.dict or (kind == "adjacent" and other is not mat):
                raise Unsupported("rule is applied to other data")
            if kind == "connected":
                if state["graph"] is not None and other is not state["graph"]:
                    raise Unsupported("rules are applied to different components")
                state["graph"] = other
            v.prove("every rule is checked with its own data", s_eq(str_term(rule["id"]), str_term(tag)))
            if v.c.truth(fails[kind](str_term(rule["id"])), "the rule is violated"):
                raise PyRaise(RuntimeError, "rule")
        return f
    v.override(M + ":_get_connection_matrix", matrix)
    v.override(M + ":_check_domain_adjacent", check("adjacent", True))
    v.override(M + ":_check_domain_connected", check("connected", False))
    r = v.call(M, "get_integrity", PList(n), dom.dict, {"domain_connected": con.dict, "domain_adjacent": adj.dict})
    ok = b_and(*[A.forall(Range(x.n), lambda i: b_not(fails[k](x.key(i)))) for k, x in (("adjacent", adj), ("connected", con))])
    if v.raised:
        v.prove_inst("an error is raised only for a violated rule", b_not(ok))
        return
    v.prove_inst("violated rules are rejected", ok)
    if len(getattr(v.c, "links", [])) != 1 or not isinstance(r, SList):
        raise Unsupported("structure of the components")
    ax, edge, linked, label = v.c.links[0]
    v.prove("the nodes of the graph are the used voxels", A.ax_same(ax, dom.fiber()))
    for p in v.each(dom.fiber()):
        for q in v.each(dom.fiber(), "j"):
            v.prove("two used voxels have an edge exactly if they touch", s_eq(zbool(edge(p, q)), zbool(s_cmp(">", entry(dom.idx(*p), dom.idx(*q)), 0))))
    # components: two used voxels are in the same component exactly if they are linked
    for k in v.each(r.axis):
        a = r.elem(k)
        for p in v.each(dom.fiber(), "p"):
            # the voxel p is in the component k exactly if it has its label
            there = lambda u: s_eq(a.fn(u), dom.idx(*p))  # noqa
            with scope():
                v.c.hyp(s_eq(label(p), k))
                v.witness("a used voxel is in the component of its label", a.axes, there, A.flat_idx(p))
            with scope():
                v.c.hyp(A.exists(a.axes[0], there))
                v.prove_inst("a used voxel is only in the component of its label", s_eq(label(p), k))
        for u in v.each(a.axes[0], "u"):
            v.witness("components only contain used voxels", dom.fiber(), lambda p: s_eq(dom.idx(*p), a.fn(u)), A.flat_idx(u))
            for w in v.each(a.axes[0], "w"):
                v.prove("no voxel is listed twice in a component", b_implies(s_eq(a.fn(u), a.fn(w)), b_and(*[s_eq(x, y) for x, y in zip(A.flat_idx(u), A.flat_idx(w))])))
        v.prove("integer indices", a.kind == "int")
    for p in v.each(dom.fiber()):
        v.prove("every label has a component", b_and(s_cmp("<=", 0, label(p)), s_cmp("<", label(p), A.ax_len(r.axis))))
        for q in v.each(dom.fiber(), "j"):
            v.prove("same component exactly if linked by a chain of used voxels", s_eq(s_eq(label(p), label(q)), linked(p, q)))
    for k in v.each(r.axis):
        v.prove_inst("no component is empty", A.exists(dom.fiber(), lambda p: s_eq(label(p), k)))


from contracts.wiring import mesher_spec  # noqa: E402
mesher_spec("graph_def")
