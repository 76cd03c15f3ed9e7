"""Materials and sources are mapped to their voxels, bad problems are rejected."""
from contracts.common import *  # noqa

PG = "pypeec.lib_solver.problem_geometry"


@spec("problem_geometry._get_domain_indices", [PG + ":_get_domain_indices"])
def indices(v):
    dom = Domains(v)
    m = v.int("n_list", lo=0)
    name = v.fun("name_list", 1)
    lst = SList(Range(m), lambda a: SymStr(name(a)))
    r = v.call(PG, "_get_domain_indices", lst, dom.dict)
    known = A.forall(Range(m), lambda a: A.exists(dom.axis, lambda i: s_eq(dom.key(i), name(a))))
    if v.raised:
        v.prove("an error is raised only for an unknown domain", b_not(known))
        return
    v.prove("an unknown domain is rejected", known)
    at = lambda a: dom.dict.pos(zint(name(a)))  # noqa
    fib = A.Sigma(Range(m), lambda a: Range(dom.len(at(a))))
    v.prove("one dimension, integers", r.ndim == 1 and r.kind == "int")
    v.same_axis("the voxels of the listed domains, in the order of the list", r.axes[0], fib)
    for u in v.each(fib):
        v.prove("position of the name", s_eq(dom.key(at(u[0])), name(u[0])))
        v.prove("the voxels in the order of the domain", s_eq(r.fn(u), dom.idx(at(u[0]), u[1])))


class Defs:
    """definitions of materials or of sources: any number, any kinds, lists of domains"""

    def __init__(self, v, kinds, name, fields):
        self.v = v
        self.n = v.int("n_" + name, lo=0)
        self.axis = Range(self.n)
        self.kinds = kinds
        self.key, self.kind = v.fun("key_" + name, 1), v.fun("kind_" + name, 1)
        self.type = name + "_type"
        self.other = {k: v.fun(k, 1) for k in fields}
        self.dom = Domains(v)
        self.nlist, self.name = v.fun("n_list", 1), v.fun("name_list", 2)
        v.assume(A.forall([self.axis, self.axis], lambda i, j: b_implies(s_eq(self.key(i), self.key(j)), s_eq(i, j))))
        v.assume(A.forall(self.axis, lambda i: s_cmp(">=", self.nlist(i), 0)))
        v.assume(A.forall(self.axis, lambda i: b_or(*[self.is_kind(k, i) for k in kinds])))
        self.dict = SDict(self.axis, lambda i: SymStr(self.key(i)), self.record, name)

    def known(self):
        return A.forall(A.Sigma(self.axis, lambda i: Range(self.nlist(i))), lambda u: A.exists(self.dom.axis, lambda k: s_eq(self.dom.key(k), self.name(*u))))

    def voxels(self, i):
        """the voxels of the listed domains, in list order (see _get_domain_indices)"""
        return A.Sigma(Range(self.nlist(i)), lambda a: Range(self.dom.len(self.at(i, a))))

    def at(self, i, a):
        return self.dom.dict.pos(zint(self.name(i, a)))

    def voxel(self, i, u):
        return self.dom.idx(self.at(i, u[0]), u[1])

    def is_kind(self, k, i):
        return s_eq(self.kind(i), lit_code(k))

    def record(self, i):
        d = {k: SymStr(f(i)) for k, f in self.other.items()}
        return PDict(dict(d, **{self.type: SymStr(self.kind(i)), "domain_list": SList(Range(self.nlist(i)), lambda a: SymStr(self.name(i, a)))}))

    def fiber(self, *kinds):
        return A.Sigma(A.Sub(self.axis, lambda i: b_or(*[self.is_kind(k, i) for k in kinds])), self.voxels)

    def check(self, r, indices):
        v = self.v
        for a, kinds, nm in indices:
            fib = self.fiber(*kinds)
            ok = A.ax_same(a.axes[0], fib)
            v.prove("%s: exactly the voxels of the kind, in definition order" % nm, ok)
            v.prove("%s: integers" % nm, a.ndim == 1 and a.kind == "int")
            if ok:
                for u in v.each(fib):
                    v.prove("%s: voxels of the definition" % nm, s_eq(a.fn(u), self.voxel(*u)))
        v.prove("one entry per definition", isinstance(r, SDict) and A.ax_same(r.axis, self.axis))
        for i in v.each(self.axis):
            v.prove("names in definition order", s_eq(str_term(r.key(i)), self.key(i)))
            m = r.val(i)
            v.prove("exactly the documented fields", set(m) == {"idx", self.type} | set(self.other))
            v.equal_arr("the voxels of the definition in list order", m["idx"], [self.voxels(i)], lambda u: self.voxel(i, u))
            v.prove("kind of the definition", s_eq(str_term(m[self.type]), self.kind(i)))
            for k, f in self.other.items():
                v.prove("data of the definition", s_eq(str_term(m[k]), f(i)))


def collected(v, d, r, fct):
    known = d.known()
    if v.raised:
        v.prove("an error is raised only for an unknown domain", b_not(known))
        return False
    v.prove("an unknown domain is rejected", known)
    return True


@spec("problem_geometry.get_material_idx", [PG + ":get_material_idx"])
def material_idx(v):
    d = Defs(v, ["electric", "magnetic", "electromagnetic"], "material", ["var_type", "orientation_type"])
    r = v.call(PG, "get_material_idx", d.dict, d.dom.dict)
    if collected(v, d, r, None):
        d.check(r[2], ((r[0], ("electric", "electromagnetic"), "electric voxels"), (r[1], ("magnetic", "electromagnetic"), "magnetic voxels")))


@spec("problem_geometry.get_source_idx", [PG + ":get_source_idx"])
def source_idx(v):
    d = Defs(v, ["current", "voltage"], "source", ["var_type"])
    r = v.call(PG, "get_source_idx", d.dict, d.dom.dict)
    if collected(v, d, r, None):
        d.check(r[2], ((r[0], ("current",), "current sources"), (r[1], ("voltage",), "voltage sources")))


@spec("problem_geometry.get_problem_type", [PG + ":get_problem_type", PG + ":_check_indices", PG + ":_check_source_graph"])
def problem_type(v):
    ln = {k: v.int("n_" + k, lo=0) for k in ("vc", "vm", "src_c", "src_v")}
    arr = {k: v.array("idx_" + k, m, "int") for k, m in ln.items()}
    nk = v.int("n_components", lo=0)
    lk, el = v.fun("len_component", 1), v.fun("el_component", 2)
    v.assume(A.forall(Range(nk), lambda k: s_cmp(">=", lk(k), 0)))
    comp = SList(Range(nk), lambda k: Arr((Range(lk(k)),), lambda a: el(k, a), "int"))
    r = v.call(PG, "get_problem_type", arr["vc"], arr["vm"], arr["src_c"], arr["src_v"], comp)

    def among(x, k):
        return A.exists(Range(ln[k]), lambda j: s_eq(arr[k].fn(j), x))

    def touches(k, kind):
        return A.exists(Range(lk(k)), lambda a: among(el(k, a), kind))
    good = b_and(s_cmp(">", ln["vc"], 0), s_cmp(">", s_add(ln["src_c"], ln["src_v"]), 0),
                 *[A.forall(Range(ln[k]), lambda j, k=k: among(arr[k].fn(j), "vc")) for k in ("src_c", "src_v")],
                 A.forall(Range(nk), lambda k: b_implies(touches(k, "vc"), b_or(touches(k, "src_c"), touches(k, "src_v")))))
    if v.raised:
        v.prove_inst("a correct problem is accepted", b_not(good))
        return
    for nm, f in zip(("there is an electric voxel", "there is a source", "the current sources are electric", "the voltage sources are electric", "connected components with electric voxels have a source"), good.children() if z3.is_and(good) else []):
        v.prove_inst("accepted problem: " + nm, f)
    v.prove("five conditions of acceptance", z3.is_and(good) and good.num_args() == 5)
    v.prove("magnetic physics is used exactly for magnetic voxels", s_eq(zbool(r), zbool(s_cmp(">", ln["vm"], 0))))


class Parts:
    """named parts of voxels; each is a list of distinct voxels"""

    def __init__(self, v, name):
        self.n = v.int("n_" + name, lo=0)
        self.axis = Range(self.n)
        self.key, self.kind, self.len = [v.fun(k + "_" + name, 1) for k in ("key", "kind", "len")]
        self.idx, self.where = v.fun("idx_part", 2), v.fun("where_part", 2)
        v.assume(A.forall([self.axis, self.axis], lambda i, j: b_implies(s_eq(self.key(i), self.key(j)), s_eq(i, j))))
        v.assume(A.forall(self.axis, lambda i: s_cmp(">=", self.len(i), 0)))
        v.assume(A.forall(A.Sigma(self.axis, lambda i: Range(self.len(i))), lambda u: s_eq(self.where(u[0], self.idx(*u)), u[1])))
        self.dict = SDict(self.axis, lambda i: SymStr(self.key(i)), self.record, name)

    def has(self, i, x):
        p = self.where(i, x)
        return b_and(s_cmp("<=", 0, p), s_cmp("<", p, self.len(i)), s_eq(self.idx(i, p), x))

    def record(self, i):
        return PDict({"idx": Arr((Range(self.len(i)),), lambda j: self.idx(i, j), "int"), "other": SymStr(self.kind(i))})


@spec("problem_geometry.get_material_pos", [PG + ":get_material_pos"])
def material_pos(v):
    m = Parts(v, "material")
    n = {k: v.int("n_" + k, lo=0) for k in ("vc", "vm")}
    arr = {k: selection(v, "idx_" + k, x) for k, x in n.items()}
    r = v.call(PG, "get_material_pos", m.dict, arr["vc"][0], arr["vm"][0])
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("one entry per material", isinstance(r, SDict) and A.ax_same(r.axis, m.axis))
    for i in v.each(m.axis):
        v.prove("names of the materials", s_eq(str_term(r.key(i)), m.key(i)))
        d = r.val(i)
        v.prove("the positions are added to the data", set(d) == {"idx", "other", "idx_vc", "idx_vm"})
        v.prove("the data are kept", s_eq(str_term(d["other"]), m.kind(i)))
        for k in ("vc", "vm"):
            a = d["idx_" + k]
            f = arr[k][1]
            ax = a.axes[0]
            v.prove("%s: a selection of the positions" % k, a.ndim == 1 and isinstance(ax, A.Sub) and A.ax_same(ax.base, Range(n[k])))
            if not isinstance(ax, A.Sub):
                continue
            for p in v.each(Range(n[k])):
                v.prove_inst("%s: exactly the positions of the voxels of the material" % k, s_eq(zbool(ax.mask(p)), zbool(A.exists(Range(m.len(i)), lambda j: s_eq(m.idx(i, j), f(p))))))
                with scope():
                    v.c.hyp(ax.mask(p))
                    v.prove("%s: ascending positions" % k, s_eq(a.fn(p), p))


@spec("problem_geometry.get_source_pos", [PG + ":get_source_pos"])
def source_pos(v):
    m = Parts(v, "source")
    n = {k: v.int("n_" + k, lo=0) for k in ("vc", "src_c", "src_v")}
    vc, f, where, has = selection(v, "idx_vc", n["vc"])
    # the lists of the sources: distinct voxels (C03), those of a source are in one of them (get_source_idx), all of them electric (get_problem_type)
    src = {k: v.fun("idx_" + k, 1) for k in ("src_c", "src_v")}
    ns = s_add(n["src_c"], n["src_v"])
    place = v.fun("place", 1)
    both = lambda p: z3.If(zint(p) < zint(n["src_c"]), src["src_c"](p), src["src_v"](zint(p) - zint(n["src_c"])))  # noqa
    v.assume(A.forall(Range(n["src_c"]), lambda p: s_eq(place(src["src_c"](p)), p)))
    v.assume(A.forall(Range(n["src_v"]), lambda p: s_eq(place(src["src_v"](p)), s_add(p, n["src_c"]))))
    v.assume(A.forall(A.Sigma(m.axis, lambda i: Range(m.len(i))), lambda u: has(m.idx(*u))))
    v.assume(A.forall(A.Sigma(m.axis, lambda i: Range(m.len(i))), lambda u: b_and(s_cmp("<=", 0, place(m.idx(*u))), s_cmp("<", place(m.idx(*u)), ns), s_eq(both(place(m.idx(*u))), m.idx(*u)))))
    r = v.call(PG, "get_source_pos", m.dict, vc, *[v.array("idx_" + k, n[k], "int", src[k]) for k in ("src_c", "src_v")])
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("one entry per source", isinstance(r, SDict) and A.ax_same(r.axis, m.axis))
    for i in v.each(m.axis):
        v.prove("names of the sources", s_eq(str_term(r.key(i)), m.key(i)))
        d = r.val(i)
        v.prove("the positions are added to the data", set(d) == {"idx", "other", "idx_vc", "idx_src"})
        v.prove("the data are kept", s_eq(str_term(d["other"]), m.kind(i)))
        a, b = d["idx_vc"], d["idx_src"]
        v.prove("positions", a.ndim == 1 and b.ndim == 1 and a.kind == "int" and b.kind == "int")
        for x, nm, value, place_of, total in ((a, "voltages", f, where, n["vc"]), (b, "currents", both, place, ns)):
            nx = A.ax_len(x.axes[0])
            at = lambda k: x.fn(A.pos_to_index(x.axes[0], k))  # noqa
            for k in v.each(Range(nx)):
                p = at(k)
                v.prove_inst(nm + ": positions inside of the list", b_and(s_cmp("<=", 0, p), s_cmp("<", p, total)))
                v.prove_inst(nm + ": only voxels of the source", A.exists(Range(m.len(i)), lambda j: s_eq(m.idx(i, j), value(p))))
            for k, q in v.each([Range(nx), Range(nx)]):
                with scope():
                    v.c.hyp(s_cmp("<", k, q))
                    for p in (at(k), at(q)):
                        v.lemma_inst(nm + ": place of a voxel", s_eq(place_of(value(p)), p), [p])
                    v.lemma_inst(nm + ": different positions", b_not(s_eq(at(k), at(q))), [at(k), at(q)])
                    v.lemma_inst(nm + ": different voxels", b_not(s_eq(value(at(k)), value(at(q)))))
                    v.prove_inst(nm + ": ascending voxel numbers", s_cmp("<=", value(at(k)), value(at(q))))
            inv = A.inverse_of(x)
            for j in v.each(Range(m.len(i))):
                y = place_of(m.idx(i, j))
                k = inv(y)[1]
                v.prove_inst(nm + ": every voxel of the source", b_and(s_cmp("<=", 0, k), s_cmp("<", k, nx), s_eq(value(at(k)), m.idx(i, j))), [y, k])


@spec("two ascending lists of the same voxels are equal (lemma for get_source_pos)", [])
def sorted_lists(v):
    n = [v.int("n_" + x, lo=0) for x in "ab"]
    a, b = v.fun("a", 1), v.fun("b", 1)
    ab, ba = v.fun("place_in_b", 1), v.fun("place_in_a", 1)
    for m, x, y, to, q in ((n[0], a, b, ab, n[1]), (n[1], b, a, ba, n[0])):
        v.assume(A.forall([Range(m), Range(m)], lambda i, j: b_implies(s_cmp("<", i, j), s_cmp("<", x(i), x(j)))))
        v.assume(A.forall(Range(m), lambda i: b_and(s_cmp("<=", 0, to(i)), s_cmp("<", to(i), q), s_eq(y(to(i)), x(i)))))
    v.induction("equal entries", n[0], lambda k: b_implies(s_cmp("<", k, n[1]), s_eq(a(k), b(k))), lambda k: [k, ab(k), ba(k)])
    v.prove_inst("equal length", s_eq(n[0], n[1]), [n[0], n[1], ab(n[1]), ba(n[0])])


from contracts.wiring import solver_spec  # noqa: E402


def _mapping(s, w, r, d, t):
    for k in ("idx_vc", "idx_vm", "idx_src_c", "idx_src_v"):
        w.check("internal data: " + k, r[1][k], t[k])
        w.check("returned data: " + k, r[0][k], t[k])
    for k in ("material_idx", "source_idx"):
        w.check("positions: " + k, r[1][k], t[k])
    w.check("the problem is checked", [x for x in w.calls if x.name == "get_problem_type"], [t["has_magnetic"]])
    w.check("magnetic physics: as found by the check", [x.args[3] for x in w.calls if x.name == "get_coupling_tensor"], [t["has_magnetic"]])


solver_spec("init", _mapping)
