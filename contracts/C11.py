"""Source data become the documented source equations."""
from contracts.common import *  # noqa

PV = "pypeec.lib_solver.problem_value"
ES = "pypeec.lib_solver.equation_system"
TAGS = {"current": ["I_re", "I_im", "Y_re", "Y_im"], "voltage": ["V_re", "V_im", "Z_re", "Z_im"]}


def field_spec(var):
    def run(v):
        k = "current" if v.branch(v.bool("current"), "current") else "voltage"
        n = v.int("n_voxel", lo=0)
        idx = v.array("idx", n, "int")
        m = {t: v.int("n_" + t, lo=0) for t in TAGS[k]}
        val, want, fits = {}, {}, True
        for t in TAGS[k]:
            if var == "lumped":
                x = v.real(t)
                val[t], want[t] = x, (lambda x: lambda i: x)(x)
            else:
                f = v.fun(t, 1, "real")
                val[t], want[t] = v.array(t, m[t], "float", f), f
                fits = b_and(fits, s_eq(m[t], n))
        d = dict(val, source_type=k, var_type=var, idx=idx, other=v.real("other"))
        r = v.call(PV, "_get_source_field", dict(d))
        if v.raised:
            v.prove("an error is raised only for data which do not match the voxels", b_not(fits))
            return
        v.prove("data which do not match the voxels are rejected", fits)
        v.prove("the other data are kept", set(r) == set(d) and r["idx"] is idx and r["source_type"] == k and r["var_type"] == var)
        for t in TAGS[k]:
            v.prove("values: real numbers", r[t].kind == "float")
            v.equal_arr("values of the voxels in order", r[t], [Range(n)], want[t])
    return run


for _var in ("lumped", "distributed"):
    spec("problem_value._get_source_field: %s" % _var, [PV + ":_get_source_field"])(field_spec(_var))


class Sources:
    """any number of sources of any kinds; the fields have one value per voxel (checked by _get_source_field)"""

    def __init__(self, v):
        self.n = v.int("n_source", lo=0)
        self.axis = Range(self.n)
        self.key, self.len = v.fun("key_source", 1), v.fun("len_source", 1)
        self.kind, self.var = v.fun("kind_source", 1), v.fun("var_source", 1)
        self.idx = v.fun("idx_source", 2)
        self.val = {t: v.fun(t, 2, "real") for k in TAGS for t in TAGS[k]}
        v.assume(A.forall([self.axis, self.axis], lambda i, j: b_implies(s_eq(self.key(i), self.key(j)), s_eq(i, j))))
        v.assume(A.forall(self.axis, lambda i: s_cmp(">=", self.len(i), 0)))
        v.assume(A.forall(self.axis, lambda i: b_or(self.is_kind("current", i), self.is_kind("voltage", i))))
        v.assume(A.forall(self.axis, lambda i: b_or(self.lumped(i), s_eq(self.var(i), lit_code("distributed")))))
        self.dict = SDict(self.axis, lambda i: SymStr(self.key(i)), self.record, "source")

    def is_kind(self, k, i):
        return s_eq(self.kind(i), lit_code(k))

    def lumped(self, i):
        return s_eq(self.var(i), lit_code("lumped"))

    def record(self, i):
        ax = Range(self.len(i))
        d = {t: Arr((ax,), (lambda f: lambda j: f(i, j))(f), "float") for t, f in self.val.items()}
        return PDict(dict(d, source_type=SymStr(self.kind(i)), var_type=SymStr(self.var(i)), idx=Arr((ax,), lambda j: self.idx(i, j), "int")))


def vector_spec(kind):
    def run(v):
        m = Sources(v)
        r = v.call(PV, "get_source_vector", m.dict, kind)
        v.prove("no error", v.raised is None)
        if v.raised:
            return
        t = TAGS[kind]
        fib = A.Sigma(A.Sub(m.axis, lambda i: m.is_kind(kind, i)), lambda i: Range(m.len(i)))
        for a, (x, y), nm in ((r[0], t[:2], "values"), (r[1], t[2:], "elements")):
            ok = A.ax_same(a.axes[0], fib)
            v.prove("%s: the voxels of the sources of the kind, in order" % nm, ok)
            if not ok:
                continue
            for u in v.each(fib):
                i, j = u
                z = Cx(m.val[x](i, j), m.val[y](i, j))
                n = m.len(i)
                if kind == "current":
                    # the current and the admittance are shared by the voxels
                    want = s_ite(m.lumped(i), s_div(z, n), z)
                    txt = "shared by the voxels of a lumped source, else the value of the voxel"
                else:
                    want = z if nm == "values" else s_ite(m.lumped(i), s_mul(z, n), z)
                    txt = "the given voltage" if nm == "values" else "impedance times the number of voxels of a lumped source, else the value of the voxel"
                v.prove("%s: %s" % (nm, txt), s_eq(a.fn(u), want))
    return run


for _kind in TAGS:
    spec("problem_value.get_source_vector: %s" % _kind, [PV + ":get_source_vector"])(vector_spec(_kind))


@spec("equation_system.get_source_vector", [ES + ":get_source_vector"])
def excitation(v):
    n = [v.int("n_" + k, lo=0) for k in ("vc", "vm", "fc", "fm")]
    idx = [v.array("idx_" + k, m, "int") for k, m in zip(("vc", "vm", "fc", "fm"), n)]
    nc, nv = v.int("n_src_c", lo=0), v.int("n_src_v", lo=0)
    I_, V = v.array("I_src_c", nc, "complex"), v.array("V_src_v", nv, "complex")
    r = v.call(ES, "get_source_vector", *idx, I_, V)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    c, m = r
    start = s_add(n[0], n[2])
    v.prove("electric side: length", s_eq(A.ax_len(c.axes[0]), s_add(start, s_add(nc, nv))))
    v.prove("magnetic side: length", s_eq(A.ax_len(m.axes[0]), s_add(n[1], n[3])))

    def at(a, p):
        return a.fn(A.pos_to_index(a.axes[0], p))
    for p in v.each(Range(start)):
        v.prove("no excitation outside of the source equations", s_eq(at(c, p), Cx(0, 0)))
    for p in v.each(Range(nc)):
        v.prove("the currents follow the equations of the electric side", s_eq(at(c, s_add(start, p)), I_.fn(p)))
    for p in v.each(Range(nv)):
        v.prove("the voltages follow the currents", s_eq(at(c, s_add(s_add(start, nc), p)), V.fn(p)))
    for p in v.each(Range(A.ax_len(m.axes[0]))):
        v.prove("no excitation of the magnetic side", s_eq(at(m, p), Cx(0, 0)))


@spec("equation_system.get_source_matrix", [ES + ":get_source_matrix"])
def matrix(v):
    nvox, n, nc, nv = v.int("n_voxel", lo=1), v.int("n_vc", lo=0), v.int("n_src_c", lo=0), v.int("n_src_v", lo=0)
    # electric voxels in any order; the voxels of the sources are some of them (get_problem_type, C09)
    idx, f, where, has = selection(v, "idx_vc", n, nvox)
    lc, lv = v.fun("place_c", 1), v.fun("place_v", 1)
    for m, g in ((nc, lc), (nv, lv)):
        v.assume(A.forall(Range(m), lambda j: b_and(s_cmp("<=", 0, g(j)), s_cmp("<", g(j), n))))
    src_c, src_v = v.array("idx_src_c", nc, "int", lambda j: f(lc(j))), v.array("idx_src_v", nv, "int", lambda j: f(lv(j)))
    Y, Z = v.array("Y_src_c", nc, "complex"), v.array("Z_src_v", nv, "complex")
    r = v.call(ES, "get_source_matrix", idx, src_c, src_v, Y, Z)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    ns = s_add(nc, nv)
    a, b, m = r
    for x, shape, nm in ((a, (n, ns), "balance"), (b, (ns, n), "voltages"), (m, (ns, ns), "currents")):
        v.prove(nm + ": shape", b_and(x.ndim == 2, *[s_eq(A.ax_len(y), k) for y, k in zip(x.axes, shape)]))

    def at(x, *p):
        return x.fn(*[A.pos_to_index(y, k) for y, k in zip(x.axes, p)])
    one, zero = Cx(1, 0), Cx(0, 0)
    for i in v.each(Range(n)):
        for j in v.each(Range(nc)):
            hit = s_eq(i, lc(j))
            v.prove_inst("balance: the current leaves at its voxel only (current source)", s_eq(at(a, i, j), s_ite(hit, Cx(-1, 0), zero)))
            v.prove_inst("voltages: admittance at the voxel of a current source", s_eq(at(b, j, i), s_ite(hit, Y.fn(j), zero)))
        for j in v.each(Range(nv)):
            hit = s_eq(i, lv(j))
            k = s_add(nc, j)
            v.prove_inst("balance: the current leaves at its voxel only (voltage source)", s_eq(at(a, i, k), s_ite(hit, Cx(-1, 0), zero)))
            v.prove_inst("voltages: one at the voxel of a voltage source", s_eq(at(b, k, i), s_ite(hit, one, zero)))
    for i in v.each(Range(ns)):
        for j in v.each(Range(ns)):
            v.prove_inst("currents: one for current sources, impedance for voltage sources", s_eq(at(m, i, j), s_ite(s_eq(i, j), s_ite(s_cmp("<", i, nc), one, Z.fn(s_sub(i, nc))), zero)))


from contracts.wiring import solver_spec  # noqa: E402


def _sources(s, w, r, d, i, p, t):
    got = [x for x in w.calls if x.name == "get_solver"]
    s.v.prove("the system is solved once", len(got) == 1)
    for x in got:
        w.check("excitation of the source data", x.args[4], t["rhs"])
    for x in [x for x in w.calls if x.name in ("get_system_operator", "get_cond_operator")]:
        w.check("%s: source matrices of the source data" % x.name, x.args[3], t["A_src"])


solver_spec("sweep", _sources)


spec("problem_value._merge_val_idx", [PV + ":_merge_val_idx"])(lambda v: merge_spec(v, PV))
spec("problem_value.get_source_value", [PV + ":get_source_value"])(lambda v: value_spec(v, PV, "get_source_value", "_get_source_field"))
