"""Material data become the documented resistances of the faces."""
from contracts.common import *  # noqa
from contracts.net import Net, half, re, im

PV = "pypeec.lib_solver.problem_value"
TAGS = {"electric": ["rho_re", "rho_im"], "magnetic": ["chi_re", "chi_im"], "electromagnetic": ["rho_re", "rho_im", "chi_re", "chi_im"]}


def field_spec(var, orient):
    def run(v):
        kinds = list(TAGS)
        k = kinds[0] if v.branch(v.bool("electric"), "electric") else kinds[1] if v.branch(v.bool("magnetic"), "magnetic") else kinds[2]
        n = v.int("n_voxel", lo=0)
        idx = v.array("idx", n, "int")
        m = v.int("n_given", lo=0)
        val, want, fits = {}, {}, True
        for t in TAGS[k]:
            if var == "lumped" and orient == "isotropic":
                x = v.real(t)
                val[t], want[t] = x, (lambda x: lambda i, a: x)(x)
            elif var == "lumped":
                x = [v.real(t) for _ in range(3)]
                val[t], want[t] = PList(x), (lambda x: lambda i, a: x[a])(x)
            elif orient == "isotropic":
                f = v.fun(t, 1, "real")
                val[t], want[t] = v.array(t, m, "float", f), (lambda f: lambda i, a: f(i))(f)
                fits = s_eq(m, n)
            else:
                f = v.fun(t, 2, "real")
                val[t], want[t] = v.array(t, (m, 3), "float", f), (lambda f: lambda i, a: f(i, a))(f)
                fits = s_eq(m, n)
        d = dict(val, orientation_type=orient, material_type=k, var_type=var, idx=idx, other=v.real("other"))
        r = v.call(PV, "_get_material_field", dict(d))
        if v.raised:
            v.prove("an error is raised only for data which do not match the voxels", b_not(fits))
            return
        v.prove("data which do not match the voxels are rejected", fits)
        v.prove("the other data are kept", set(r) == set(d) and r["idx"] is idx and r["material_type"] == k and r["var_type"] == var)
        for t in TAGS[k]:
            a = r[t]
            v.prove("values: shape", b_and(a.ndim == 2, s_eq(A.ax_len(a.axes[0]), n), s_eq(A.ax_len(a.axes[1]), 3)))
            v.prove("values: real numbers", a.kind == "float")
            for i in v.each(Range(n)):
                for c in range(3):
                    v.prove("values of the voxels in the order of the indices, per axis", s_eq(a.fn(A.pos_to_index(a.axes[0], i), A.pos_to_index(a.axes[1], c)), want[t](i, c)))
    return run


for _var in ("lumped", "distributed"):
    for _or in ("isotropic", "anisotropic"):
        spec("problem_value._get_material_field: %s %s" % (_var, _or), [PV + ":_get_material_field"])(field_spec(_var, _or))


class Materials:
    """any number of materials of any kinds; the fields have one row per voxel (checked by _get_material_field)"""

    def __init__(self, v):
        self.n = v.int("n_material", lo=0)
        self.axis = Range(self.n)
        self.key, self.len = v.fun("key_material", 1), v.fun("len_material", 1)
        self.kind = v.fun("kind_material", 1)
        self.idx = v.fun("idx_material", 2)
        self.val = {t: v.fun(t, 3, "real") for t in TAGS["electromagnetic"]}
        v.assume(A.forall([self.axis, self.axis], lambda i, j: b_implies(s_eq(self.key(i), self.key(j)), s_eq(i, j))))
        v.assume(A.forall(self.axis, lambda i: s_cmp(">=", self.len(i), 0)))
        code = {k: lit_code(k) for k in TAGS}
        v.assume(A.forall(self.axis, lambda i: b_or(*[s_eq(self.kind(i), c) for c in code.values()])))
        self.electric = lambda i: b_or(s_eq(self.kind(i), code["electric"]), s_eq(self.kind(i), code["electromagnetic"]))
        self.magnetic = lambda i: b_or(s_eq(self.kind(i), code["magnetic"]), s_eq(self.kind(i), code["electromagnetic"]))
        self.dict = SDict(self.axis, lambda i: SymStr(self.key(i)), self.record, "material")

    def record(self, i):
        ax = Range(self.len(i))
        d = {t: Arr((ax, Range(3)), (lambda f: lambda j, c: f(i, j, c))(f), "float") for t, f in self.val.items()}
        return PDict(dict(d, material_type=SymStr(self.kind(i)), idx=Arr((ax,), lambda j: self.idx(i, j), "int")))


@spec("problem_value.get_material_vector", [PV + ":get_material_vector"])
def vector(v):
    m = Materials(v)
    r = v.call(PV, "get_material_vector", m.dict)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    g = m.val
    for a, sel, want, nm in ((r[0], m.electric, lambda i, j, c: Cx(g["rho_re"](i, j, c), g["rho_im"](i, j, c)), "electric"),
                             (r[1], m.magnetic, None, "magnetic")):
        fib = A.Sigma(A.Sub(m.axis, sel), lambda i: Range(m.len(i)))
        ok = A.ax_same(a.axes[0], fib)
        v.prove("%s: the voxels of the materials of the kind, in order" % nm, ok)
        v.prove("%s: per axis" % nm, b_and(a.ndim == 2, s_eq(A.ax_len(a.axes[1]), 3)))
        if not ok:
            continue
        for u in v.each(fib):
            i, j = u
            for c in range(3):
                x = a.fn(u, A.pos_to_index(a.axes[1], c))
                if want is not None:
                    v.prove("electric: rho_re + j rho_im", s_eq(x, want(i, j, c)))
                else:
                    # rho (mu0 (chi_re - j chi_im)) = 1
                    chi = Cx(g["chi_re"](i, j, c), s_neg(g["chi_im"](i, j, c)))
                    with scope():
                        v.c.hyp(b_not(b_and(s_eq(chi.re, 0), s_eq(chi.im, 0))))
                        v.prove("magnetic: 1/(mu0 (chi_re - j chi_im))", s_eq(s_mul(x, s_mul(MU0, chi)), Cx(1, 0)))


@spec("problem_value.get_resistance_vector", [PV + ":get_resistance_vector"])
def resistance(v):
    net = Net(v)
    d = net.d
    rho = v.array("rho_v", (net.nv, 3), "complex")
    r = v.call(PV, "get_resistance_vector", PList(net.n), PList(d), net.A, net.idx_f, rho)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    area = [s_mul(d[1], d[2]), s_mul(d[0], d[2]), s_mul(d[0], d[1])]
    v.prove("one resistance per face", b_and(r.ndim == 1, s_eq(A.ax_len(r.axes[0]), net.nf)))
    for f in v.each(Range(net.nf)):
        got = r.fn(A.pos_to_index(r.axes[0], f))
        for k in range(3):
            with scope():
                v.c.hyp(net.along(f, k))
                mean = s_mul(half, s_add(rho.fn(net.low(f), k), rho.fn(net.high(f), k)))
                v.prove("mean of the two voxels times length over cross section", s_eq(got, s_div(s_mul(mean, d[k]), area[k])))


from contracts.wiring import solver_spec  # noqa: E402


def _resistances(s, w, r, d, i, p, t):
    got = [x for x in w.calls if x.name in ("get_system_operator", "get_cond_operator", "get_losses")]
    for x in got:
        a = x.args[4:6] if x.name == "get_system_operator" else x.args[4:6] if x.name == "get_cond_operator" else x.args[3:5]
        w.check("%s: resistances of the material data" % x.name, a, (t["R_c"], t["R_m"]))
    s.v.prove("the resistances are used", len(got) >= 3)


solver_spec("sweep", _resistances)


spec("problem_value._merge_val_idx", [PV + ":_merge_val_idx"])(lambda v: merge_spec(v, PV))
spec("problem_value.get_material_value", [PV + ":get_material_value"])(lambda v: value_spec(v, PV, "get_material_value", "_get_material_field"))
