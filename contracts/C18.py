"""Reported losses, energies and terminal values balance."""
from contracts.common import *  # noqa
from contracts.net import Net, half, conj, re, mag2

EX = "pypeec.lib_solver.extract_solution"
EC = "pypeec.lib_solver.extract_convergence"
PI2J = Cx(0, s_mul(2, PI))


def factor(v, freq, dc, ac):
    """factor of the time average"""
    return dc if v.branch(s_eq(freq, 0), "zero frequency") else ac


@spec("extract_solution.get_losses", [EX + ":get_losses"])
def losses(v):
    nc, nm, f = v.int("n_fc", lo=0), v.int("n_fm", lo=0), v.real("freq", lo=0)
    Ic, Im, Rc, Rm = [v.array(k, m, "complex") for k, m in (("I_fc", nc), ("I_fm", nm), ("R_c", nc), ("R_m", nm))]
    r = v.call(EX, "get_losses", f, Ic, Im, Rc, Rm)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    k = factor(v, f, 1, half)
    # P = Re(R |I|^2)/2
    v.equal_arr("electric losses", r[0], [Range(nc)], lambda i: s_mul(k, s_mul(re(Rc.fn(i)), mag2(Ic.fn(i)))))
    # the flux rate is s I with s = j 2 pi f
    s = s_mul(PI2J, f)
    v.equal_arr("magnetic losses", r[1], [Range(nm)], lambda i: s_mul(k, re(s_mul(conj(s_mul(s, Im.fn(i))), s_mul(Rm.fn(i), Im.fn(i))))))


@spec("extract_solution.get_energy", [EX + ":get_energy"])
def energy(v):
    nc, nm, f = v.int("n_fc", lo=0), v.int("n_fm", lo=0), v.real("freq", lo=0)
    Ic, Im = v.array("I_fc", nc, "complex"), v.array("I_fm", nm, "complex")
    L, K = v.array("L_I", nc, "complex"), v.array("K_I", nc, "complex")

    def op(arg, res, name):
        def call(ip, args, kwargs):
            v.prove("the %s operator is applied to its currents" % name, args[0] is arg or same(args[0], arg))
            return res
        return Builtin(name, call)

    def same(a, b):
        return A.ax_same(a.axes[0], b.axes[0]) and all(v.c.valid(s_eq(a.fn(i), b.fn(i))) for i in A.each(a.axes[0]))
    r = v.call(EX, "get_energy", f, Ic, Im, op(Ic, L, "inductance"), op(Im, K, "coupling"))
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    k = factor(v, f, half, Fraction(1, 4))
    v.equal_arr("electric energy", r[0], [Range(nc)], lambda i: s_mul(k, re(s_mul(conj(Ic.fn(i)), L.fn(i)))))
    v.equal_arr("magnetic energy", r[1], [Range(nc)], lambda i: s_mul(k, re(s_mul(conj(Ic.fn(i)), K.fn(i)))))


@spec("extract_solution.get_integral", [EX + ":get_integral"])
def integral(v):
    n = [v.int("n_" + k, lo=0) for k in ("fc", "fm", "wc", "wm")]
    a = [v.array(k, m, "float") for k, m in zip(("P_fc", "P_fm", "W_fc", "W_fm"), n)]
    S = v.cx("S_total")
    r = v.call(EX, "get_integral", *a, S)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    t = [A.sum_over([Range(m)], lambda i, x=x: x.fn(i)) for x, m in zip(a, n)]
    want = {"P_electric": t[0], "P_magnetic": t[1], "W_electric": t[2], "W_magnetic": t[3], "P_total": s_add(t[0], t[1]), "W_total": s_add(t[2], t[3]), "S_total": S}
    v.prove("exactly the documented fields", set(r) == set(want))
    for k, x in want.items():
        v.prove("total " + k, s_eq(r[k], x))


@spec("extract_solution.get_vector_density", [EX + ":get_vector_density"])
def vector_density(v):
    net = Net(v)
    n, d = net.n, net.d
    x = v.array("var_f", net.nf, "complex")
    r = v.call(EX, "get_vector_density", PList(n), PList(d), net.idx_f, net.A, x)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    area = [s_mul(d[1], d[2]), s_mul(d[0], d[2]), s_mul(d[0], d[1])]
    v.prove("shape", b_and(r.ndim == 2, s_eq(A.ax_len(r.axes[0]), net.nv), s_eq(A.ax_len(r.axes[1]), 3)))
    for i in v.each(Range(net.nv)):
        for k in range(3):
            want = s_div(A.sum_over([Range(net.nf)], lambda f: s_ite(net.along(f, k), s_mul(s_mul(half, net.touch(i, f)), x.fn(f)), 0)), area[k])
            v.prove("half of the flux of the two faces of the direction over the cross section", s_eq(r.fn(A.pos_to_index(r.axes[0], i), k), want))


@spec("extract_solution.get_scalar_density", [EX + ":get_scalar_density"])
def scalar_density(v):
    net = Net(v)
    d = net.d
    x = v.array("var_f", net.nf, "float")
    r = v.call(EX, "get_scalar_density", PList(d), net.A, x)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    vol = prod(d)
    v.equal_arr("half of the values of the faces over the volume", r, [Range(net.nv)], lambda i: s_div(A.sum_over([Range(net.nf)], lambda f: s_mul(s_mul(half, net.touch(i, f)), x.fn(f))), vol))
    # every face has two voxels
    tot = A.sum_over([Range(net.nv)], lambda i: s_mul(vol, r.fn(i)))
    v.prove("density times volume sums to the total of the faces", s_eq(tot, A.sum_over([Range(net.nf)], lambda f: x.fn(f))))


@spec("extract_solution.get_divergence_density", [EX + ":get_divergence_density"])
def divergence(v):
    net = Net(v)
    d = net.d
    x = v.array("var_f", net.nf, "complex")
    r = v.call(EX, "get_divergence_density", PList(d), net.A, x)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.equal_arr("net outflow over the volume", r, [Range(net.nv)], lambda i: s_div(A.sum_over([Range(net.nf)], lambda f: s_mul(net.entry(i, f), x.fn(f))), prod(d)))


class Items:
    """mapping from distinct names to records with index arrays"""

    def __init__(self, v, fields, limits, name, shared=False):
        self.v = v
        self.n = v.int("n_" + name, lo=0)
        self.key = v.fun("key_" + name, 1)
        self.axis = Range(self.n)
        self.len = {k: v.fun("len_" + k, 1) for k in fields}
        if shared:
            # one length for all of the arrays of a record
            self.len = {k: self.len[fields[0]] for k in fields}
        self.at = {k: v.fun("at_" + k, 2) for k in fields}
        v.assume(A.forall([self.axis, self.axis], lambda i, j: b_implies(s_eq(self.key(i), self.key(j)), s_eq(i, j))))
        for k, m in zip(fields, limits):
            v.assume(A.forall(self.axis, lambda i: s_cmp(">=", self.len[k](i), 0)))
            v.assume(A.forall(A.Sigma(self.axis, lambda i: Range(self.len[k](i))), lambda u: b_and(s_cmp("<=", 0, self.at[k](*u)), s_cmp("<", self.at[k](*u), m))))
        self.extra = lambda i: {}
        self.dict = SDict(self.axis, lambda i: SymStr(self.key(i)), self.record, name)

    def arr(self, k, i):
        return Arr((Range(self.len[k](i)),), lambda j: self.at[k](i, j), "int")

    def record(self, i):
        return PDict(dict({k: self.arr(k, i) for k in self.len}, **self.extra(i)))


@spec("extract_solution.get_material", [EX + ":get_material"])
def material(v):
    ne, nm = Net(v, "c"), Net(v, "m")
    pc, pm = v.array("P_fc", ne.nf, "float"), v.array("P_fm", nm.nf, "float")
    it = Items(v, ["idx_vc", "idx_vm"], [ne.nv, nm.nv], "material")
    r = v.call(EX, "get_material", it.dict, ne.A, nm.A, pc, pm)
    v.prove("no error", v.raised is None)
    if v.raised:
        return

    def vox(net, p, i):
        return A.sum_over([Range(net.nf)], lambda f: s_mul(s_mul(half, net.touch(i, f)), p.fn(f)))
    v.prove("one entry per material", isinstance(r, SDict) and A.ax_same(r.axis, it.axis))
    for i in v.each(it.axis):
        v.prove("names of the materials", s_eq(str_term(r.key(i)), it.key(i)))
        m = r.val(i)
        e, g = [A.sum_over([Range(it.len[k](i))], lambda j: vox(net, p, it.at[k](i, j))) for k, net, p in (("idx_vc", ne, pc), ("idx_vm", nm, pm))]
        v.prove("exactly the documented fields", set(m) == {"P_electric", "P_magnetic", "P_total"})
        v.prove("electric losses of the voxels of the material", s_eq(m["P_electric"], e))
        v.prove("magnetic losses of the voxels of the material", s_eq(m["P_magnetic"], g))
        v.prove("total losses of the material", s_eq(m["P_total"], s_add(e, g)))


@spec("extract_solution.get_source", [EX + ":get_source"])
def source(v):
    nv, ns, f = v.int("n_vc", lo=0), v.int("n_src", lo=0), v.real("freq", lo=0)
    V, I_ = v.array("V_vc", nv, "complex"), v.array("I_src", ns, "complex")
    it = Items(v, ["idx", "idx_vc", "idx_src"], [v.int("n_voxel", lo=0), nv, ns], "source", True)
    st, vt = v.fun("source_type", 1), v.fun("var_type", 1)
    it.extra = lambda i: {"source_type": SymStr(st(i)), "var_type": SymStr(vt(i))}
    r = v.call(EX, "get_source", f, it.dict, I_, V)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    k = factor(v, f, 1, half)
    src, tot = r

    def power(i):
        return A.sum_over([Range(it.len["idx"](i))], lambda j: s_mul(k, s_mul(V.fn(it.at["idx_vc"](i, j)), conj(I_.fn(it.at["idx_src"](i, j))))))
    v.prove("one entry per source", isinstance(src, SDict) and A.ax_same(src.axis, it.axis))
    for i in v.each(it.axis):
        v.prove("names of the sources", s_eq(str_term(src.key(i)), it.key(i)))
        m = src.val(i)
        n = it.len["idx"](i)
        sv = A.sum_over([Range(n)], lambda j: V.fn(it.at["idx_vc"](i, j)))
        v.prove("exactly the documented fields", set(m) == {"V", "I", "S", "source_type", "var_type"})
        v.prove("the terminal voltage is the mean over the voxels", s_eq(m["V"], s_ite(s_eq(n, 0), Cx(0, 0), s_div(sv, n))))
        v.prove("the terminal current is the sum over the voxels", s_eq(m["I"], A.sum_over([Range(n)], lambda j: I_.fn(it.at["idx_src"](i, j)))))
        v.prove("the terminal power is the sum over the voxels", s_eq(m["S"], power(i)))
        v.prove("types of the source", b_and(s_eq(str_term(m["source_type"]), st(i)), s_eq(str_term(m["var_type"]), vt(i))))
    v.prove("total power of the sources", s_eq(tot, A.sum_over([it.axis], power)))


@spec("extract_convergence.get_fct_conv", [EC + ":get_fct_conv", EC + ":_get_conv_eval", EC + ":_get_total_power", EC + ":_get_sol_extract"])
def tracked(v):
    nv, ns, f = v.int("n_vc", lo=0), v.int("n_src", lo=0), v.real("freq", lo=0)
    nt = v.int("n_sol", lo=0)
    sol = v.array("sol", nt, "complex")
    pv, ps = v.fun("pos_vc", 1), v.fun("pos_src", 1)
    lim = lambda n, p: v.assume(A.forall(Range(n), lambda i: b_and(s_cmp("<=", 0, p(i)), s_cmp("<", p(i), nt))))  # noqa
    lim(nv, pv), lim(ns, ps)
    it = Items(v, ["idx_vc", "idx_src"], [nv, ns], "source", True)
    pos = {"V_vc": v.array("pos_vc", nv, "int", pv), "I_src": v.array("pos_src", ns, "int", ps)}
    g = v.call(EC, "get_fct_conv", f, it.dict, pos)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    r = v.call(g, sol)
    v.prove("no error of the tracking", v.raised is None)
    if v.raised:
        return
    k = factor(v, f, 1, half)
    want = A.sum_over([it.axis], lambda i: A.sum_over([Range(it.len["idx_vc"](i))], lambda j: s_mul(k, s_mul(sol.fn(pv(it.at["idx_vc"](i, j))), conj(sol.fn(ps(it.at["idx_src"](i, j))))))))
    v.prove("the tracked power is the total power of the sources", s_eq(r, want))


from contracts.wiring import solver_spec  # noqa: E402


def _composition(s, w, r, d, i, p, t):
    data = r[0]
    for k in ("material", "source", "integral"):
        w.check("%s: of the solution" % k, data[k], t[k])
    w.check("frequency", data["freq"], p["freq"])
    var = data["var"]
    want = {"V_c": (t["V_vc"], "scalar_electric"), "P_c": (t["losses_c"], "scalar_electric"), "S_c": (t["outflow_c"], "scalar_electric"), "J_c": (t["vector_c"], "vector_electric"),
            "V_m": (t["V_vm"], "scalar_magnetic"), "P_m": (t["losses_m"], "scalar_magnetic"), "Q_m": (t["outflow_m"], "scalar_magnetic"), "B_m": (t["vector_m"], "vector_magnetic")}
    s.v.prove("the documented variables", set(var) == set(want) | {"H_p"})
    for k, (x, c) in want.items():
        w.check("variable %s: of the solution" % k, var[k]["var"], x)
        s.v.prove("variable %s: kind" % k, var[k]["cat"] == c)
    w.check("the convergence is tracked with the power of the sources", [u for u in w.calls if u.name == "get_fct_conv"], [t["fct_conv"]])


solver_spec("sweep", _composition)
