"""Composition of functions: every callee is a term, a caller is checked for the terms it composes.

The callees of a workflow function are replaced by their names (uninterpreted functions of their
bound arguments): the contracts of the callees are stated and proved elsewhere; here the caller is
shown to hand each callee the results of the documented other ones.
"""
from contracts.common import *  # noqa


class Tok:
    """result of a function (or an input): compared by structure"""

    def __init__(self, name, args=(), path=()):
        self.name, self.args, self.path = name, tuple(args), tuple(path)

    def vc_unpack(self, n):
        return [self[k] for k in range(n)]

    def vc_item(self, ip, key):
        return self[key]

    def vc_binop(self, ip, op, other, rev):
        if op not in ("+",):
            raise Unsupported("operator %s of a result" % op)
        return Tok("+", sorted((self, other), key=key))

    def __getitem__(self, k):
        return Tok(self.name, self.args, self.path + (k,))

    def __repr__(self):
        return key(self)


def key(x):
    if isinstance(x, Tok):
        r = x.name + ("(%s)" % ",".join(key(a) for a in x.args) if x.args else "")
        return r + "".join("[%s]" % key(k) for k in x.path)
    if isinstance(x, (list, tuple)):
        return "(%s)" % ",".join(key(u) for u in x)
    if isinstance(x, dict):
        return "{%s}" % ",".join("%r:%s" % (k, key(u)) for k, u in sorted(x.items(), key=lambda t: str(t[0])))
    if is_z3(x):
        return x.sexpr()
    if x is None or isinstance(x, (str, int, float, bool)):
        return repr(x)
    return "<%d>" % id(x)


class Wiring:
    def __init__(self, v):
        self.v = v
        self.calls = []

    def stub(self, mod, name, after=None):
        """after: the value which is returned for the term of the call"""
        v = self.v

        def call(*args, **kwargs):
            f = v.ip.function(mod, name)
            env = {}
            v.ip.bind(f, list(args), kwargs, env)
            a = f.node.args
            t = Tok(name, [env[p.arg] for p in a.posonlyargs + a.args + a.kwonlyargs])
            self.calls.append(t)
            return after(t) if after else t
        v.override(mod + ":" + name, call)

    def stubs(self, mod, *names):
        for n in names:
            self.stub(mod, n)

    def count(self, name):
        return len([t for t in self.calls if t.name == name])

    def check(self, clause, got, want):
        v = self.v
        ok = key(got) == key(want)
        if not ok and v.runner.verbose:
            print("WIRING", clause, "\n got ", key(got)[:1500], "\n want", key(want)[:1500])
        v.prove(clause, ok)


def T(name, *args):
    return Tok(name, args)


class Solver:
    """the terms of run/solver.py"""
    M = "pypeec.lib_solver."
    RUN = "pypeec.run.solver"

    def __init__(self, v):
        self.v = v
        w = self.w = Wiring(v)
        M = self.M
        w.stubs(M + "voxel_geometry", "get_voxel_coordinate", "get_incidence_matrix")
        w.stubs(M + "problem_geometry", "get_material_idx", "get_source_idx", "get_material_pos", "get_source_pos", "get_problem_type", "get_reduce_matrix", "get_status")
        w.stubs(M + "system_tensor", "get_green_self", "get_green_tensor", "get_coupling_tensor")
        w.stubs(M + "system_matrix", "get_inductance_matrix", "get_potential_matrix", "get_coupling_matrix")
        w.stubs(M + "problem_value", "get_material_value", "get_source_value", "get_material_vector", "get_source_vector", "get_resistance_vector")
        w.stubs(M + "equation_system", "get_source_vector", "get_source_matrix", "get_cond_operator", "get_coupling_operator", "get_system_operator", "get_system_sol_idx")
        w.stubs(M + "extract_convergence", "get_fct_conv")
        w.stubs(M + "extract_solution", "get_sol_extract", "get_losses", "get_energy", "get_vector_density", "get_scalar_density", "get_divergence_density", "get_material", "get_source", "get_integral",
                "get_magnetic_field_electric", "get_magnetic_field_magnetic")
        self.solver_ok, self.condition_ok = v.bool("solver_ok"), v.bool("condition_ok")
        w.stub(M + "equation_solver", "get_condition", lambda t: (self.condition_ok, t[1]))
        w.stub(M + "equation_solver", "get_solver", lambda t: (t[0], t[1], t[2], self.solver_ok, t[4]))
        w.stubs("pypeec.lib_matrix.matrix_factorization", "set_options")
        w.stubs("pypeec.lib_matrix.multiply_fft", "set_options")
        w.stubs("pypeec.lib_matrix.fourier_transform", "set_options")

    def data(self):
        names = ["n", "d", "c", "parallel_sweep", "integral_simplify", "mult_type", "source_def", "material_def", "domain_def", "graph_def", "pts_cloud", "sweep_solver",
                 "biot_savart", "condition_options", "solver_options", "factorization_options", "fft_options"]
        return {k: Tok("data." + k) for k in names}

    def init(self):
        """call _run_solver_init: result, expected terms"""
        v, d = self.v, self.data()
        r = v.call(self.RUN, "_run_solver_init", PDict(d))
        v.prove("no error", v.raised is None)
        if v.raised:
            raise Skip()
        t = {}
        t["pts_vox"], t["A_vox"] = T("get_voxel_coordinate", d["n"], d["d"], d["c"]), T("get_incidence_matrix", d["n"])
        m, s = T("get_material_idx", d["material_def"], d["domain_def"]), T("get_source_idx", d["source_def"], d["domain_def"])
        t["idx_vc"], t["idx_vm"], t["idx_src_c"], t["idx_src_v"] = m[0], m[1], s[0], s[1]
        t["material_idx"] = T("get_material_pos", m[2], m[0], m[1])
        t["source_idx"] = T("get_source_pos", s[2], m[0], s[0], s[1])
        t["has_magnetic"] = T("get_problem_type", m[0], m[1], s[0], s[1], d["graph_def"])
        for k, idx in (("c", m[0]), ("m", m[1])):
            r3 = T("get_reduce_matrix", t["pts_vox"], t["A_vox"], idx)
            t["pts_net_" + k], t["A_net_" + k], t["idx_f" + k] = r3[0], r3[1], r3[2]
        t["problem_status"] = T("get_status", d["n"], m[0], m[1], t["idx_fc"], t["idx_fm"], s[0], s[1])
        t["G_self"] = T("get_green_self", d["d"])
        t["G_mutual"] = T("get_green_tensor", d["n"], d["d"], d["integral_simplify"])
        t["K_tsr"] = T("get_coupling_tensor", d["n"], d["d"], d["integral_simplify"], t["has_magnetic"])
        L = T("get_inductance_matrix", d["n"], d["d"], t["idx_fc"], t["G_self"], t["G_mutual"], d["mult_type"])
        P = T("get_potential_matrix", d["d"], m[1], t["G_self"], t["G_mutual"], d["mult_type"])
        K = T("get_coupling_matrix", d["n"], m[0], m[1], t["idx_fc"], t["idx_fm"], t["A_net_c"], t["A_net_m"], t["K_tsr"], d["mult_type"])
        t["L_c"], t["L_op_c"], t["P_m"], t["P_op_m"], t["K_op_c"], t["K_op_m"] = L[0], L[1], P[0], P[1], K[0], K[1]
        return r, d, t

    INTERNAL = ["idx_vc", "idx_vm", "idx_fc", "idx_fm", "idx_src_c", "idx_src_v", "A_net_c", "A_net_m", "L_c", "L_op_c", "P_m", "P_op_m", "K_op_c", "K_op_m", "material_idx", "source_idx", "pts_net_c", "pts_net_m"]

    def sweep(self):
        """call _run_solver_sweep: result, expected terms"""
        v, d = self.v, self.data()
        i = {k: Tok("init." + k) for k in self.INTERNAL}
        p = {k: Tok("param." + k) for k in ("freq", "material_val", "source_val")}
        init = Tok("sol_init")
        r = v.call(self.RUN, "_run_solver_sweep", PDict(d), PDict(i), PDict(p), init)
        v.prove("no error", v.raised is None)
        if v.raised:
            raise Skip()
        t = {}
        t["material_all"] = T("get_material_value", p["material_val"], i["material_idx"])
        t["source_all"] = T("get_source_value", p["source_val"], i["source_idx"])
        rho = T("get_material_vector", t["material_all"])
        cur, vol = T("get_source_vector", t["source_all"], "current"), T("get_source_vector", t["source_all"], "voltage")
        for k, x in (("c", rho[0]), ("m", rho[1])):
            t["R_" + k] = T("get_resistance_vector", d["n"], d["d"], i["A_net_" + k], i["idx_f" + k], x)
        t["rhs"] = T("get_source_vector", i["idx_vc"], i["idx_vm"], i["idx_fc"], i["idx_fm"], cur[0], vol[0])
        t["A_src"] = T("get_source_matrix", i["idx_vc"], i["idx_src_c"], i["idx_src_v"], cur[1], vol[1])
        c = T("get_cond_operator", p["freq"], i["A_net_c"], i["A_net_m"], t["A_src"], t["R_c"], t["R_m"], i["L_c"], i["P_m"])
        t["fct_pcd"], t["S_mat"] = c[0], c[1]
        t["fct_cpl"] = T("get_coupling_operator", p["freq"], i["A_net_c"], i["A_net_m"], t["A_src"], i["K_op_c"], i["K_op_m"])
        t["fct_sys"] = T("get_system_operator", p["freq"], i["A_net_c"], i["A_net_m"], t["A_src"], t["R_c"], t["R_m"], i["L_op_c"], i["P_op_m"])
        t["sol_idx"] = T("get_system_sol_idx", i["A_net_c"], i["A_net_m"], t["A_src"])
        t["condition"] = T("get_condition", t["S_mat"], d["condition_options"])
        t["fct_conv"] = T("get_fct_conv", p["freq"], t["source_all"], t["sol_idx"])
        t["solver"] = T("get_solver", init, t["fct_cpl"], t["fct_sys"], t["fct_pcd"], t["rhs"], t["fct_conv"], d["solver_options"])
        x = T("get_sol_extract", t["solver"][0], t["sol_idx"])
        t["I_fc"], t["V_vc"], t["I_fm"], t["V_vm"], t["I_src"] = [x[k] for k in range(5)]
        los = T("get_losses", p["freq"], t["I_fc"], t["I_fm"], t["R_c"], t["R_m"])
        en = T("get_energy", p["freq"], t["I_fc"], t["I_fm"], i["L_op_c"], i["K_op_c"])
        for n, k in enumerate("cm"):
            A_, I_ = i["A_net_" + k], t["I_f" + k]
            t["P_f" + k], t["W_f" + k] = los[n], en[n]
            t["vector_" + k] = T("get_vector_density", d["n"], d["d"], i["idx_f" + k], A_, I_)
            t["losses_" + k] = T("get_scalar_density", d["d"], A_, los[n])
            t["outflow_" + k] = T("get_divergence_density", d["d"], A_, I_)
        t["material"] = T("get_material", t["material_all"], i["A_net_c"], i["A_net_m"], los[0], los[1])
        s = T("get_source", p["freq"], t["source_all"], t["I_src"], t["V_vc"])
        t["source"], t["S_total"] = s[0], s[1]
        t["integral"] = T("get_integral", los[0], los[1], en[0], en[1], s[1])
        h = [T("get_magnetic_field_electric", d["n"], d["d"], i["idx_fc"], i["A_net_c"], t["I_fc"], i["pts_net_c"], d["pts_cloud"], d["biot_savart"]),
             T("get_magnetic_field_magnetic", i["A_net_m"], t["I_fm"], i["pts_net_m"], d["pts_cloud"])]
        t["H"] = Tok("+", sorted(h, key=key))
        v.prove("two results", isinstance(r, (tuple, list)) and len(r) == 2)
        return r, d, i, p, t


def solver_spec(kind, check):
    name = "_run_solver_" + kind

    def run(v):
        s = Solver(v)
        check(s, s.w, *getattr(s, kind)())
    return spec("solver.%s: composition" % name, [Solver.RUN + ":" + name])(run)


class Mesher:
    """the terms of run/mesher.py"""
    M = "pypeec.lib_mesher."
    RUN = "pypeec.run.mesher"

    def __init__(self, v):
        self.v = v
        w = self.w = Wiring(v)
        M = self.M
        for m in ("voxel", "shape", "png", "stl"):
            w.stub(M + "mesher_" + m, "get_mesh", (lambda m: lambda t: Tok(m + "." + t.name, t.args))(m))
        w.stubs(M + "voxel_point", "get_point")
        w.stubs(M + "voxel_resampling", "get_resampling")
        w.stubs(M + "voxel_conflict", "get_conflict")
        w.stubs(M + "voxel_integrity", "get_integrity")
        w.stubs(M + "voxel_summary", "get_summary")

    def resample(self):
        v = self.v
        i = {k: Tok("mesh." + k) for k in ("n", "d", "c", "domain_def")}
        g = {k: Tok("geometry." + k) for k in ("data_point", "data_resampling", "data_conflict", "data_integrity")}
        ref = Tok("reference")
        r = v.call(self.RUN, "_run_resample_graph", ref, PDict(i), PDict(g))
        v.prove("no error", v.raised is None)
        if v.raised:
            raise Skip()
        t = {"reference": ref}
        t["pts_cloud"] = T("get_point", i["n"], i["d"], i["c"], i["domain_def"], g["data_point"])
        x = T("get_resampling", i["n"], i["d"], i["c"], i["domain_def"], g["data_resampling"])
        t["n"], t["d"], t["c"], t["s"] = [x[k] for k in range(4)]
        t["domain_def"] = T("get_conflict", x[4], g["data_conflict"])
        t["graph_def"] = T("get_integrity", x[0], t["domain_def"], g["data_integrity"])
        t["voxel_status"] = T("get_summary", x[0], x[1], x[3], x[2], t["pts_cloud"], t["domain_def"], t["graph_def"])
        return r, t


MESH_FIELDS = {"voxel": ["param", "domain_index"], "png": ["param", "domain_color", "layer_stack"], "shape": ["param", "layer_stack", "geometry_shape"], "stl": ["param", "domain_stl"]}


def mesher_spec(*fields):
    """the given fields of the mesh are the documented compositions"""
    def run(v):
        m = Mesher(v)
        r, t = m.resample()
        for k in fields:
            m.w.check("%s of the mesh" % k, r[k], t[k])
    return spec("mesher._run_resample_graph: composition", [Mesher.RUN + ":_run_resample_graph"])(run)


def dispatch_spec(kind):
    """a geometry of the kind is meshed by its mesher, with the given data"""
    def run(v):
        m = Mesher(v)
        g = {k: Tok("voxelize." + k) for k in MESH_FIELDS[kind]}
        r = v.call(Mesher.RUN, "_run_mesher", PDict({"mesh_type": kind, "data_voxelize": PDict(g)}))
        v.prove("no error", v.raised is None)
        if v.raised:
            return
        x = T(kind + ".get_mesh", *[g[k] for k in MESH_FIELDS[kind]])
        m.w.check("reference of the mesher", r[0], x[4])
        m.w.check("result of the mesher", r[1], {"n": x[0], "d": x[1], "c": x[2], "domain_def": x[3]})
    return spec("mesher._run_mesher: " + kind, [Mesher.RUN + ":_run_mesher", Mesher.RUN + ":_run_" + kind])(run)
