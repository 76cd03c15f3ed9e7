"""Inductance, potential and coupling operators are scaled and reciprocal."""
from contracts.common import *  # noqa
from contracts.net import Net, half

SM = "pypeec.lib_solver.system_matrix"
MM = "pypeec.lib_matrix.matrix_multiply"


class Voxel:
    """contract of an operator of one list of indices: y[i] = sum_j T(idx[i], idx[j]) x[j]"""

    def __init__(self, v, idx, tensor, mult):
        self.v, self.calls = v, 0
        self.M = v.fun("T", 2, "real")

        def build(*args):
            self.calls += 1
            v.prove("the operator is built for the given indices, tensor and mode", args[0] is idx and args[1] is tensor and args[2] is mult)
            return Builtin("operator", self.apply)
        self.build = build
        self.idx = idx

    def apply(self, ip, args, kwargs):
        x = args[0]
        self.v.prove("the operand has one value per index", s_eq(A.ax_len(x.axes[0]), A.ax_len(self.idx.axes[0])))
        return Arr((self.idx.axes[0],), lambda i: self.sum(i, x), "complex")

    def sum(self, i, x):
        ax = self.idx.axes[0]
        return A.sum_over([ax], lambda j: s_mul(self.M(self.idx.fn(i), self.idx.fn(j)), x.fn(j)))


@spec("system_matrix.get_inductance_matrix", [SM + ":get_inductance_matrix", SM + ":_get_operator_zeros"])
def inductance(v):
    net = Net(v)
    d, n = net.d, net.n
    G_self, mult = v.real("G_self"), v.str("mult_type")
    tsr = v.array("G_mutual", n, "float")
    op = Voxel(v, net.idx_f, tsr, mult)
    v.override(MM + ":get_operator_inductance", op.build)
    r = v.call(SM, "get_inductance_matrix", PList(n), PList(d), net.idx_f, G_self, tsr, mult)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    L, L_op = r
    x = v.array("var_f", net.nf, "complex")
    y = v.call(L_op, x)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    if v.branch(s_eq(net.nf, 0), "no faces"):
        v.prove("no faces: no values", s_eq(A.ax_len(y.axes[0]), 0))
        return
    area = [s_mul(d[1], d[2]), s_mul(d[0], d[2]), s_mul(d[0], d[1])]
    v.prove("one value per face", b_and(y.ndim == 1, s_eq(A.ax_len(y.axes[0]), net.nf)))
    v.prove("one diagonal value per face", b_and(L.ndim == 1, s_eq(A.ax_len(L.axes[0]), net.nf)))
    for f in v.each(Range(net.nf)):
        for k in range(3):
            with scope():
                v.c.hyp(net.along(f, k))
                scale = s_div(MU0, s_mul(area[k], area[k]))
                got = y.fn(A.pos_to_index(y.axes[0], f))
                v.prove("mu0 times the mutual coefficients over the squared cross section", s_eq(got, s_mul(scale, op.sum(f, x))))
                v.prove("diagonal: mu0 times the self coefficient over the squared cross section", s_eq(L.fn(A.pos_to_index(L.axes[0], f)), s_mul(scale, G_self)))


@spec("system_matrix.get_potential_matrix", [SM + ":get_potential_matrix", SM + ":_get_operator_zeros"])
def potential(v):
    n, d = grid(v), size(v)
    nv = v.int("n_v", lo=0)
    idx = v.array("idx_v", nv, "int")
    G_self, mult = v.real("G_self"), v.str("mult_type")
    tsr = v.array("G_mutual", n, "float")
    op = Voxel(v, idx, tsr, mult)
    v.override(MM + ":get_operator_potential", op.build)
    r = v.call(SM, "get_potential_matrix", PList(d), idx, G_self, tsr, mult)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    P, P_op = r
    x = v.array("var_v", nv, "complex")
    y = v.call(P_op, x)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    if v.branch(s_eq(nv, 0), "no voxels"):
        v.prove("no voxels: no values", s_eq(A.ax_len(y.axes[0]), 0))
        return
    vol = prod(d)
    v.prove("diagonal: self coefficient over mu0 and the squared volume", s_eq(s_mul(P, s_mul(MU0, s_mul(vol, vol))), G_self))
    v.prove("one value per voxel", b_and(y.ndim == 1, s_eq(A.ax_len(y.axes[0]), nv)))
    for i in v.each(Range(nv)):
        got = y.fn(A.pos_to_index(y.axes[0], i))
        v.prove("mutual coefficients over mu0 and the squared volume", s_eq(s_mul(got, s_mul(MU0, s_mul(vol, vol))), op.sum(i, x)))


def ascending(v, net):
    """the face numbers are in ascending order (get_reduce_matrix, C08)"""
    i, j = v.c.ivar("i"), v.c.ivar("j")
    f = net.number
    v.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < zint(net.nf)), f(i) < f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))


@spec("system_matrix._get_face_voxel_indices", [SM + ":_get_face_voxel_indices"])
def face_voxel(v):
    net = Net(v)
    vox = v.fun("idx_v", 1)
    idx_v = v.array("idx_v", net.nv, "int", vox)
    for k in range(3):
        r = v.call(SM, "_get_face_voxel_indices", PList(net.n), idx_v, net.idx_f, net.A, k)
        v.prove("no error", v.raised is None)
        if v.raised:
            return
        a, idx = r
        v.prove("matrix: dimension", a.ndim == 2)
        rows, cols = a.axes
        v.prove("the faces of the direction in order", A.ax_same(cols, A.Sub(Range(net.nf), lambda f: net.along(f, k))))
        ok = isinstance(rows, A.Sub) and A.ax_same(rows.base, Range(net.nv))
        v.prove("the rows are a selection of the voxels in order", ok)
        v.prove("one index per row", A.ax_same(rows, idx.axes[0]))
        if not ok:
            continue
        for i, f in v.each([Range(net.nv), Range(net.nf)]):
            with scope():
                v.c.hyp(b_and(net.along(f, k), b_or(s_eq(i, net.low(f)), s_eq(i, net.high(f)))))
                v.prove("every voxel of a face of the direction has a row", rows.mask(i))
            with scope():
                v.c.hyp(b_and(rows.mask(i), net.along(f, k)))
                v.prove("1/2 for the two voxels of a face", s_eq(a.fn(i, f), s_mul(half, net.touch(i, f))))
                v.prove("the index of the voxel, moved by the direction", s_eq(idx.fn(i), s_add(s_mul(k, net.total), vox(i))))


def coupling(v, side, k):
    """the operator of one side at the faces along the axis k"""
    n, d = grid(v), size(v)
    c, m = Net(v, "c", n, d), Net(v, "m", n, d)
    ascending(v, c)
    ascending(v, m)
    idx_vc, idx_vm = v.array("idx_vc", c.nv, "int"), v.array("idx_vm", m.nv, "int")
    tsr, mult = v.array("K_tsr", tuple(n) + (3,), "float"), v.str("mult_type")
    T = v.fun("T", 2, "real")
    op = {}

    def build(*args):
        o, i = args[0], args[1]
        op["axes"] = (o.axes[0], i.axes[0])
        v.prove("the coupling is built for the given tensor and mode", args[2] is tsr and args[3] is mult)

        def forward(ip, a, kw):
            v.prove("operand of the forward coupling", s_eq(A.ax_len(a[0].axes[0]), A.ax_len(i.axes[0])))
            cv = A.index_map(i.axes[0], a[0].axes[0])
            return Arr((o.axes[0],), lambda p: A.sum_over([i.axes[0]], lambda q: s_mul(T(o.fn(p), i.fn(q)), a[0].fn(q if cv is None else cv(q)))), "complex")

        def backward(ip, a, kw):
            v.prove("operand of the reversed coupling", s_eq(A.ax_len(a[0].axes[0]), A.ax_len(o.axes[0])))
            cv = A.index_map(o.axes[0], a[0].axes[0])
            return Arr((i.axes[0],), lambda q: A.sum_over([o.axes[0]], lambda p: s_mul(T(o.fn(p), i.fn(q)), a[0].fn(p if cv is None else cv(p)))), "complex")
        return (Builtin("forward", forward), Builtin("backward", backward))
    v.override(MM + ":get_operator_coupling", build)
    r = v.call(SM, "get_coupling_matrix", PList(n), idx_vc, idx_vm, c.idx_f, m.idx_f, c.A, m.A, tsr, mult)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    none = v.branch(b_or(s_eq(c.nf, 0), s_eq(m.nf, 0)), "faces of one kind missing")

    def number(net, idx, f, k, g):
        return s_add(s_mul(k, net.total), idx.fn(g(f)))

    def entry(f, k, g, l):
        """average over the voxels of the two faces"""
        return s_mul(Fraction(1, 4), sum((T(number(c, idx_vc, f, k, p), number(m, idx_vm, g, l, q)) for p in (c.low, c.high) for q in (m.low, m.high)), 0))
    out, inp = (c, m) if side == "electric" else (m, c)
    x = v.array("x_" + side, inp.nf, "complex")
    y = v.call(r[0 if side == "electric" else 1], x)
    v.prove(side + " side: no error", v.raised is None)
    if v.raised:
        return
    v.prove(side + " side: one value per face", b_and(y.ndim == 1, s_eq(A.ax_len(y.axes[0]), out.nf)))
    for f in v.each(Range(out.nf)):
        if none:
            v.prove(side + " side: zero without faces", s_eq(y.fn(A.pos_to_index(y.axes[0], f)), Cx(0, 0)))
            continue
        with scope():
            v.c.hyp(out.along(f, k))
            got = y.fn(A.pos_to_index(y.axes[0], f))
            want = 0
            for l in range(3):
                e = (lambda g: entry(f, k, g, l)) if side == "electric" else (lambda g: entry(g, l, f, k))
                want = s_add(want, A.sum_over([A.Sub(Range(inp.nf), lambda g: inp.along(g, l))], lambda g: s_mul(e(g), x.fn(g))))
            v.prove(side + " side: average of the interaction values of the voxels of the faces", s_eq(got, want))


for _s in ("electric", "magnetic"):
    for _k in range(3):
        spec("system_matrix.get_coupling_matrix: %s side, faces along %s" % (_s, "xyz"[_k]), [SM + ":get_coupling_matrix", SM + ":_get_face_voxel_matrix", SM + ":_get_face_voxel_indices", SM + ":_get_operator_zeros"])((lambda s, k: lambda v: coupling(v, s, k))(_s, _k))


from contracts.wiring import solver_spec  # noqa: E402


def _operators(s, w, r, d, t):
    for k in ("L_c", "L_op_c", "P_m", "P_op_m", "K_op_c", "K_op_m"):
        w.check("%s: of the faces, voxels and tensors of the problem" % k, r[1][k], t[k])


solver_spec("init", _operators)
