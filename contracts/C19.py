"""Cloud fields are the Biot-Savart and magnetic charge sums."""
from contracts.common import *  # noqa
from contracts.net import Net, half
from contracts.wiring import solver_spec

EX = "pypeec.lib_solver.extract_solution"
ASSUMED = ["the field points do not coincide with a source (the field has no value there)"]


def dist3(r):
    """third power of the length of a vector"""
    return s_pow(s_sqrt(s_add(s_add(s_mul(r[0], r[0]), s_mul(r[1], r[1])), s_mul(r[2], r[2]))), 3)


def cross(a, b, k):
    p, q = (k + 1) % 3, (k + 2) % 3
    return s_sub(s_mul(a[p], b[q]), s_mul(a[q], b[p]))


def biot_savart(p, src, mom, k):
    """I dl x r / (4 pi r^3), with r from the source to the point"""
    r = [s_sub(p[a], src[a]) for a in range(3)]
    return s_div(cross(mom, r, k), s_mul(s_mul(4, PI), dist3(r)))


def charge(p, src, q, k):
    """q r / (4 pi mu0 r^3), with r from the point to the source"""
    r = [s_sub(src[a], p[a]) for a in range(3)]
    return s_div(s_mul(q, r[k]), s_mul(s_mul(s_mul(4, PI), MU0), dist3(r)))


def points(v, name, n):
    """matrix of points: array, rows"""
    a = v.array(name, (n, 3), "float")
    return a, lambda i: [a.fn(i, k) for k in range(3)]


@spec("extract_solution._get_biot_savart", [EX + ":_get_biot_savart"])
def kernel(v):
    n = v.int("n_src", lo=0)
    p = v.array("pts", 3, "float")
    src, at = points(v, "pts_src", n)
    mom = v.array("I_src", (n, 3), "complex")
    r = v.call(EX, "_get_biot_savart", p, src, mom)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("three components", b_and(r.ndim == 1, s_eq(A.ax_len(r.axes[0]), 3)))
    for k in range(3):
        want = A.sum_over([Range(n)], lambda j: biot_savart([p.fn(a) for a in range(3)], at(j), [mom.fn(j, a) for a in range(3)], k))
        v.prove("sum of I dl x r over 4 pi r^3 for all of the sources, component %s" % "xyz"[k], s_eq(r.fn(k), want))


@spec("extract_solution._get_magnetic_charge", [EX + ":_get_magnetic_charge"])
def kernel_charge(v):
    n = v.int("n_src", lo=0)
    p = v.array("pts", 3, "float")
    src, at = points(v, "pts_src", n)
    q = v.array("I_src", n, "complex")
    r = v.call(EX, "_get_magnetic_charge", p, src, q)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("three components", b_and(r.ndim == 1, s_eq(A.ax_len(r.axes[0]), 3)))
    for k in range(3):
        want = A.sum_over([Range(n)], lambda j: charge([p.fn(a) for a in range(3)], at(j), q.fn(j), k))
        v.prove("sum of q r over 4 pi mu0 r^3 for all of the sources, component %s" % "xyz"[k], s_eq(r.fn(k), want))


class Kernel:
    """the contract of a kernel: the field of the given sources at the given point"""

    def __init__(self, v, name):
        self.F = [[z3.Function("field_%s_%d" % (x, k), z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort()) for x in ("re", "im")] for k in range(3)]
        self.v, self.seen = v, []
        v.override(EX + ":" + name, self.call)

    def at(self, p, k):
        x = [zreal(u) for u in p]
        return Cx(self.F[k][0](*x), self.F[k][1](*x))

    def call(self, p, src, mom):
        self.seen.append((src, mom))
        x = [p.fn(a) for a in range(3)]
        r = [self.at(x, k) for k in range(3)]
        return Arr((Range(3),), lambda k: r[k] if isinstance(k, int) else s_ite(s_eq(k, 0), r[0], s_ite(s_eq(k, 1), r[1], r[2])), "complex")

    def check(self, r, cloud, m):
        v = self.v
        v.prove("one row with three components per point", b_and(r.ndim == 2, s_eq(A.ax_len(r.axes[0]), m), s_eq(A.ax_len(r.axes[1]), 3)))
        for i in v.each(Range(m)):
            for k in range(3):
                v.prove("the row of a point is the field at the point, in the order of the points", s_eq(r.fn(A.pos_to_index(r.axes[0], i), k), self.at(cloud(i), k)))
        v.prove("the field is evaluated", len(self.seen) > 0)


def electric(mode):
    def run(v):
        net = Net(v)
        m = v.int("n_cloud", lo=0)
        cur = v.array("I_fc", net.nf, "complex")
        pos, at = points(v, "pts_net_c", net.nv)
        cl, cloud = points(v, "pts_cloud", m)
        ker = Kernel(v, "_get_biot_savart")
        r = v.call(EX, "get_magnetic_field_electric", PList(net.n), PList(net.d), net.idx_f, net.A, cur, pos, cl, mode)
        v.prove("no error", v.raised is None)
        if v.raised:
            return
        ker.check(r, cloud, m)
        n = net.nf if mode == "face" else net.nv
        for src, mom in ker.seen:
            v.prove("one source per %s" % mode, b_and(*[b_and(u.ndim == 2, s_eq(A.ax_len(u.axes[0]), n), s_eq(A.ax_len(u.axes[1]), 3)) for u in (src, mom)]))
            for j in v.each(Range(n)):
                for k in range(3):
                    p, q = [u.fn(A.pos_to_index(u.axes[0], j), k) for u in (src, mom)]
                    if mode == "face":
                        v.prove("the source of a face is at the middle of its two voxels", s_eq(p, s_div(s_add(pos.fn(net.low(j), k), pos.fn(net.high(j), k)), 2)))
                        v.prove("the moment of a face is its current times the voxel size", s_eq(q, s_ite(net.along(j, k), s_mul(net.d[k], cur.fn(j)), 0)))
                    else:
                        want = A.sum_over([Range(net.nf)], lambda f: s_ite(net.along(f, k), s_mul(s_mul(s_mul(net.d[k], half), net.touch(j, f)), cur.fn(f)), 0))
                        v.prove("the source of a voxel is at its center", s_eq(p, pos.fn(j, k)))
                        v.prove("the moment of a voxel is half of the currents of its faces times the voxel size", s_eq(q, want))
    spec("extract_solution.get_magnetic_field_electric: " + mode, [EX + ":get_magnetic_field_electric"])(run)


electric("voxel")
electric("face")


@spec("extract_solution.get_magnetic_field_electric: unknown method", [EX + ":get_magnetic_field_electric"])
def unknown(v):
    net = Net(v)
    cur = v.array("I_fc", net.nf, "complex")
    v.call(EX, "get_magnetic_field_electric", PList(net.n), PList(net.d), net.idx_f, net.A, cur, points(v, "pts_net_c", net.nv)[0], points(v, "pts_cloud", v.int("n_cloud", lo=0))[0], "other")
    v.prove("another source placement is rejected", v.raised is not None)


@spec("extract_solution.get_magnetic_field_magnetic", [EX + ":get_magnetic_field_magnetic"])
def magnetic(v):
    net = Net(v)
    m = v.int("n_cloud", lo=0)
    flux = v.array("I_fm", net.nf, "complex")
    pos, at = points(v, "pts_net_m", net.nv)
    cl, cloud = points(v, "pts_cloud", m)
    ker = Kernel(v, "_get_magnetic_charge")
    r = v.call(EX, "get_magnetic_field_magnetic", net.A, flux, pos, cl)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    ker.check(r, cloud, m)
    for src, q in ker.seen:
        v.prove("one charge per voxel", b_and(src.ndim == 2, q.ndim == 1, *[s_eq(A.ax_len(u.axes[0]), net.nv) for u in (src, q)]))
        for j in v.each(Range(net.nv)):
            for k in range(3):
                v.prove("the charge of a voxel is at its center", s_eq(src.fn(A.pos_to_index(src.axes[0], j), k), pos.fn(j, k)))
            want = A.sum_over([Range(net.nf)], lambda f: s_mul(net.entry(j, f), flux.fn(f)))
            v.prove("the charge of a voxel is its net outflow", s_eq(q.fn(A.pos_to_index(q.axes[0], j)), want))


def _composition(s, w, r, d, i, p, t):
    w.check("the field of the cloud is the sum of the electric and of the magnetic field", r[0]["var"]["H_p"]["var"], t["H"])
    s.v.prove("kind of the field", r[0]["var"]["H_p"]["cat"] == "cloud")


solver_spec("sweep", _composition)
