"""Interaction coefficients are the Green function integrals of the voxels."""
from fractions import Fraction
from contracts.common import *  # noqa

ASSUMED = ["repeated fundamental theorem of calculus: the second differences of the antiderivatives along the axes are the integrals of the mixed derivative over both voxels (the derivatives which are integrated are continuous up to the planes where a formula has special values; see the bounded part)",
           "the integral of a positive function is positive, and the integral of 1/distance does not depend on the order of the axes: positivity and invariance of the coefficients follow from the integral form",
           "numpy.sqrt, log and arctan are the real functions"]
BOUNDED = ["continuity of the antiderivatives at the special points (coordinates equal to zero, where terms which are not finite are dropped): compared with nearby generic points in 60 digits, 81 points, 4 directions each"]

GF = "pypeec.lib_matrix.green_function"
ST = "pypeec.lib_solver.system_tensor"


def vectors(v):
    d = size(v)
    return d


def corner_sum(f, offs):
    """sum over the corner patterns: products of weights"""
    r = 0
    for ox, wx in offs[0]:
        for oy, wy in offs[1]:
            for oz, wz in offs[2]:
                r = s_add(r, s_mul(wx * wy * wz, f(ox, oy, oz)))
    return r


SECOND = [(-1, 1), (0, -2), (1, 1)]
FIRST = [(Fraction(1, 2), 1), (Fraction(-1, 2), -1)]


def pointwise(v, name):
    f0 = z3.Function(name, *([z3.RealSort()] * 4))
    F = lambda *p: f0(*[zreal(u) for u in p])  # noqa

    def f(x, y, z):
        return A.elementwise(F, x, y, z, kind="float")
    return F, f


@spec("get_green_ana", [GF + ":get_green_ana", GF + ":_get_green_preproc"])
def ana(v):
    d = vectors(v)
    n = v.int("n", lo=0)
    for kind in ("6D", "5D"):
        idx = v.array("idx", (n, 3), "float")
        f = idx.fn
        F, g = pointwise(v, "antiderivative_" + kind)
        v.override(GF + ":_get_green_%s_fct" % kind, g)
        r = v.call(GF, "get_green_ana", d, idx, kind)
        v.prove("no error", v.raised is None)
        if v.raised:
            continue
        v.prove("one value per row", b_and(r.ndim == 1, s_eq(A.ax_len(r.axes[0]), n)))
        if v.c.valid(s_eq(n, 0)):
            continue
        for i in v.each(Range(n)):
            at = lambda *o: F(*[s_mul(u, s_add(f(i, k), w)) for k, (u, w) in enumerate(zip(d, o))])  # noqa
            exp = corner_sum(at, (SECOND, SECOND, SECOND if kind == "6D" else FIRST))
            v.prove("second difference of the antiderivative along each integrated axis", s_eq(r.fn(i), s_div(exp, s_mul(4, PI))))


def row_function(v, name):
    """coefficient of a row of coordinate differences"""
    f0 = z3.Function(name, *([z3.RealSort()] * 7))

    def f(d, p):
        return f0(*[zreal(u) for u in d], *[zreal(u) for u in p])
    return f


class Coefficients:
    """the functions of the Green module, row by row"""

    def __init__(self, v):
        self.v = v
        self.f = {(m, k): row_function(v, "%s_%s" % (m, k)) for m in ("ana", "num") for k in ("6D", "5D")}
        for m in ("ana", "num"):
            v.override(GF + ":get_green_" + m, self.handler(m))

    def handler(self, m):
        def g(d, idx, int_type):
            if (m, int_type) not in self.f or idx.ndim != 2 or not self.v.c.valid(s_eq(A.ax_len(idx.axes[1]), 3)):
                raise Unsupported("arguments of a coefficient")
            u = [d.fn(k) for k in range(3)] if isinstance(d, Arr) else list(d)
            h = idx.fn
            f = self.f[m, int_type]
            return Arr([idx.axes[0]], lambda i: f(u, [h(i, k) for k in range(3)]), "float")
        return g

    def __call__(self, m, k, d, p):
        return self.f[m, k](d, p)


@spec("get_green_num", [GF + ":get_green_num"])
def num(v):
    d = size(v)
    n = v.int("n", lo=0)
    for kind in ("6D", "5D"):
        idx = v.array("idx", (n, 3), "float")
        f = idx.fn
        r = v.call(GF, "get_green_num", d, idx, kind)
        v.prove("no error", v.raised is None)
        if v.raised:
            continue
        v.prove("one value per row", b_and(r.ndim == 1, s_eq(A.ax_len(r.axes[0]), n)))
        if v.c.valid(s_eq(n, 0)):
            continue
        for i in v.each(Range(n)):
            q = [s_mul(u, f(i, k)) for k, u in enumerate(d)]
            dis2 = s_add(s_add(s_mul(q[0], q[0]), s_mul(q[1], q[1])), s_mul(q[2], q[2]))
            with scope():
                v.c.hyp(s_cmp(">", dis2, 0))
                vol = s_mul(s_mul(d[0], d[1]), d[2])
                w = s_mul(vol, vol) if kind == "6D" else s_mul(s_mul(d[0], d[1]), vol)
                v.prove("product of the volumes over the distance", s_eq(r.fn(i), s_div(w, s_mul(s_mul(4, PI), s_sqrt(dis2)))))


def coupling_value(c, m, d, p, k):
    """normalized difference of the face integrals at both ends along the axis k"""
    a, b = [u for u in range(3) if u != k]
    q = [d[a], d[b], d[k]]
    at = [p[a], p[b]]
    half = Fraction(1, 2)
    g1, g2 = (c(m, "5D", q, at + [s_add(p[k], w)]) for w in (half, -half))
    area = lambda u: s_mul(*[d[t] for t in range(3) if t != u])  # noqa
    r = s_div(s_sub(g2, g1), s_mul(area(a), area(b)))
    return s_neg(r) if k == 1 else r


def near(d, p, lim):
    q = [s_mul(u, w) for u, w in zip(d, p)]
    n2 = s_add(s_add(s_mul(q[0], q[0]), s_mul(q[1], q[1])), s_mul(q[2], q[2]))
    m = s_max(s_max(d[0], d[1]), d[2])
    return s_cmp("<=", s_div(s_sqrt(n2), m), lim)


@spec("get_green_tensor", [ST + ":get_green_tensor", ST + ":_get_voxel_indices", ST + ":_get_voxel_distances"])
def green(v):
    n, d = grid(v), size(v)
    c = Coefficients(v)
    lim = v.real("integral_simplify")
    r = v.call(ST, "get_green_tensor", n, d, lim)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("one value per voxel", b_and(r.ndim == 4, *[s_eq(A.ax_len(a), b) for a, b in zip(r.axes, n + (1,))]))
    for p in A.each([Range(u) for u in n], "p"):
        v.prove("coefficient of the coordinate difference", s_eq(r.fn(*p, 0), s_ite(near(d, p, lim), c("ana", "6D", d, p), c("num", "6D", d, p))))


@spec("get_green_self", [ST + ":get_green_self"])
def self_coefficient(v):
    d = size(v)
    c = Coefficients(v)
    r = v.call(ST, "get_green_self", d)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("coefficient of a voxel with itself", s_eq(r, c("ana", "6D", d, (0, 0, 0))))


@spec("get_coupling_tensor", [ST + ":get_coupling_tensor", ST + ":_get_coupling", ST + ":_get_voxel_indices", ST + ":_get_voxel_distances"])
def coupling(v):
    n, d = grid(v), size(v)
    c = Coefficients(v)
    lim = v.real("integral_simplify")
    r = v.call(ST, "get_coupling_tensor", n, d, lim, False)
    v.prove("no tensor without magnetic voxels", v.raised is None and r is None)
    r = v.call(ST, "get_coupling_tensor", n, d, lim, True)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("three values per voxel", b_and(r.ndim == 4, *[s_eq(A.ax_len(a), b) for a, b in zip(r.axes, n + (3,))]))
    for p in A.each([Range(u) for u in n], "p"):
        for k in range(3):
            v.prove("normalized difference along the axis", s_eq(r.fn(*p, k), s_ite(near(d, p, lim), coupling_value(c, "ana", d, p, k), coupling_value(c, "num", d, p, k))))


def algebra(tier):
    """the closed forms are antiderivatives of the inverse distance (exact differentiation of the formulas of the code)"""
    import time
    from vc import algebra as G
    obs = []

    def add(fn, clause, f):
        t = time.time()
        try:
            st, det = f()
        except Exception as e:  # noqa
            st, det = "undecided", "algebra: %r" % (e,)
        if st is not None:
            obs.append(dict(function=fn, clause=clause, status=st, backend="computer algebra", seconds=round(time.time() - t, 3), detail=det, paths=1, instances=1))

    def derivative(fn, axes):
        def f():
            ns = G.load("pypeec/lib_matrix/green_function.py", G.Lib())
            g = ns[fn](*G.generic())
            for k in axes:
                g = g.d(k)
            return G.decide_zero(g - 1 / G.lib_sqrt(G.Gen({(): G.K(G.S2)})))
        return f

    def special(fn):
        def f():
            import itertools
            ns = G.load("pypeec/lib_matrix/green_function.py", G.NumLib())
            mp = G.mpmath
            with mp.workdps(60):
                eps = mp.mpf(10)**-26
                for mag in ((1.0, 1.5, 0.75), (0.25, 3.0, 2.0), (2.5, 0.5, 1.25)):
                    for sg in itertools.product((-1, 0, 1), repeat=3):
                        at = [mp.mpf(s) * m for s, m in zip(sg, mag)]
                        e = ns[fn](*[G.Num(u) for u in at]).v
                        for dr in ((3, 5, 7), (-5, 3, 11), (7, -3, -5), (-3, -7, 2)):
                            w = ns[fn](*[G.Num(u + eps * k) for u, k in zip(at, dr)]).v
                            if not mp.isfinite(e) or not mp.isfinite(w) or abs(e - w) > mp.mpf(10)**-20:
                                return "refuted", "the value at (%s) is %s, its neighbourhood has %s" % (", ".join(mp.nstr(u, 6) for u in at), mp.nstr(e, 12), mp.nstr(w, 12))
            return None, ""
        return f
    for fn, axes in (("_get_green_6D_fct", (0, 0, 1, 1, 2, 2)), ("_get_green_5D_fct", (0, 0, 1, 1, 2))):
        add(GF + ":" + fn, "mixed derivative along every integrated axis is the inverse distance", derivative(fn, axes))
        add(GF + ":" + fn, "bounded: continuous at the special points", special(fn))
    return obs, [GF + ":_get_green_6D_fct", GF + ":_get_green_5D_fct", GF + ":_get_safe_inv", GF + ":_get_safe_log", GF + ":_get_safe_arctan"]
