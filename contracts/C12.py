"""Every multiplication mode applies the same block-Toeplitz interaction."""
from contracts.common import *  # noqa
from contracts.wiring import Tok
from vc import sums
from vc.npmodel import MODELS

FT = "pypeec.lib_matrix.fourier_transform"
MF = "pypeec.lib_matrix.multiply_fft"
MD = "pypeec.lib_matrix.multiply_direct"
MM = "pypeec.lib_matrix.matrix_multiply"
ASSUMED = ["fftn of a library (NumPy, SciPy, MKL, FFTW, CuPy): the discrete Fourier transform along the given axes, the input is padded with zeros to the given shape",
           "ifftn of a library: the inverse transform; the inverse transform of a product of two transforms of the same size is their cyclic convolution (convolution theorem)",
           "an array which a transform may overwrite has unknown values afterwards",
           "the functions of cupy are those of numpy",
           "two ascending lists of distinct values with the same members are equal (used for the sorted indices and the blocks of the dense matrix; the lemma itself is proved in C09)"]

KIND = {"potential": (1, 1), "inductance": (1, 3), "coupling": (3, 3)}


class Grid3:
    def __init__(self, v):
        self.v = v
        self.n = tuple(v.int("n" + x, lo=1) for x in "xyz")
        self.axes = [Range(u) for u in self.n]
        self.nv = s_mul(s_mul(self.n[0], self.n[1]), self.n[2])


class Picked:
    """distinct face (or voxel) indices in any order: index i is the voxel of coordinate xyz(i) in the direction dim(i)"""

    def __init__(self, v, g, name, nd):
        self.v, self.g, self.nd = v, g, nd
        self.n = v.int("n_" + name, lo=0)
        dims = g.n + ((nd,) if nd > 1 else ())
        fs = [v.fun(name + "_" + x, 1) for x in "xyzd"[:len(dims)]]
        P = v.fun("where_" + name, len(dims))
        i = v.c.ivar("i")
        at = [f(i) for f in fs]
        ok = b_and(*[b_and(s_cmp("<=", 0, u), s_cmp("<", u, d)) for u, d in zip(at, dims)], s_eq(P(*at), i))
        for p in at:
            v.assume(z3.ForAll([i], z3.Implies(zbool(A.in_axis(Range(self.n), i)), zbool(ok)), patterns=[p]))
        self.fs, self.P, self.dims = fs, P, dims
        self.arr = v.array("idx_" + name, self.n, "int", lambda i: A.lin(self.digit(i), dims))
        self.arr.meta["inv"] = self.inv
        self.arr.meta["distinct"] = True
        self.arr.mem_ = lambda x: self.inv(x)[0]

    def digit(self, i):
        return tuple(f(i) for f in self.fs)

    def xyz(self, i):
        return self.digit(i)[:3]

    def dim(self, i):
        return self.digit(i)[3] if self.nd > 1 else 0

    def find(self, d):
        """present, position of the digits"""
        i = self.P(*d)
        return b_and(A.in_axis(Range(self.n), i), *[s_eq(a, b) for a, b in zip(self.digit(i), d)]), i

    def inv(self, x):
        x = zint(x)
        nv = p_dims(self.dims)
        ds = A.digits(x, list(self.dims))
        ok, i = self.find(ds)
        if self.v.c.valid(s_eq(A.lin(ds, self.dims), x), timeout=500):
            # the digits of an index of the list are inside of the grid
            return ok, i
        return b_and(s_cmp("<=", 0, x), s_cmp("<", x, nv), ok), i


def p_dims(dims):
    r = 1
    for d in dims:
        r = s_mul(r, d)
    return r


def interaction(name, m, x, u, k):
    """interaction value of component k at the difference of two coordinates; the sign of the coupling follows the axis k"""
    d = [s_sub(a, b) for a, b in zip(x, u)]
    t = m(*[s_abs(w) for w in d], k)
    return s_mul(s_ite(s_cmp("<", d[k], 0), -1, 1), t) if name == "coupling" else t


def block(name, do, di):
    """component of the tensor and sign for an output and an input direction, None: no interaction"""
    if name == "potential":
        return 0, 1
    if name == "inductance":
        return (0, 1) if do == di else None
    if do == di:
        return None
    k = 3 - do - di
    return (k, 1) if do < di else (k, -1)


class Transforms:
    """contract of the transforms of a library"""

    def __init__(self, v, g, name, mat):
        self.v, self.g, self.name, self.mat = v, g, name, mat
        self.known, self.spectra = {}, {}

    def size(self, a):
        return [A.ax_len(u) for u in a.axes[:3]]

    def check(self, a, axes):
        if not isinstance(a, Arr) or a.ndim not in (3, 4) or tuple(axes) != (0, 1, 2):
            raise Unsupported("arguments of a transform")
        if not all(isinstance(u, Range) for u in a.axes):
            raise Unsupported("axes of a transform")

    def overwrite(self, a, flag):
        if flag is False or (isinstance(flag, bool) and not flag):
            return
        f = self.v.fun(self.v.c.fresh_name("overwritten"), a.ndim, "complex" if a.kind == "complex" else "real")
        a.assign(lambda *i: f(*i))

    def fftn(self, a, s=None, axes=None, replace=False):
        v = self.v
        self.check(a, axes)
        n = self.size(a)
        size = n if s is None else list(ip_tuple(s))
        if not all(v.c.valid(s_cmp(">=", p, q)) for p, q in zip(size, n)):
            raise Unsupported("cropped transform")
        f = a.fn
        nm = v.c.fresh_name("fft")
        fr, fi = (z3.Function(nm + x, *([z3.IntSort()] * a.ndim + [z3.RealSort()])) for x in (".re", ".im"))
        F = lambda *i: Cx(fr(*[zint(u) for u in i]), fi(*[zint(u) for u in i]))  # noqa
        for part in ("re", "im"):
            self.known[nm + "." + part] = (nm, part)
        self.spectra[nm] = F
        self.known[nm] = (f, n, size, a.ndim)
        self.overwrite(a, replace)
        return Arr([Range(u) for u in size] + list(a.axes[3:]), lambda *i: F(*i), "complex")

    def ifftn(self, a, s=None, axes=None, replace=False):
        v = self.v
        self.check(a, axes)
        size = self.size(a)
        if s is not None:
            raise Unsupported("size of the inverse transform")
        f, nd = a.fn, a.ndim
        comps = {}

        def component(c):
            if c not in comps:
                comps[c] = self.decompose(f, size, c)
            return comps[c]

        def value(x, c):
            r = 0
            for w, t1, t2 in component(c):
                r = s_add(r, s_mul(w, self.convolve(t1, t2, x)))
            return r

        def fn(*i):
            x, c = i[:3], i[3:]
            if not c or isinstance(c[0], int):
                return value(x, c)
            for k in range(nc):
                if v.c.equal_int(c[0], k):
                    return value(x, (k,))
            r = value(x, (nc - 1,))
            for k in range(nc - 2, -1, -1):
                r = s_ite(s_eq(c[0], k), value(x, (k,)), r)
            return r
        nc = A.ax_len(a.axes[3]) if nd == 4 else 1
        if not isinstance(nc, int):
            raise Unsupported("components of a transform")
        for k in range(nc):
            component((k,) if nd == 4 else ())
        self.overwrite(a, replace)
        return Arr([Range(u) for u in size] + list(a.axes[3:]), fn, "complex")

    def decompose(self, f, size, c):
        """linear combination of products of two transforms"""
        v = self.v
        if not all(isinstance(u, int) for u in c):
            raise Unsupported("component of a transform")
        for k in A.each([Range(u) for u in size], "k"):
            x = to_cx(f(*k, *c))
            out, rest = {}, []
            for coef, gs, fs in sums.expand(zreal(x.re)):
                if gs or len(fs) != 2 or not all(t.decl().name() in self.known for t in fs):
                    raise Unsupported("combination of transforms")
                pair = [(self.known[t.decl().name()], t) for t in fs]
                if {p[0][1] for p in pair} == {"im"}:
                    continue
                if {p[0][1] for p in pair} != {"re"}:
                    raise Unsupported("combination of transforms")
                key = tuple(sorted([(p[0][0], tuple(str(u) for u in p[1].children()[3:])) for p in pair]))
                args = [p[1].children() for p in pair]
                if not all(a.eq(b) for u in args for a, b in zip(u[:3], [zint(w) for w in k])):
                    raise Unsupported("transforms at other frequencies")
                out.setdefault(key, [0, sorted([(p[0][0], tuple(pyval(u) for u in p[1].children()[3:])) for p in pair])])
                out[key][0] += coef
            y = 0
            for w, ts in out.values():
                y = s_add(y, s_mul(w, s_mul(*[self.spectrum(t, k) for t in ts])))
            v.prove("the spectrum is a combination of products of transforms", s_eq(x, y))
            for _, ts in out.values():
                for t in ts:
                    v.prove("transforms of the same size", b_and(*[s_eq(p, q) for p, q in zip(self.known[t[0]][2], size)]))
            return [(w, ts[0], ts[1]) for w, ts in out.values()]

    def spectrum(self, t, k):
        nm, c = t
        return self.spectra[nm](*k, *c)

    def convolve(self, t1, t2, x):
        """cyclic convolution of a tensor with a padded one; the first one is the embedding of the interaction values"""
        v = self.v
        (f1, n1, s1, _), (f2, n2, s2, _) = self.known[t1[0]], self.known[t2[0]]
        if all(v.c.equal_int(p, q) for p, q in zip(n1, self.g.n)):
            (f1, n1, s1), (f2, n2, s2), t1, t2 = (f2, n2, s2), (f1, n1, s1), t2, t1
        if not all(v.c.equal_int(p, q) for p, q in zip(n2, self.g.n)) or not all(v.c.equal_int(p, s_mul(2, q)) for p, q in zip(n1, self.g.n)):
            raise Unsupported("sizes of a convolution")
        k = self.embedded(t1, f1)
        r = A.sum_over(self.g.axes, lambda *u: s_mul(interaction(self.name, self.mat, x, u, k), f2(*u, *t2[1])))
        inside = b_and(*[b_and(s_cmp("<=", 0, p), s_cmp("<", p, q)) for p, q in zip(x, self.g.n)])
        return r if v.c.valid(inside) else s_ite(inside, r, self.outside(t1, t2)(*x))

    def outside(self, t1, t2):
        """values of a convolution outside of the grid"""
        if ("outside", t1, t2) not in self.known:
            self.known["outside", t1, t2] = self.v.fun("outside", 3, "complex")
        return self.known["outside", t1, t2]

    def embedded(self, t, f):
        """component of the interaction values which the tensor embeds"""
        key = ("embedded",) + t
        if key not in self.known:
            v, g = self.v, self.g
            if not t[1]:
                raise Unsupported("embedding without components")
            k = t[1][0]
            # (proved outside of the case at hand, since it is used in all of them)
            with outermost():
                for x in A.each(g.axes, "x"):
                    for u in A.each(g.axes, "u"):
                        at = [s_ite(s_cmp(">=", a, b), s_sub(a, b), s_add(s_sub(a, b), s_mul(2, n))) for a, b, n in zip(x, u, g.n)]
                        v.prove("the embedding has the interaction values at every difference", s_eq(f(*at, k), interaction(self.name, self.mat, x, u, k)))
            self.known[key] = k
        return self.known[key]


def unchanged(v, a, f):
    return A.forall(list(a.axes), lambda *i: s_eq(a.fn(*i), f(*i)))


def ip_tuple(s):
    return s if isinstance(s, (list, tuple)) else [s]


def library(v, t, name):
    """the transforms of the libraries"""
    a = lambda f: (lambda mat, s=None, axes=None, **k: f(mat, s, axes, False))  # noqa
    b = lambda f, key: (lambda mat, s=None, axes=None, **k: f(mat, s, axes, k.get(key, False)))  # noqa
    key = {"SciPy": "overwrite_x", "MKL": "overwrite_x", "FFTW": "overwrite_input"}.get(name)
    path = {"SciPy": "scipy.fft", "MKL": "mkl_fft", "FFTW": "pyfftw.interfaces.numpy_fft"}.get(name, "numpy.fft")
    for fn in ("fftn", "ifftn"):
        f = getattr(t, fn)
        v.override(path + "." + fn, b(f, key) if key else a(f))
    v.override("os.cpu_count", lambda: v.int("cpus", lo=1))
    v.override("pyfftw.byte_align", lambda a, n=None: a)
    v.override("pyfftw.interfaces.cache.disable", lambda: None)
    v.override("pyfftw.interfaces.cache.enable", lambda: None)
    v.override("pyfftw.interfaces.cache.set_keepalive_time", lambda t: None)
    v.override("numpy.asnumpy", lambda a: a)
    v.ip.aliases["cupy"] = "numpy"


def transposed(v, name, mat, po, pi):
    """entries with both roles swapped: those of the transposed matrix"""
    nd = KIND[name][1]
    for o in v.each(Range(po.n)):
        for i in v.each(Range(pi.n)):
            for d in range(nd):
                for e in range(nd):
                    b, r = block(name, d, e), block(name, e, d)
                    if b is None or r is None:
                        v.prove("same zero blocks", b is None and r is None)
                        continue
                    v.prove("entries of the transposed matrix", s_eq(s_mul(b[1], interaction(name, mat, po.xyz(o), pi.xyz(i), b[0])),
                                                                     s_mul(r[1], interaction(name, mat, pi.xyz(i), po.xyz(o), r[0]))))


def result(v, name, g, mat, po, pi, vec, out):
    """the product is the sum over the input indices; reversed: transposed matrix"""
    nd_in, nd = KIND[name]
    for d in range(nd):
        for o in v.each(Range(po.n)):
            with scope():
                v.c.hyp(s_eq(po.dim(o), d))
                x = po.xyz(o)
                exp = 0
                for e in range(nd):
                    b = block(name, d, e)
                    if b is None:
                        continue
                    k, sg = b
                    here = A.sub_axis(Range(pi.n), lambda i: s_eq(pi.dim(i), e)) if nd > 1 else Range(pi.n)
                    f = lambda u, i: s_mul(s_mul(sg, interaction(name, mat, x, u, k)), vec(i))  # noqa
                    dig = lambda u: tuple(u) + ((e,) if nd > 1 else ())  # noqa
                    v.reindex("sum over the grid", here, lambda i: f(pi.xyz(i), i), g.axes, lambda *u: pi.find(dig(u))[0],
                              lambda *u: f(u, pi.find(dig(u))[1]), lambda *u: pi.find(dig(u))[1], lambda i: pi.xyz(i))
                    exp = s_add(exp, A.sum_over([here], lambda i: f(pi.xyz(i), i)))
                v.prove("sum of the interactions with the inputs", s_eq(out.fn(o), exp))


def fft(name, split, lib, flip=False):
    def run(v):
        g = Grid3(v)
        nd_in, nd = KIND[name]
        mat = v.array("mat", g.n + (nd_in,), "float")
        fm = mat.fn
        po = Picked(v, g, "out", nd)
        pi = Picked(v, g, "in", nd) if name == "coupling" else po
        if flip and name == "coupling":
            # the coupling of two faces at the same coordinate of the axis is zero (C13)
            for k in range(3):
                i, j = v.c.ivar("i"), v.c.ivar("j")
                at = [0 if q == k else (i, j)[q - (q > k)] for q in range(3)]
                v.assume(z3.ForAll([i, j], zreal(fm(*at, k)) == 0, patterns=[zreal(fm(*at, k))]))
        t = Transforms(v, g, name, fm)
        library(v, t, lib)
        opt = PDict({"library": lib, "matrix_split": split, "scipy_worker": v.int("scipy_worker"), "fftw_thread": v.int("fftw_thread"), "fftw_timeout": v.real("fftw_timeout"), "fftw_byte_align": 16})
        v.call(FT, "set_options", opt)
        v.call(MF, "set_options", opt)
        data = v.call(MF, "get_prepare", name, po.arr, pi.arr, mat)
        v.prove("no error", v.raised is None)
        if v.raised:
            return
        if flip:
            transposed(v, name, fm, pi, po)
            po, pi = pi, po
        vec = v.array("vec", pi.n, "complex")
        fv = vec.fn
        r = v.call(MF, "get_multiply", data, vec, flip)
        v.prove("no error", v.raised is None)
        if v.raised:
            return
        v.prove("the inputs are not changed", b_and(unchanged(v, mat, fm), unchanged(v, vec, fv)))
        v.prove("one value per output index", b_and(r.ndim == 1, s_eq(A.ax_len(r.axes[0]), po.n)))
        result(v, name, g, fm, po, pi, fv, r)
    spec("multiply_fft: %s, %s, %s%s" % (name, "split" if split else "combined", lib, ", reversed" if flip else ""), [MF + ":" + x for x in ("get_prepare", "get_multiply", "_get_tensor_sign", "_get_tensor_circulant", "_get_indices", "_get_tensor", "_get_vector", "_get_compute_" + ("split" if split else "combined"))] + [FT + ":set_options"])(run)


for _name in KIND:
    _lib = "NumPy" if _name == "coupling" else "SciPy"
    for _split in (True, False):
        fft(_name, _split, _lib)
for _split in (True, False):
    fft("coupling", _split, "NumPy", True)
for _lib in ("NumPy", "MKL", "FFTW", "CuPy"):
    fft("inductance", False, _lib)



class Sorted:
    """the blocks of the dense matrix enumerate the sorted indices"""

    def __init__(self, v, g, p, nd):
        self.v, self.g, self.p, self.nd = v, g, p, nd
        perm = MODELS["numpy.argsort"](v.ip, [p.arr], {})
        self.rank = perm.meta["perm"][2]
        self.name = zint(self.rank(0)).decl().name()
        self.mask = lambda d: lambda u: p.find(self.split(u) + ((d,) if nd > 1 else ()))[0]
        self.axes = {}
        self.at = {}                    # directions of the indices which are looked up
        self.lengths()
        v.c.enumerations.append(self.place)

    def split(self, u):
        return tuple(u) if isinstance(u, tuple) else tuple(A.digits(u, list(self.g.n)))

    def value(self, d, u):
        return s_add(A.lin(self.split(u), self.g.n), s_mul(d, self.g.nv))

    def blocks(self, base):
        return [A.Sub(base, self.mask(d)) for d in range(self.nd)]

    def lengths(self):
        """the blocks list all the indices in ascending order: they are the sorted indices (lemma)"""
        v, g, p, nd = self.v, self.g, self.p, self.nd
        base = Range(g.nv)
        total = 0
        for d in range(nd):
            for m in v.each(base):
                with scope():
                    v.c.hyp(zbool(self.mask(d)(m)))
                    i = p.find(self.split(m) + ((d,) if nd > 1 else ()))[1]
                    v.prove("sorted blocks: only indices of the list", b_and(A.in_axis(Range(p.n), i), s_eq(p.arr.fn(i), s_add(m, s_mul(d, g.nv)))))
                for e in range(d):
                    for m2 in v.each(base):
                        v.prove("sorted blocks: the values of a block come before those of the next one", s_cmp("<", s_add(m2, s_mul(e, g.nv)), s_add(m, s_mul(d, g.nv))))
            for i in v.each(Range(p.n)):
                with scope():
                    v.c.hyp(s_eq(p.dim(i), d))
                    u = p.xyz(i)
                    v.prove("sorted blocks: every index of the list", b_and(A.in_axis(base, A.lin(u, g.n)), self.mask(d)(u), s_eq(p.arr.fn(i), self.value(d, u))))
            here = A.sub_axis(Range(p.n), lambda i: s_eq(p.dim(i), d)) if nd > 1 else Range(p.n)
            for ax, f, b in (([base], lambda m: self.mask(d)(m), lambda i: (A.lin(p.xyz(i), g.n),)), (g.axes, lambda *u: self.mask(d)(u), lambda i: p.xyz(i))):
                v.reindex("length of a block", here, lambda i: 1, ax, f, lambda *u: 1,
                          lambda *u: p.find(self.split(u if len(u) > 1 else u[0]) + ((d,) if nd > 1 else ()))[1], b)
            total = s_add(total, A.ax_len(self.blocks(base)[d]))
        # two ascending lists of the same values are equal (lemma, proved in C09)
        v.assume(s_eq(total, p.n))

    def matches(self, ax):
        """the axis is made of the blocks, in ascending order"""
        parts = ax.parts if isinstance(ax, A.Cat) else [ax]
        if len(parts) != self.nd or not all(isinstance(q, A.Sub) for q in parts):
            return False
        if id(ax) not in self.axes:
            ok = True
            for d, q in enumerate(parts):
                if not (isinstance(q.base, A.Prod) and q.base.order == "F" and len(q.base.axs) == 3) and not isinstance(q.base, A.Range):
                    ok = False
                ok = ok and A.ax_same(q.base, Range(self.g.nv) if isinstance(q.base, A.Range) else A.Prod(self.g.axes, "F"))
                ok = ok and A.ax_same(q, A.Sub(q.base, self.mask(d)))
                if not ok:
                    break
            self.axes[id(ax)] = (ok, ax)
        return self.axes[id(ax)][0]

    def place(self, ax, k):
        """entry of the sorted list at the rank of an index: the index itself"""
        if not (is_z3(k) and z3.is_app(k) and k.decl().name() == self.name and k.num_args() == 1):
            return None
        if not self.matches(ax):
            return None
        i = k.arg(0)
        if not self.v.c.valid(A.in_axis(Range(self.p.n), i)):
            return None
        d = self.at.get(i.get_id())
        if d is None or not self.v.c.valid(s_eq(self.p.dim(i), d)):
            return None
        x = self.p.xyz(i)
        part = ax.parts[d] if isinstance(ax, A.Cat) else ax
        u = x if isinstance(part.base, A.Prod) else A.lin(x, self.g.n)
        return (d, u) if isinstance(ax, A.Cat) else u


def direct(name):
    def run(v):
        g = Grid3(v)
        nd_in, nd = KIND[name]
        mat = v.array("mat", g.n + (nd_in,), "float")
        fm = mat.fn
        po = Picked(v, g, "out", nd)
        pi = Picked(v, g, "in", nd) if name == "coupling" else po
        so = si = Sorted(v, g, po, nd)
        if pi is not po:
            si = Sorted(v, g, pi, nd)
        m = v.call(MD, "get_prepare", name, po.arr, pi.arr, mat)
        v.prove("no error", v.raised is None)
        if v.raised:
            return
        v.prove("a row per output index, a column per input index", b_and(m.ndim == 2, s_eq(A.ax_len(m.axes[0]), po.n), s_eq(A.ax_len(m.axes[1]), pi.n)))
        for o in v.each(Range(po.n)):
            for i in v.each(Range(pi.n)):
                dist = [s_abs(s_sub(a, b)) for a, b in zip(po.xyz(o), pi.xyz(i))]
                for q in range(3):
                    v.lemma("distances inside of the grid", b_and(s_cmp("<=", 0, dist[q]), s_cmp("<", dist[q], g.n[q])))
                (x, y, z), (nx, ny, nz) = dist, g.n
                plane = s_add(y, s_mul(ny, z))
                v.lemma("number of the distance: lines", s_cmp(">=", s_mul(ny, s_sub(s_sub(nz, 1), z)), 0))
                v.lemma("number of the distance: planes", b_and(s_cmp("<=", 0, plane), s_cmp("<", plane, s_mul(ny, nz))))
                v.lemma("number of the distance: voxels", b_and(s_cmp("<=", 0, s_mul(nx, plane)), s_cmp(">=", s_mul(nx, s_sub(s_sub(s_mul(ny, nz), 1), plane)), 0)))
                v.lemma("number of the distance", b_and(s_cmp("<=", 0, A.lin(dist, g.n)), s_cmp("<", A.lin(dist, g.n), g.nv)))
                for d in range(nd):
                    for e in range(nd):
                        with scope():
                            v.c.hyp(s_eq(po.dim(o), d))
                            v.c.hyp(s_eq(pi.dim(i), e))
                            so.at[o.get_id()], si.at[i.get_id()] = d, e
                            b = block(name, d, e)
                            exp = 0 if b is None else s_mul(b[1], interaction(name, fm, po.xyz(o), pi.xyz(i), b[0]))
                            v.prove("entry: interaction of the output and the input", s_eq(m.fn(o, i), exp))
        v.prove("the tensor is not changed", unchanged(v, mat, fm))
    spec("multiply_direct: %s" % name, [MD + ":" + x for x in ("get_prepare", "_get_voxel_indices", "_get_dense_zero", "_get_dense_diag")])(run)


for _name in KIND:
    direct(_name)


@spec("multiply_direct.get_multiply", [MD + ":get_multiply"])
def product(v):
    n, m = v.int("n_out", lo=0), v.int("n_in", lo=0)
    a = v.array("mat", (n, m), "float")
    for flip in (False, True):
        x = v.array("vec", (n if flip else m,), "complex")
        f = x.fn
        r = v.call(MD, "get_multiply", a, x, flip)
        v.prove("no error", v.raised is None)
        if v.raised:
            continue
        nr, nc = (m, n) if flip else (n, m)
        v.prove("one value per row", b_and(r.ndim == 1, s_eq(A.ax_len(r.axes[0]), nr)))
        for o in v.each(Range(nr)):
            v.prove("sum of the products with the entries", s_eq(r.fn(o), A.sum_over([Range(nc)], lambda i: s_mul(a.fn(i, o) if flip else a.fn(o, i), f(i)))))


class Recorder:
    """calls of the implementations of a multiplication mode"""
    ARGS = {"get_prepare": ("name", "idx_out", "idx_in", "mat"), "get_multiply": ("data", "vec_in", "flip")}

    def __init__(self, v):
        self.calls = []
        for qual, mode in ((MF, "fft"), (MD, "direct")):
            for fn in ("get_prepare", "get_multiply"):
                v.override(qual + ":" + fn, self.handler(mode, fn))

    def handler(self, mode, fn):
        def f(*a, **k):
            if any(x not in self.ARGS[fn] for x in k) or len(a) > len(self.ARGS[fn]):
                raise Unsupported("arguments of %s" % fn)
            a = list(a) + [k[x] for x in self.ARGS[fn][len(a):]]
            self.calls.append((mode, fn, a, Tok("%s of call %d" % (fn, len(self.calls)))))
            return self.calls[-1][3]
        return f


@spec("matrix_multiply: operators", [MM + ":" + x for x in ("get_operator_potential", "get_operator_inductance", "get_operator_coupling", "_get_prepare", "_get_multiply")])
def operators(v):
    for mode in ("fft", "direct"):
        for name in KIND:
            rec = Recorder(v)
            po, pi, mat, vec = Tok("idx_out"), Tok("idx_in"), Tok("mat"), Tok("vec")
            if name == "coupling":
                ops = v.call(MM, "get_operator_coupling", po, pi, mat, mode)
            else:
                ops = (v.call(MM, "get_operator_" + name, po, mat, mode),)
                pi = po
            v.prove("no error", v.raised is None)
            if v.raised:
                return
            v.prove("one operator per direction", len(ops) == (2 if name == "coupling" else 1))
            prep = [x for x in rec.calls if x[1] == "get_prepare"]
            v.prove("the matrix of the operator is prepared in its mode", len(prep) >= 1 and all(x[0] == mode and x[2][0] == name and x[2][1] is po and x[2][2] is pi and x[2][3] is mat for x in prep))
            data = [x[3] for x in prep]
            for op, flip in zip(ops, (False, True)):
                for _ in range(2):
                    n = len(rec.calls)
                    r = v.call(op, vec)
                    v.prove("no error", v.raised is None)
                    if v.raised:
                        return
                    new = [x for x in rec.calls[n:]]
                    v.prove("a product with the prepared matrix, in the same mode", len(new) == 1 and new[0][:2] == (mode, "get_multiply") and any(new[0][2][0] is u for u in data))
                    v.prove("a product with the vector, in the direction of the operator", len(new) == 1 and new[0][2][1] is vec and new[0][2][2] is flip)
                    v.prove("the operator returns the product", len(new) == 1 and r is new[0][3])
