from rt.common import *  # noqa
from rt import gen
import types

MM = "lib_matrix.matrix_multiply"


def stand_ins():
    """libraries that are not installed here, replaced by numpy: an overwritten argument is destroyed on purpose"""
    def trash(x, flag):
        if flag and isinstance(x, np.ndarray) and x.flags.writeable and x.size and x.dtype.kind in "fc":
            x[...] = np.nan

    def mk(name, fct):
        def f(x, s=None, axes=None, overwrite_x=False):
            y = fct(x, s, axes=axes)
            trash(x, overwrite_x)
            return y
        return f
    mkl = types.ModuleType("mkl_fft")
    mkl.fftn, mkl.ifftn = mk("fftn", np.fft.fftn), mk("ifftn", np.fft.ifftn)

    def mw(fct):
        def f(a, s=None, axes=None, overwrite_input=False, threads=1):
            need(isinstance(threads, int) and threads >= 1, "FFTW needs at least one thread", threads)
            y = fct(a, s, axes=axes)
            trash(a, overwrite_input)
            return y
        return f
    fw = types.ModuleType("pyfftw")
    fw.__path__ = []
    it = types.ModuleType("pyfftw.interfaces")
    it.__path__ = []
    ca = types.ModuleType("pyfftw.interfaces.cache")
    ca.disable = lambda: None
    ca.enable = lambda: None
    ca.set_keepalive_time = lambda t: None
    nf = types.ModuleType("pyfftw.interfaces.numpy_fft")
    nf.fftn, nf.ifftn = mw(np.fft.fftn), mw(np.fft.ifftn)
    it.cache, it.numpy_fft, fw.interfaces = ca, nf, it
    fw.byte_align = lambda a, n=None: np.array(a)
    cu = types.ModuleType("cupy")
    cu.__path__ = []
    for k in dir(np):
        if not k.startswith("__"):
            setattr(cu, k, getattr(np, k))
    cu.in1d = np.in1d
    cu.asnumpy = np.asarray
    cf = types.ModuleType("cupy.fft")
    cf.fftn, cf.ifftn = np.fft.fftn, np.fft.ifftn
    cu.fft = cf
    for m in (mkl, fw, it, ca, nf, cu, cf):
        if m.__name__ not in sys.modules:
            try:
                importlib.import_module(m.__name__)
            except ImportError:
                sys.modules[m.__name__] = m


LIBS = ["SciPy", "NumPy", "MKL", "FFTW", "CuPy"]


def options(c, lib, split):
    if lib in ("MKL", "FFTW", "CuPy"):
        stand_ins()
    opt = {"library": lib, "matrix_split": split, "scipy_worker": c.pick([1, 0, -1]), "fftw_thread": c.pick([0, 1, -1]),
           "fftw_timeout": c.pick([None, 10.0]), "fftw_byte_align": 16}
    call("lib_matrix.fourier_transform", "set_options", opt)
    call("lib_matrix.multiply_fft", "set_options", opt)


def spec(kind, n, idx_out, idx_in, mat):
    nv = n[0] * n[1] * n[2]
    M = np.zeros((len(idx_out), len(idx_in)))
    po = gen.coord(n, [int(v) % nv for v in idx_out])
    pi = gen.coord(n, [int(v) % nv for v in idx_in])
    for i, p in enumerate(po):
        for j, q in enumerate(pi):
            a, b = int(idx_out[i]) // nv, int(idx_in[j]) // nv
            df = [u - v for u, v in zip(p, q)]
            ab = tuple(abs(u) for u in df)
            if kind != "coupling":
                M[i, j] = mat[ab + (0,)] if a == b else 0.0
            elif a != b:
                k = 3 - a - b
                M[i, j] = (1 if a < b else -1) * np.sign(df[k]) * mat[ab + (k,)]
    return M


def tensor(c, kind, n):
    if kind != "coupling":
        return c.rng.normal(size=tuple(n) + (1,))
    m = c.rng.normal(size=tuple(n) + (3,))
    m[0, :, :, 0] = 0
    m[:, 0, :, 1] = 0
    m[:, :, 0, 2] = 0
    return m


def one(c, kind, lib):
    n = [c.i(1, 4), c.i(1, 4), c.i(1, 4)]
    nv = n[0] * n[1] * n[2]
    mode = c.pick(["direct", "split", "combined"]) if lib is None else c.pick(["split", "combined"])
    lib = lib or c.pick(["SciPy", "NumPy"])
    options(c, lib, mode == "split")
    mt = "direct" if mode == "direct" else "fft"
    nd = 1 if kind == "potential" else 3
    io = c.subset(nd * nv, 1, 40)
    ii = c.subset(nd * nv, 1, 40) if kind == "coupling" else io
    mat = tensor(c, kind, n)
    if c.p(0.3):
        mat = np.asfortranarray(mat)
    c.note(kind=kind, mode=mode, library=lib, n=n, idx_out=io, idx_in=ii)
    M = spec(kind, n, io, ii, mat)
    m0, o0, i0 = mat.copy(), io.copy(), ii.copy()
    if kind == "coupling":
        f, r = call(MM, "get_operator_coupling", io, ii, mat, mt)
    else:
        f, r = call(MM, "get_operator_" + kind, io, mat, mt), None
    for _ in range(2):                                  # repeated application, fresh results
        x, w = c.cx(len(ii)), c.cx(len(io))
        x0, w0 = x.copy(), w.copy()
        y = f(x)
        close(y, M @ x0, 1e-9, msg="forward operator")
        if r is not None:
            close(r(w), M.T @ w0, 1e-9, msg="reversed operator is not the transpose")
        close(y, M @ x0, 1e-9, msg="result of an earlier application changed")
        need(np.array_equal(x, x0) and np.array_equal(w, w0), "the input vector was modified")
    need(np.array_equal(mat, m0) and np.array_equal(io, o0) and np.array_equal(ii, i0), "tensor or indices were modified")


for _kind in ("potential", "inductance", "coupling"):
    contract("matrix_multiply.get_operator_" + _kind, "block-Toeplitz product, all modes", 120)(lambda c, k=_kind: one(c, k, None))
    for _lib in LIBS:
        contract("matrix_multiply.get_operator_" + _kind, "block-Toeplitz product with the FFT library " + _lib, 16)(lambda c, k=_kind, l=_lib: one(c, k, l))


@contract("run.solver.run", "all multiplication modes and libraries give the same solution", 6)
def whole(c):
    from rt import prob
    case = prob.random_problem(c, 3, magnetic=True, dense=True)
    c.note(**case["note"])
    ref = None
    for mt, lib, split in (("direct", "SciPy", True), ("fft", "SciPy", True), ("fft", "SciPy", False), ("fft", "NumPy", c.p()), ("fft", c.pick(["MKL", "FFTW", "CuPy"]), c.p())):
        if lib in ("MKL", "FFTW", "CuPy"):
            stand_ins()
        tol = prob.tolerance(mult_type=mt, fft_options__library=lib, fft_options__matrix_split=split)
        r = prob.solve(case, tol)["data_sweep"]["sim"]
        if ref is None:
            ref = r
        for t in r["var"]:
            close(r["var"][t]["var"], ref["var"][t]["var"], atol=1e-6 * (1 + np.max(np.abs(ref["var"][t]["var"]), initial=0)), msg="%s with %s/%s/%s" % (t, mt, lib, split))
