from rt.common import *  # noqa

M = "utils.fourier"


def spectrum(x, nf=None):
    """single-sided amplitude spectrum by its definition"""
    N = len(x)
    k = np.arange(N // 2 + 1)
    t = np.arange(N)
    X = np.array([np.sum(x * np.exp(-2j * np.pi * t * q / N)) for q in k]) * 2 / N
    X[0] /= 2
    if nf is not None:
        X = np.concatenate((X, np.zeros(max(0, nf - len(X)))))[:nf]
    return X


def as_input(c, x):
    """the same numbers in the forms in which they are passed"""
    kind = c.pick(["array", "list", "readonly", "strided"])
    if kind == "list":
        return [v.item() for v in x]
    if kind == "readonly":
        x = x.copy()
        x.flags.writeable = False
        return x
    if kind == "strided":
        y = np.zeros(2 * len(x), dtype=x.dtype)
        y[::2] = x
        return y[::2]
    return x.copy()


@contract("fourier.get_fft", "single-sided amplitude spectrum, padded or cut, argument unchanged", 300)
def fft_(c):
    N = c.i(1, 40)
    x = c.rng.normal(size=N)
    if c.p(0.3):
        x = c.rng.integers(-9, 9, size=N)
    nf = c.pick([None, c.i(1, 60), N // 2 + 1, N // 2, N // 2 + 2])
    nf = None if nf == 0 else nf
    a = as_input(c, x)
    b = freeze(a)
    c.note(x=x, n_freq=nf)
    X = call(M, "get_fft", a) if nf is None else call(M, "get_fft", a, n_freq=nf)
    close(X, spectrum(x, nf), 1e-9, atol=1e-9 * (1 + np.max(np.abs(x))))
    need(np.array_equal(a, b), "the argument was modified")


@contract("fourier.get_ifft", "inverse of the single-sided spectrum, argument unchanged", 300)
def ifft_(c):
    N = c.i(1, 40)
    x = c.rng.normal(size=N)
    x -= c.f(-3, 3)
    if c.p(0.2):
        x = x * 0 + c.i(-3, 3)
    X = spectrum(x)
    even = N % 2 == 0
    if not even or c.p(0.5):
        nt = N
        a = as_input(c, X)
        b = freeze(a)
        c.note(x=x, n_time=N)
        y = call(M, "get_ifft", a, n_time=N)
    else:
        a = as_input(c, X)
        b = freeze(a)
        c.note(x=x, n_time=None)
        y = call(M, "get_ifft", a)
    close(y, x, 1e-9, atol=1e-9 * (1 + np.max(np.abs(x))))
    need(np.array_equal(a, b), "the argument was modified")
    same(np.asarray(y).dtype.kind, "f", "the signal is real")


@contract("fourier.get_ifft", "integer and real spectra", 60)
def ifft_int(c):
    m = c.i(2, 10)
    X = c.rng.integers(-5, 6, size=m)
    N = 2 * (m - 1)
    c.note(X=X)
    a = X.copy() if c.p() else [int(v) for v in X]
    b = freeze(a)
    y = call(M, "get_ifft", a)
    t = np.arange(N)
    ref = X[0] + np.array([np.sum(X[1:-1] * np.cos(2 * np.pi * np.arange(1, m - 1) * q / N)) for q in t]) + 0.5 * X[-1] * np.cos(np.pi * t)
    close(y, ref, 1e-9, atol=1e-9)
    need(np.array_equal(a, b), "the argument was modified")


@contract("fourier.get_fft/get_ifft", "round trip", 100)
def trip(c):
    N = c.i(1, 60)
    x = c.rng.normal(size=N) + c.f(-2, 2)
    c.note(x=x)
    X = call(M, "get_fft", x)
    Y = freeze(X)
    close(call(M, "get_ifft", X, n_time=N), x, 1e-9, atol=1e-9)
    close(call(M, "get_ifft", X, n_time=N), x, 1e-9, atol=1e-9, msg="second call with the same spectrum")
    same(X, Y, "spectrum modified")
    if N % 2 == 0:
        close(call(M, "get_ifft", X), x, 1e-9, atol=1e-9)


@contract("fourier.get_time/get_freq", "equally spaced values", 100)
def vec(c):
    f = c.pick([c.f(0.1, 10), c.f(1e3, 1e6)])
    n = c.i(1, 50)
    c.note(f=f, n=n)
    close(call(M, "get_time", f, n), np.array([k / (f * n) for k in range(n)]), 1e-12)
    close(call(M, "get_freq", f, n), np.array([k * f for k in range(n)]), 1e-12)
