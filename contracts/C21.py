"""Spectrum helpers are inverse to each other and leave their inputs alone."""
from fractions import Fraction
from contracts.common import *  # noqa

M = "pypeec.utils.fourier"
ASSUMED = ["numpy.fft.rfft returns the first N/2+1 terms (rounded down) of the discrete Fourier transform, in a new array",
           "numpy.fft.irfft of a real multiple of the transform of a signal is this multiple of the signal, in a new array, if the number of samples is that of the signal (by default: twice the number of terms minus two)"]


class Signal:
    """real signal with at least one sample and its discrete Fourier transform"""

    def __init__(self, v):
        self.v = v
        self.n = v.int("n_time", lo=1)
        self.x = v.array("v_time", self.n, "float")
        self.fx = self.x.fn
        self.X = v.fun("dft", 1, "complex")
        self.m = s_add(s_floordiv(self.n, 2), 1)
        self.seen = []

    def rfft(self, a, *args, **kwargs):
        v = self.v
        if args or kwargs:
            raise Unsupported("options of the transform")
        a = A.as_arr(a)
        s = self.multiple(a, self.n, self.fx)
        self.seen.append(a)
        X = self.X
        return Arr((Range(self.m),), lambda k: s_mul(s, X(k)), "complex")

    def irfft(self, a, n=None, **kwargs):
        """contract for a multiple of the transform"""
        v = self.v
        if kwargs:
            raise Unsupported("options of the transform")
        a = A.as_arr(a)
        if n is None:
            n = s_mul(2, s_sub(A.ax_len(a.axes[0]), 1))
        v.prove("the inverse transform has the number of samples of the signal", s_eq(n, self.n))
        s = self.multiple(a, self.m, self.X)
        return Arr((Range(self.n),), lambda t: s_mul(s, self.fx(t)), "float")

    def multiple(self, a, n, f):
        """the real number s such that a = s f"""
        c = self.v.c
        if a.ndim == 1 and c.valid(s_eq(A.ax_len(a.axes[0]), n)):
            for u in (1, 2, Fraction(1, 2)):
                for w in (1, s_div(1, self.n), self.n):
                    s = s_mul(u, w)
                    for k in A.each(Range(n)):
                        if c.valid(s_eq(a.fn(A.pos_to_index(a.axes[0], k)), s_mul(s, f(k))), timeout=2000):
                            return s
        raise Unsupported("argument of a transform")

    def same(self):
        self.v.equal_arr("the signal is not modified", self.x, [self.n], self.fx)

    def amplitude(self, k):
        """single-sided amplitude spectrum"""
        return s_div(s_mul(s_ite(s_eq(k, 0), 1, 2), self.X(k)), self.n)


def forward(padded):
    def run(v):
        s = Signal(v)
        v.override("numpy.fft.rfft", s.rfft)
        if padded:
            q = v.int("n_freq", lo=0)
            r = v.call(M, "get_fft", s.x, q)
        else:
            q = s.m
            r = v.call(M, "get_fft", s.x)
        v.prove("no error", v.raised is None)
        if v.raised:
            return
        v.equal_arr("mean in the first term, doubled amplitudes elsewhere, zeros behind", r, [q], lambda k: s_ite(s_cmp("<", k, s.m), s.amplitude(k), 0))
        v.prove("the signal is transformed", len(s.seen) == 1)
        s.same()
    spec("fourier.get_fft: " + ("requested length" if padded else "default length"), [M + ":get_fft"])(run)


forward(False)
forward(True)


def inverse(given):
    def run(v):
        s = Signal(v)
        v.override("numpy.fft.irfft", s.irfft)
        n = s.n
        if not given:
            v.assume(s_eq(s_mod(n, 2), 0))
        a = Arr((Range(s.m),), s.amplitude, "complex")
        f = a.fn
        r = v.call(M, "get_ifft", a, *([n] if given else []))
        v.prove("no error", v.raised is None)
        if v.raised:
            return
        v.equal_arr("the signal with this spectrum", r, [n], s.fx)
        v.equal_arr("the spectrum is not modified", a, [s.m], f)
    spec("fourier.get_ifft: " + ("any number of samples, given" if given else "even number of samples"), [M + ":get_ifft"])(run)


inverse(True)
inverse(False)


@spec("fourier.get_time", [M + ":get_time"])
def time(v):
    f, n = v.real("f", gt=0), v.int("n_time", lo=1)
    r = v.call(M, "get_time", f, n)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.equal_arr("equally spaced times from zero over one period", r, [n], lambda k: s_div(k, s_mul(f, n)))


@spec("fourier.get_freq", [M + ":get_freq"])
def freq(v):
    f, n = v.real("f", gt=0), v.int("n_freq", lo=0)
    r = v.call(M, "get_freq", f, n)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.equal_arr("multiples of the base frequency", r, [n], lambda k: s_mul(k, f))
