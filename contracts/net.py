"""The faces of a problem: an incidence matrix of the proved form (C08) and the numbers of the faces."""
from contracts.common import *  # noqa

half = Fraction(1, 2)


def conj(x):
    return Cx(x.re, s_neg(x.im)) if isinstance(x, Cx) else x


def re(x):
    return x.re if isinstance(x, Cx) else x


def im(x):
    return x.im if isinstance(x, Cx) else 0


def mag2(x):
    return s_add(s_mul(re(x), re(x)), s_mul(im(x), im(x)))


class Net:
    """nv voxels and nf faces: +1 at the lower voxel, -1 at the higher voxel of every face; face numbers
    a*n + number of the lower voxel for the axis a, in any order"""

    def __init__(self, v, name="", n=None, d=None):
        self.v = v
        self.n, self.d = n or grid(v), d or size(v)
        self.total = prod(self.n)
        self.nv, self.nf = v.int("nv" + name, lo=0), v.int("nf" + name, lo=0)
        self.low, self.high = v.fun("low" + name, 1), v.fun("high" + name, 1)
        self.number = v.fun("idx_f" + name, 1)
        v.assume(A.forall(Range(self.nf), lambda f: b_and(*[b_and(s_cmp("<=", 0, g(f)), s_cmp("<", g(f), self.nv)) for g in (self.low, self.high)])))
        j = v.c.ivar("j")
        v.assume(z3.ForAll([j], z3.Not(self.low(j) == self.high(j)), patterns=[self.low(j)]))
        v.assume(A.forall(Range(self.nf), lambda f: b_and(s_cmp("<=", 0, self.number(f)), s_cmp("<", self.number(f), s_mul(3, self.total)))))
        self.A = Arr((Range(self.nv), Range(self.nf)), self.entry, "int", None, True)
        self.idx_f = v.array("idx_f" + name, self.nf, "int", self.number)

    def entry(self, i, f):
        return s_sub(s_ite(s_eq(i, self.low(f)), 1, 0), s_ite(s_eq(i, self.high(f)), 1, 0))

    def touch(self, i, f):
        """1 for the two voxels of the face"""
        return s_add(s_ite(s_eq(i, self.low(f)), 1, 0), s_ite(s_eq(i, self.high(f)), 1, 0))

    def along(self, f, k):
        """the face is along the axis k"""
        return b_and(s_cmp("<=", s_mul(k, self.total), self.number(f)), s_cmp("<", self.number(f), s_mul(k + 1, self.total)))
