"""Symbolic inputs which are shared by the contracts."""
from vc.core import *  # noqa
from vc import arr as A
from vc.arr import Arr, Range
from vc.values import *  # noqa
from vc.prove import spec, Skip  # noqa


def grid(v):
    """voxel numbers of a grid (at least one voxel per axis)"""
    return tuple(v.int(x, lo=1) for x in ("nx", "ny", "nz"))


def size(v):
    """positive voxel dimensions"""
    return tuple(v.real(x, gt=0) for x in ("dx", "dy", "dz"))


def point(v, name="c"):
    return tuple(v.real(name + x) for x in "xyz")


def prod(n):
    r = 1
    for x in n:
        r = s_mul(r, x)
    return r


def number(n, t):
    return s_add(s_add(t[0], s_mul(n[0], t[1])), s_mul(s_mul(n[0], n[1]), t[2]))


def coordinates(n, w):
    """the grid coordinates of a voxel number: number(n, t) = w with t inside of the grid"""
    return tuple(A.digits(zint(w), tuple(n)))


def inside(n, t):
    return b_and(*[b_and(s_cmp("<=", 0, u), s_cmp("<", u, d)) for u, d in zip(t, n)])


def selection(v, name, n, hi=None, lo=0):
    """distinct indices in [lo, hi), in any order: array, element function, inverse"""
    f = v.fun(name, 1)
    p = v.fun("where_" + name, 1)
    ax = Range(n)
    if hi is not None:
        v.assume(A.forall(ax, lambda i: b_and(s_cmp("<=", lo, f(i)), s_cmp("<", f(i), hi))))
    i = v.c.ivar("i")
    fi = f(i)
    v.assume(z3.ForAll([i], z3.Implies(zbool(A.in_axis(ax, i)), p(fi) == i), patterns=[fi]))
    v.c.injective[fi.decl().name()] = p
    a = v.array(name, n, "int", f)

    def has(x):
        return b_and(A.in_axis(ax, p(x)), s_eq(f(p(x)), x))
    a.mem_ = has
    a.meta["distinct"] = True
    a.meta["inv"] = lambda x: (has(x), p(x))
    return a, f, p, has


class Domains:
    """mapping from distinct names to index lists, of any number and any length"""

    def __init__(self, v, name="dom", lo=0, hi=None, distinct=False, lists=False):
        self.v = v
        self.n = v.int("n_" + name, lo=lo)
        self.key = v.fun("key_" + name, 1)
        self.len = v.fun("len_" + name + ".in", 1)
        self.idx = v.fun("idx_" + name, 2)
        self.axis = Range(self.n)
        c = v.c
        v.assume(A.forall(self.axis, lambda i: s_cmp(">=", self.len(i), 0)))
        v.assume(A.forall([self.axis, self.axis], lambda i, j: b_implies(s_eq(self.key(i), self.key(j)), s_eq(i, j))))
        if hi is not None:
            v.assume(self.all(lambda x: b_and(s_cmp("<=", 0, x), s_cmp("<", x, hi))))
        if distinct:
            v.assume(self.unique())
        self.lists = lists
        self.dict = SDict(self.axis, lambda i: SymStr(self.key(i)), lambda i: self.value(i), name)

    def value(self, i):
        ax = Range(self.len(i))
        if self.lists:
            return SList(ax, lambda j: self.idx(i, j))
        return Arr((ax,), lambda j: self.idx(i, j), "int")

    def fiber(self):
        return A.Sigma(self.axis, lambda i: Range(self.len(i)))

    def all(self, f):
        """f holds for every index of every domain"""
        return A.forall(self.fiber(), lambda u: f(self.idx(u[0], u[1])))

    def unique_in(self, i):
        ax = Range(self.len(i))
        return A.forall([ax, ax], lambda j, k: b_implies(s_eq(self.idx(i, j), self.idx(i, k)), s_eq(j, k)))

    def unique(self):
        """distinct indices inside of every domain"""
        return A.forall(self.axis, lambda i: self.unique_in(i))

    def member(self, i, x):
        return A.exists(Range(self.len(i)), lambda j: s_eq(self.idx(i, j), x))

    def used(self, x):
        return A.exists(self.axis, lambda i: self.member(i, x))


def same_domains(v, clause, got, dom, strong=True):
    """the mapping has the names of the domains, in order, with the given lists"""
    v.prove(clause + ": is a mapping", isinstance(got, SDict) and not got.extra)
    if not isinstance(got, SDict):
        return
    v.prove(clause + ": number of domains", s_eq(A.ax_len(got.axis), dom.n))
    for i in v.each(dom.axis):
        j = A.pos_to_index(got.axis, i)
        v.prove(clause + ": names in order", s_eq(str_term(got.key(j)), dom.key(i)))
        a = got.val(j)
        v.equal_arr(clause + ": indices in order", a, [Range(dom.len(i))], lambda k: dom.idx(i, k))
        v.prove(clause + ": integer indices", a.kind == "int")


# names used in the code for the result of a tuple
def pick(d, *names):
    return [d[n] for n in names]


def rows(v, clause, y, parts):
    """the vector is made of the parts (length, element function), one after another"""
    off = 0
    n = 0
    for k, _, _ in parts:
        n = s_add(n, k)
    v.prove(clause + ": size", b_and(y.ndim == 1, s_eq(A.ax_len(y.axes[0]), n)))
    for k, f, name in parts:
        for i in v.each(Range(k)):
            v.prove("%s: %s" % (clause, name), s_eq(y.fn(A.pos_to_index(y.axes[0], s_add(off, i))), f(i)))
        off = s_add(off, k)


class Named:
    """mapping from distinct names to records with the given fields"""

    def __init__(self, v, name, fields):
        self.n = v.int("n_" + name, lo=0)
        self.axis = Range(self.n)
        self.key = v.fun("key_" + name, 1)
        self.at = {k: v.fun(name + "_" + k, 1, "real") for k in fields}
        v.assume(A.forall([self.axis, self.axis], lambda i, j: b_implies(s_eq(self.key(i), self.key(j)), s_eq(i, j))))
        self.dict = SDict(self.axis, lambda i: SymStr(self.key(i)), self.record, name)

    def record(self, i):
        return PDict({k: f(i) for k, f in self.at.items()})

    def has(self, x):
        return A.exists(self.axis, lambda i: s_eq(self.key(i), x))


def merge_spec(v, mod):
    """the values of a name are joined with its indices; a name without values is an error"""
    val, idx = Named(v, "val", ["value", "both"]), Named(v, "idx", ["index", "both"])
    r = v.call(mod, "_merge_val_idx", val.dict, idx.dict)
    every = A.forall(idx.axis, lambda i: val.has(idx.key(i)))
    if v.raised:
        v.prove("an error is raised only if a name has no values", b_not(every))
        return
    v.prove("a name without values is rejected", every)
    v.prove("one entry per domain", isinstance(r, SDict) and A.ax_same(r.axis, idx.axis) and not r.extra)
    for i in v.each(idx.axis):
        v.prove("names in the order of the indices", s_eq(str_term(r.key(i)), idx.key(i)))
        m = r.val(i)
        v.prove("the fields of both", set(m) == {"value", "index", "both"})
        v.prove("indices of the name", b_and(s_eq(m["index"], idx.at["index"](i)), s_eq(m["both"], idx.at["both"](i))))
        for j in v.each(val.axis):
            v.prove("values of the name", b_implies(s_eq(val.key(j), idx.key(i)), s_eq(m["value"], val.at["value"](j))))


def value_spec(v, mod, fct, field):
    """every entry of the joined data is converted, with the given contracts of the callees"""
    idx = Named(v, "all", ["value"])
    a, b = Opaque("values"), Opaque("indices")
    seen = []

    def merge(x, y):
        seen.append((x, y))
        return idx.dict
    conv = z3.Function("converted", z3.RealSort(), z3.RealSort())
    v.override(mod + ":_merge_val_idx", merge)
    v.override(mod + ":" + field, lambda x: PDict({"value": conv(zreal(x["value"]))}))
    r = v.call(mod, fct, a, b)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("the values are joined with the indices", len(seen) == 1 and seen[0][0] is a and seen[0][1] is b)
    v.prove("one entry per domain", isinstance(r, SDict) and A.ax_same(r.axis, idx.axis) and not r.extra)
    for i in v.each(idx.axis):
        v.prove("names in order", s_eq(str_term(r.key(i)), idx.key(i)))
        v.prove("the converted values of the name", s_eq(r.val(i)["value"], conv(zreal(idx.at["value"](i)))))
