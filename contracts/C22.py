"""Extracted impedance matrices reproduce the terminal data."""
from fractions import Fraction
from contracts.common import *  # noqa
from contracts.wiring import Tok, T, Wiring, key
from vc import loops

M = "pypeec.utils.matrix"
ASSUMED = ["numpy.linalg.lstsq returns the coefficients which solve the equations exactly, if such coefficients exist and the rank of the matrix is the number of coefficients",
           "numpy.linalg.matrix_rank returns the rank of the matrix",
           "the self resistances and inductances have products with positive values (the coupling factors are defined)",
           "numpy.allclose(a, b): all of the values are finite and |a - b| <= 1e-8 + 1e-5 |b|"]


class Pairs:
    """coefficients of a symmetric matrix: coefficient k is at row p(k) and column q(k) <= p(k), in any order"""

    def __init__(self, v, n):
        self.v, self.n = v, n
        self.m = v.int("n_coefficient", lo=0)
        self.p, self.q, self.at = v.fun("row", 1), v.fun("col", 1), v.fun("coefficient", 2)
        k, i, j = (v.c.ivar(x) for x in "kij")
        p, q, a = self.p(k), self.q(k), self.at(i, j)
        ok = b_and(s_cmp("<=", 0, q), s_cmp("<=", q, p), s_cmp("<", p, n), s_eq(self.at(p, q), k))
        for pat in (p, q):
            v.assume(z3.ForAll([k], z3.Implies(zbool(self.has(k)), zbool(ok)), patterns=[pat]))
        v.assume(z3.ForAll([i, j], z3.Implies(zbool(self.lower(i, j)), zbool(b_and(self.has(a), s_eq(self.p(a), i), s_eq(self.q(a), j)))), patterns=[a]))
        self.list = SList(Range(self.m), lambda k: PList([self.p(k), self.q(k)]))

    def has(self, k):
        return b_and(s_cmp("<=", 0, k), s_cmp("<", k, self.m))

    def lower(self, i, j):
        return b_and(s_cmp("<=", 0, j), s_cmp("<=", j, i), s_cmp("<", i, self.n))

    def number(self, r, c):
        """coefficient of a row and a column"""
        return s_ite(s_cmp("<=", c, r), self.at(r, c), self.at(c, r))


def entry(p, q, r, cur):
    """entry of the equations: row r, coefficient at (p, q), currents cur"""
    return s_ite(s_eq(r, q), cur(p), s_ite(s_eq(r, p), cur(q), 0))


def matrix_in(env, shape, kind="complex"):
    """names of the arrays of this shape"""
    c = ctx()
    return {k for k, u in env.items() if isinstance(u, Arr) and u.ndim == len(shape) and u.kind == kind and all(c.valid(s_eq(A.ax_len(a), n)) for a, n in zip(u.axes, shape))}


def filled(v, qual, total, shape, inv, kind="complex"):
    """loop which fills a matrix: inv(i) is its content after i iterations"""
    def handler(ip, st, seq, fr):
        bound, mutated = loops.assigned_names(st.body)
        names = matrix_in(fr.env, shape, kind) & mutated
        if len(names) != 1:
            return False
        name = names.pop()
        v.prove("the loop visits all of the coefficients", s_eq(A.ax_len(seq.axis), total))
        v.equal_arr("content before the loop", fr.env[name], shape, inv(0))

        def before(i):
            fr.env[name] = Arr([Range(u) for u in shape], inv(A.index_to_pos(seq.axis, i)), kind)

        def check(i):
            v.equal_arr("content after an iteration", fr.env[name], shape, inv(s_add(A.index_to_pos(seq.axis, i), 1)))
        loops.by_invariant(ip, st, seq, fr, {name}, before, check)
        fr.env[name] = Arr([Range(u) for u in shape], inv(total), kind)
        return True
    v.loop(qual, handler)


@spec("matrix._get_matrix_idx", [M + ":_get_matrix_idx"])
def idx(v):
    n = v.int("n_winding", lo=0)
    r = v.call(M, "_get_matrix_idx", n)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("a list of pairs", isinstance(r, SList))
    for k in v.each(r.axis):
        e = r.elem(k)
        v.prove("a row and a column", isinstance(e, (list, tuple)) and len(e) == 2)
        v.prove("every pair is in the lower half of the matrix", b_and(s_cmp("<=", 0, e[1]), s_cmp("<=", e[1], e[0]), s_cmp("<", e[0], n)))
    i, j = v.int("i", lo=0), v.int("j", lo=0)
    v.assume(b_and(s_cmp("<=", j, i), s_cmp("<", i, n)))
    v.witness("every pair of the lower half is listed", r.axis, lambda k: b_and(s_eq(r.elem(k)[0], i), s_eq(r.elem(k)[1], j)), [i, j])
    v.prove("no pair is listed twice", A.forall([r.axis, r.axis], lambda k, u: b_implies(b_and(s_eq(r.elem(k)[0], r.elem(u)[0]), s_eq(r.elem(k)[1], r.elem(u)[1])), b_and(*[s_eq(a, b) for a, b in zip(A.flat_idx(k), A.flat_idx(u))]))))


@spec("matrix._get_matrix_eqn", [M + ":_get_matrix_eqn"])
def eqn(v):
    n = v.int("n_winding", lo=0)
    pr = Pairs(v, n)
    cur = v.array("I_vec", n, "complex")
    filled(v, M + ":_get_matrix_eqn", pr.m, (n, pr.m), lambda i: (lambda r, k: s_ite(s_cmp("<", k, i), entry(pr.p(k), pr.q(k), r, cur.fn), 0)))
    r = v.call(M, "_get_matrix_eqn", n, pr.list, cur)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.equal_arr("a coefficient multiplies the currents of its row and column", r, [n, pr.m], lambda r, k: entry(pr.p(k), pr.q(k), r, cur.fn))


@spec("matrix._get_matrix_assign", [M + ":_get_matrix_assign"])
def assign(v):
    n = v.int("n_winding", lo=0)
    pr = Pairs(v, n)
    sol = v.array("sol", pr.m, "complex")
    filled(v, M + ":_get_matrix_assign", pr.m, (n, n), lambda i: (lambda r, c: s_ite(s_cmp("<", pr.number(r, c), i), sol.fn(pr.number(r, c)), 0)))
    r = v.call(M, "_get_matrix_assign", n, pr.list, sol)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.equal_arr("a coefficient is at its row and column and at the transposed ones", r, [n, n], lambda r, c: sol.fn(pr.number(r, c)))


@spec("matrix._get_matrix_solve", [M + ":_get_matrix_solve"])
def solve(v):
    n, s = v.int("n_winding", lo=0), v.int("n_solution", lo=0)
    pr = Pairs(v, n)
    z = v.fun("Z", 2, "complex")
    shape = [(v.int("n_row_" + x, lo=0), v.int("n_col_" + x, lo=0)) for x in "IV"]
    cur = v.array("I_mat", shape[0], "complex")

    def imp(a, b):
        """symmetric impedance matrix"""
        return s_add(s_ite(s_cmp("<", b, a), z(a, b), 0), s_ite(s_cmp("<=", a, b), z(b, a), 0))

    def coef(k):
        return z(pr.p(k), pr.q(k))

    def volt(a, b):
        return A.sum_over([Range(n)], lambda c: s_mul(imp(a, c), cur.fn(c, b)))
    vol = Arr([Range(u) for u in shape[1]], volt, "complex")
    freq = v.real("freq")
    rank = v.int("rank", lo=0)
    seen = {"solve": 0}

    def equations(n_, lst, c):
        """contract of _get_matrix_eqn"""
        if lst is not pr.list:
            raise Unsupported("another list of coefficients")
        c = A.as_arr(c)
        v.prove("the equations have one row per winding", b_and(s_eq(n_, n), s_eq(A.ax_len(c.axes[0]), n)))
        f = c.fn
        return Arr((Range(n), Range(pr.m)), lambda r, k: entry(pr.p(k), pr.q(k), r, f), "complex")

    def lstsq(a, b, rcond=None):
        """contract of numpy.linalg.lstsq for equations of full rank with an exact solution"""
        a, b = A.as_arr(a), A.as_arr(b)
        seen["solve"] += 1
        v.prove("the rank of the equations is sufficient", s_eq(rank, pr.m))
        v.prove("one equation per winding and solution, one column per coefficient", b_and(s_eq(A.ax_len(a.axes[0]), A.ax_len(b.axes[0])), s_eq(A.ax_len(a.axes[1]), pr.m)))
        for row in A.each(a.axes[0], "row"):
            w = A.flat_idx(row)
            if not A.ax_same(a.axes[0], b.axes[0]) or len(w) < 2:
                raise Unsupported("rows of the equations")
            i, r = w[-2:]
            v.reindex("impedance matrix from its coefficients", pr.m, lambda k: s_mul(entry(pr.p(k), pr.q(k), r, lambda c: cur.fn(c, i)), coef(k)), [n, n], lambda x, y: s_cmp("<=", y, x),
                      lambda x, y: s_mul(entry(x, y, r, lambda c: cur.fn(c, i)), z(x, y)), pr.at, lambda k: (pr.p(k), pr.q(k)))
            got = A.sum_over([Range(pr.m)], lambda k: s_mul(a.fn(row, A.pos_to_index(a.axes[1], k)), coef(k)))
            v.prove("the coefficients of the impedance matrix solve the equations", s_eq(got, b.fn(row)))
        return Arr((Range(pr.m),), coef, "complex"), Opaque("residual"), Opaque("rank"), Opaque("values")

    def full(n_, lst, x):
        """contract of _get_matrix_assign"""
        if lst is not pr.list:
            raise Unsupported("another list of coefficients")
        v.prove("one coefficient per pair", b_and(s_eq(n_, n), s_eq(A.ax_len(x.axes[0]), pr.m)))
        return Arr((Range(n), Range(n)), lambda a, b: x.fn(pr.number(a, b)), "complex")
    v.override(M + ":_get_matrix_idx", lambda n_: (v.prove("the coefficients of the windings", s_eq(n_, n)), pr.list)[1])
    v.override(M + ":_get_matrix_eqn", equations)
    v.override(M + ":_get_matrix_assign", full)
    v.override("numpy.linalg.matrix_rank", lambda a, *b: rank)
    v.override("numpy.linalg.lstsq", lstsq)
    r = v.call(M, "_get_matrix_solve", PDict({"n_solution": s, "n_winding": n, "freq": freq, "V_mat": vol, "I_mat": cur}))
    good = b_and(*[b_and(s_eq(a, n), s_eq(b, s)) for a, b in shape])
    if v.raised:
        v.prove("an error is raised only for wrong shapes or insufficient excitations", b_not(b_and(good, s_eq(rank, pr.m), s_cmp(">=", s_mul(n, s), pr.m))))
        return
    v.prove("wrong shapes are rejected", good)
    v.prove("insufficient excitations are rejected", s_eq(rank, pr.m))
    v.prove("size and frequency are returned", b_and(s_eq(r[0], n), s_eq(r[1], s), s_eq(r[2], freq)))
    v.prove("the equations are solved", seen["solve"] > 0)
    v.equal_arr("the impedance matrix which generated the terminal data", r[3], [n, n], imp)


@spec("matrix._get_matrix_coupling", [M + ":_get_matrix_coupling"])
def coupling(v):
    n = v.int("n_winding", lo=0)
    a = v.array("RL_mat", (n, n), "float")
    i, j = v.c.ivar("i"), v.c.ivar("j")
    inside = b_and(A.in_axis(Range(n), i), A.in_axis(Range(n), j))
    v.assume(z3.ForAll([i, j], zbool(b_implies(inside, s_cmp(">", s_mul(a.fn(i, i), a.fn(j, j)), 0))), patterns=[z3.MultiPattern(zreal(a.fn(i, i)), zreal(a.fn(j, j)))]))

    x = z3.Real("x")
    v.assume(z3.ForAll([x], z3.Implies(x > 0, SQRT(x) > 0), patterns=[SQRT(x)]))   # definition of the square root

    def val(i, j):
        return s_div(a.fn(i, j), s_sqrt(s_mul(a.fn(i, i), a.fn(j, j))))
    at = {"depth": 0}

    def handler(ip, st, seq, fr):
        bound, mutated = loops.assigned_names(st.body)
        names = matrix_in(fr.env, (n, n), "float") & mutated
        if len(names) != 1 or at["depth"] > 1:
            return False
        name = names.pop()
        if at["depth"] == 0:
            inv = lambda i: (lambda r, c: s_ite(b_or(s_cmp("<", r, i), s_cmp("<", c, i)), val(r, c), 0))  # noqa
        else:
            o = at["outer"]
            inv = lambda i: (lambda r, c: s_ite(b_or(s_cmp("<", r, o), s_cmp("<", c, o), b_and(s_eq(r, o), s_cmp("<", c, i)), b_and(s_eq(c, o), s_cmp("<", r, i))), val(r, c), 0))  # noqa
        v.prove("the loop visits all of the windings", s_eq(A.ax_len(seq.axis), n))
        v.equal_arr("content before the loop", fr.env[name], (n, n), inv(0))

        def before(i):
            if at["depth"] == 1:
                at["outer"] = i
            fr.env[name] = Arr((Range(n), Range(n)), inv(i), "float")

        def check(i):
            v.equal_arr("content after an iteration", fr.env[name], (n, n), inv(s_add(i, 1)))
        at["depth"] += 1
        loops.by_invariant(ip, st, seq, fr, {name}, before, check)
        at["depth"] -= 1
        fr.env[name] = Arr((Range(n), Range(n)), inv(n), "float")
        return True
    v.loop(M + ":_get_matrix_coupling", handler)
    r = v.call(M, "_get_matrix_coupling", n, a)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.equal_arr("coupling factors", r, [n, n], val)


def parse(dc):
    def run(v):
        n, s = v.int("n_winding", lo=0), v.int("n_solution", lo=0)
        z = v.array("Z_mat", (n, n), "complex")
        fz = z.fn
        freq = 0 if dc else v.real("freq", gt=0)
        v.assume(A.forall([Range(n), Range(n)], lambda i, j: b_not(s_eq(s_real(fz(i, j)), 0))))
        calls = []

        def cpl(n_, a):
            v.prove("one coupling factor per pair of windings", s_eq(n_, n))
            calls.append(a)
            return T("coupling", len(calls) - 1)
        v.override(M + ":_get_matrix_coupling", cpl)
        r = v.call(M, "_get_matrix_parse", n, s, freq, z)
        v.prove("no error", v.raised is None)
        if v.raised:
            return
        w = s_mul(s_mul(2, PI), freq)
        v.equal_arr("impedance matrix", r["Z_mat"], [n, n], fz)
        v.equal_arr("resistance: real part", r["R_mat"], [n, n], lambda i, j: s_real(fz(i, j)))
        if not dc:
            v.equal_arr("inductance: imaginary part over the angular frequency", r["L_mat"], [n, n], lambda i, j: s_div(s_imag(fz(i, j)), w))
            v.equal_arr("quality factor: reactance over resistance", r["Q_mat"], [n, n], lambda i, j: s_div(s_imag(fz(i, j)), s_real(fz(i, j))))
        v.prove("size and frequency", b_and(s_eq(r["n_winding"], n), s_eq(r["n_solution"], s), s_eq(r["freq"], freq)))
        for k, f in (("k_R_mat", lambda i, j: s_real(fz(i, j))),) + (() if dc else (("k_L_mat", lambda i, j: s_div(s_imag(fz(i, j)), w)),)):
            t = r[k]
            v.prove("coupling factors", isinstance(t, Tok) and t.name == "coupling")
            v.equal_arr("coupling factors of the resistances" if k == "k_R_mat" else "coupling factors of the inductances", calls[t.args[0]], [n, n], f)
    spec("matrix._get_matrix_parse: " + ("zero frequency" if dc else "any other frequency"), [M + ":_get_matrix_parse"])(run)


parse(False)
parse(True)


@spec("matrix.get_matrix", [M + ":get_matrix"])
def whole(v):
    w = Wiring(v)
    w.stubs(M, "_get_matrix_solve", "_get_matrix_parse")
    t = Tok("terminal")
    r = v.call(M, "get_matrix", t)
    v.prove("no error", v.raised is None)
    x = T("_get_matrix_solve", t)
    w.check("the solution is parsed", r, T("_get_matrix_parse", x[0], x[1], x[2], x[3]))


@spec("matrix._get_symmetry_expand", [M + ":_get_symmetry_expand"])
def expand(v):
    n, s, p = v.int("n_winding", lo=1), v.int("n_solution", lo=0), v.int("n_perm", lo=0)
    a = v.array("data", (n, s), "complex")
    perm = v.array("symmetry", (p, n), "int")
    v.assume(A.forall([Range(p), Range(n)], lambda i, j: b_and(s_cmp("<=", 0, perm.fn(i, j)), s_cmp("<", perm.fn(i, j), n))))
    fa = a.fn
    r = v.call(M, "_get_symmetry_expand", a, perm)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("one row per winding, one column per permutation and solution", b_and(s_eq(A.ax_len(r.axes[0]), n), s_eq(A.ax_len(r.axes[1]), s_mul(p, s))))
    for i in v.each(Range(n)):
        for col in v.each(r.axes[1]):
            w = A.flat_idx(col)[-2:]
            v.prove("the columns are the permuted solutions", s_eq(r.fn(i, col), fa(perm.fn(w[0], i), w[1])))
            v.prove("the permutations are in order, the solutions in order inside of a permutation", s_eq(A.index_to_pos(r.axes[1], col), s_add(s_mul(w[0], s), w[1])))


@spec("matrix.get_symmetry", [M + ":get_symmetry"])
def symmetry(v):
    n, s, k = v.int("n_winding", lo=0), v.int("n_solution", lo=0), v.int("n_symmetry", lo=0)
    shape = [(v.int("n_row_" + x, lo=0), v.int("n_col_" + x, lo=0)) for x in "IV"]
    mats = [v.array(x + "_mat", u, "complex") for x, u in zip("IV", shape)]
    fm = [m.fn for m in mats]
    freq = v.real("freq")
    ncol = v.fun("n_col", 1)
    cur = [v.fun("expanded_" + x, 3, "complex") for x in "IV"]
    v.assume(b_and(s_eq(ncol(0), s), A.forall(Range(k), lambda i: s_cmp(">=", ncol(s_add(i, 1)), 0))))
    for x in range(2):
        a, b = v.c.ivar("a"), v.c.ivar("b")
        v.assume(z3.ForAll([a, b], zbool(s_eq(cur[x](0, a, b), fm[x](a, b))), patterns=[cur[x](0, a, b).re]))
    code_ = v.fun("symmetry", 1)
    syms = SList(Range(k), lambda i: SymStr(code_(i)))
    state = {"i": None}

    def exp(data, sym):
        """contract of _get_symmetry_expand: the next matrix of the same kind"""
        i = state["i"]
        if i is None or not isinstance(data, Arr):
            raise Unsupported("expansion")
        v.prove("the symmetry of the iteration is expanded", s_eq(str_term(sym), code_(i)))
        for x in range(2):
            if v.c.valid(b_and(*[s_eq(A.ax_len(u), q) for u, q in zip(data.axes, (n, ncol(i)))])) and all(v.c.valid(s_eq(data.fn(a, b), cur[x](i, a, b))) for a, b in A.each([Range(n), Range(ncol(i))])):
                return Arr((Range(n), Range(ncol(s_add(i, 1)))), lambda a, b: cur[x](s_add(i, 1), a, b), "complex")
        raise Unsupported("expanded matrix")

    def handler(ip, st, seq, fr):
        bound, mutated = loops.assigned_names(st.body)
        names = {}
        for u in sorted(bound | mutated):
            w = fr.env.get(u)
            for x in range(2):
                if isinstance(w, Arr) and v.c.valid(b_and(*[s_eq(A.ax_len(p), q) for p, q in zip(w.axes, (n, s))])) and all(v.c.valid(s_eq(w.fn(a, b), fm[x](a, b))) for a, b in A.each([Range(n), Range(s)])):
                    names[u] = x
        if sorted(names.values()) != [0, 1]:
            return False
        v.prove("all of the symmetries are expanded", s_eq(A.ax_len(seq.axis), k))

        def put(i):
            for u, x in names.items():
                fr.env[u] = Arr((Range(n), Range(ncol(i))), (lambda x: lambda a, b: cur[x](i, a, b))(x), "complex")

        def before(i):
            state["i"] = i
            put(i)

        def check(i):
            for u, x in names.items():
                v.equal_arr("both of the matrices are expanded", fr.env[u], (n, ncol(s_add(i, 1))), (lambda x: lambda a, b: cur[x](s_add(i, 1), a, b))(x))
        loops.by_invariant(ip, st, seq, fr, set(names), before, check)
        state["i"] = None
        put(k)
        return True
    v.override(M + ":_get_symmetry_expand", exp)
    v.loop(M + ":get_symmetry", handler)
    t = PDict({"n_winding": n, "n_solution": s, "freq": freq, "I_mat": mats[0], "V_mat": mats[1]})
    r = v.call(M, "get_symmetry", t, syms)
    good = b_and(*[b_and(s_eq(a, n), s_eq(b, s)) for a, b in shape])
    if v.raised:
        v.prove("an error is raised only for wrong shapes", b_not(good))
        return
    v.prove("wrong shapes are rejected", good)
    v.prove("number of windings and frequency", b_and(s_eq(r["n_winding"], n), s_eq(r["freq"], freq)))
    v.prove("number of solutions", s_eq(r["n_solution"], ncol(k)))
    for x, u in enumerate(("I_mat", "V_mat")):
        v.equal_arr("expanded " + u, r[u], [n, ncol(k)], (lambda x: lambda a, b: cur[x](k, a, b))(x))
    for x, u in enumerate(("I_mat", "V_mat")):
        v.equal_arr("the terminal data are not modified", t[u], shape[x], fm[x])


class Source:
    """sources of a solution: names, complex voltages and currents"""

    def __init__(self, v, name="source"):
        self.n = v.int("n_" + name, lo=0)
        self.name, self.where = v.fun(name, 1), v.fun("where_" + name, 1)
        self.V, self.I = v.fun("V_" + name, 1, "complex"), v.fun("I_" + name, 1, "complex")
        i = v.c.ivar("i")
        v.assume(z3.ForAll([i], zbool(b_implies(A.in_axis(Range(self.n), i), s_eq(self.where(self.name(i)), i))), patterns=[self.name(i)]))
        self.dict = SDict(Range(self.n), lambda i: SymStr(self.name(i)), lambda i: PDict({"freq": Opaque("freq"), "V": self.V(i), "I": self.I(i), "S": Opaque("S")}), name)

    def has(self, t):
        w = self.where(t)
        return b_and(A.in_axis(Range(self.n), w), s_eq(self.name(w), t))


@spec("matrix._get_extract_sweep", [M + ":_get_extract_sweep"])
def extract_sweep(v):
    n = v.int("n_winding", lo=0)
    s = Source(v)
    src, sink = v.fun("src", 1), v.fun("sink", 1)
    lst = SList(Range(n), lambda i: PDict({"src": SymStr(src(i)), "sink": SymStr(sink(i))}))
    r = v.call(M, "_get_extract_sweep", s.dict, lst)
    known = A.forall(Range(n), lambda i: b_and(s.has(src(i)), s.has(sink(i))))
    if v.raised:
        v.prove("an error is raised only for an unknown terminal", b_not(known))
        return
    v.prove("unknown terminals are rejected", known)
    i = v.c.ivar("i")
    for t in (src, sink):
        v.assume(z3.ForAll([i], zbool(b_implies(A.in_axis(Range(n), i), s.has(t(i)))), patterns=[t(i)]))
    a, b = (lambda i: s.where(src(i))), (lambda i: s.where(sink(i)))
    v.equal_arr("voltage: difference between source and sink", r[0], [n], lambda i: s_sub(s.V(a(i)), s.V(b(i))))
    v.equal_arr("current: mean of the opposite currents", r[1], [n], lambda i: s_div(s_sub(s.I(a(i)), s.I(b(i))), 2))


def extract(same):
    def run(v):
        n, q, s = v.int("n_winding", lo=0), v.int("n_sweep", lo=0), v.int("n_solution", lo=1)
        name, where, pick = v.fun("sweep", 1), v.fun("where_sweep", 1), v.fun("pick", 1)
        i = v.c.ivar("i")
        v.assume(z3.ForAll([i], zbool(b_implies(A.in_axis(Range(q), i), s_eq(where(name(i)), i))), patterns=[name(i)]))
        f0 = v.real("freq", lo=0)
        fr = (lambda i: f0) if same else v.fun("freq", 1, "real")
        src = v.fun("source", 1)
        data = SDict(Range(q), lambda i: SymStr(name(i)), lambda i: PDict({"freq": fr(i), "source": SymStr(src(i))}))
        at = lambda j: where(pick(j))  # noqa
        v.assume(A.forall(Range(s), lambda j: b_and(A.in_axis(Range(q), at(j)), s_eq(name(at(j)), pick(j)))))
        V, C = v.fun("V", 2, "complex"), v.fun("I", 2, "complex")
        term = SList(Range(n), lambda i: Opaque("terminal"))
        close = v.bool("close")
        seen = []

        def sweep(x, t):
            """contract of _get_extract_sweep"""
            if t is not term:
                raise Unsupported("another list of terminals")
            w = str_term(x)
            return tuple(Arr((Range(n),), (lambda g: lambda i: g(w, i))(g), "complex") for g in (V, C))

        def allclose(a, b, **k):
            if k:
                raise Unsupported("tolerance of the comparison")
            a, b = A.as_arr(a), A.as_arr(b)
            if (a.ndim, b.ndim) != (1, 0):
                raise Unsupported("comparison")
            v.equal_arr("the frequencies are compared", a, [s], lambda j: fr(at(j)))
            x = b.fn()
            seen.append(x)
            v.c.assume(s_eq(close, A.forall(Range(s), lambda j: b_and(s_cmp("<=", s_sub(fr(at(j)), x), TOL(x)), s_cmp("<=", s_sub(x, fr(at(j))), TOL(x))))))
            return close
        v.override(M + ":_get_extract_sweep", sweep)
        v.override("numpy.allclose", allclose)
        r = v.call(M, "get_extract", PDict({"data_init": PDict({}), "data_sweep": data}), SList(Range(s), lambda j: SymStr(pick(j))), term)
        if v.raised:
            v.prove("an error is raised only for differing frequencies", False if same else b_not(close))
            return
        v.prove("differing frequencies are rejected", b_and(len(seen) == 1, close))
        v.prove("sizes", b_and(s_eq(r["n_winding"], n), s_eq(r["n_solution"], s)))
        if same:
            v.prove("frequency of the sweeps", s_eq(r["freq"], f0))
        v.equal_arr("voltages of the requested sweeps, in order", r["V_mat"], [n, s], lambda i, j: V(src(at(j)), i))
        v.equal_arr("currents of the requested sweeps, in order", r["I_mat"], [n, s], lambda i, j: C(src(at(j)), i))
    spec("matrix.get_extract: " + ("equal frequencies" if same else "any frequencies"), [M + ":get_extract"])(run)


def TOL(x):
    return s_add(Fraction(1, 10 ** 8), s_mul(Fraction(1, 10 ** 5), s_abs(x)))


extract(True)
extract(False)
