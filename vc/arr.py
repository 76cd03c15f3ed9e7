"""Symbolic arrays: axes of symbolic length, element functions, membership, sums.

An axis is one of
  Range(n)            positions 0..n-1
  Prod(dims, order)   the flattened product of several Range axes (index = tuple of terms)
  Sub(base, mask)     the positions of `base` selected by a mask, in order (never renumbered
                      unless a position is really asked for; index = index of the base)
  Cat(parts)          concatenation of a fixed number of axes (index = (k, index), k concrete)
  Sigma(base, fiber)  concatenation over a collection of symbolic length (index = (i, index))
An element function takes one index structure per axis.
"""
import itertools as it
import z3
from vc import core
from vc.core import *  # noqa


class Axis:
    pass


class Range(Axis):
    def __init__(self, n):
        self.n = pyval(n) if not isinstance(n, bool) else int(n)

    def __repr__(self):
        return "Range(%s)" % (self.n,)


class Prod(Axis):
    def __init__(self, dims, order):
        self.axs = tuple(d if isinstance(d, Axis) else Range(d) for d in dims)
        self.order = order

    @property
    def dims(self):
        return tuple(ax_len(a) for a in self.axs)

    def __repr__(self):
        return "Prod(%s,%s)" % (self.dims, self.order)


class Sub(Axis):
    def __init__(self, base, mask):
        self.base = base
        self.mask = mask

    def __repr__(self):
        return "Sub(%s)" % (self.base,)


class Cat(Axis):
    def __init__(self, parts):
        out = []
        for p in parts:
            out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return "Cat%s" % (self.parts,)


class Sigma(Axis):
    def __init__(self, base, fiber):
        self.base = base
        self.fiber = fiber

    def __repr__(self):
        return "Sigma(%s)" % (self.base,)


def p_dims(dims):
    r = 1
    for d in dims:
        r = s_mul(r, d)
    return r


def ax_len(ax):
    if isinstance(ax, Range):
        return ax.n
    if isinstance(ax, Prod):
        return p_dims(ax.dims)
    if isinstance(ax, Sub):
        L = sum_over([ax], lambda i: 1)
        if is_z3(L):
            c = ctx()
            n = ax_len(ax.base)
            c.assume(z3.And(L >= 0, L <= zint(n)))
        return L
    if isinstance(ax, Cat):
        if partition(ax) is not None:
            return ax.part_.n
        r = 0
        for p in ax.parts:
            r = s_add(r, ax_len(p))
        return r
    if isinstance(ax, Sigma):
        L = sum_over([ax.base], lambda i: ax_len(ax.fiber(i)))
        if is_z3(L):
            ctx().assume(L >= 0)
        return L
    raise Unsupported("axis")


SMALL = 8


def cases(ax, name="i"):
    """list of symbolic indices which together cover the axis (conditions by in_axis)"""
    c = ctx()
    if isinstance(ax, Range):
        if isinstance(ax.n, int) and ax.n <= SMALL:
            return list(range(ax.n))
        return [c.ivar(name)]
    if isinstance(ax, Prod):
        out = [()]
        for k, d in enumerate(ax.axs):
            out = [o + (v,) for o in out for v in cases(d, name + "xyzw"[k] if k < 4 else name)]
        return out
    if isinstance(ax, Sub):
        return cases(ax.base, name)
    if isinstance(ax, Cat):
        return [(k, i) for k, p in enumerate(ax.parts) for i in cases(p, name)]
    if isinstance(ax, Sigma):
        out = []
        for i in cases(ax.base, name):
            with scope():
                assume_in(ax.base, i)
                fib = ax.fiber(i)
            out += [(i, j) for j in cases(fib, name)]
        return out
    raise Unsupported("axis")


def in_axis(ax, i):
    if isinstance(ax, Range):
        return b_and(s_cmp("<=", 0, i), s_cmp("<", i, ax.n))
    if isinstance(ax, Prod):
        return b_and(*[in_axis(d, u) for u, d in zip(i, ax.axs)])
    if isinstance(ax, Sub):
        return b_and(in_axis(ax.base, i), ax.mask(i))
    if isinstance(ax, Cat):
        return in_axis(ax.parts[i[0]], i[1])
    if isinstance(ax, Sigma):
        return b_and(in_axis(ax.base, i[0]), in_axis(ax.fiber(i[0]), i[1]))
    raise Unsupported("axis")


def assume_in(ax, i):
    """assume that the index is valid (structurally, so that inner masks see the outer facts)"""
    c = ctx()
    if isinstance(ax, Sub):
        assume_in(ax.base, i)
        c.hyp(ax.mask(i))
    elif isinstance(ax, Cat):
        assume_in(ax.parts[i[0]], i[1])
    elif isinstance(ax, Sigma):
        assume_in(ax.base, i[0])
        assume_in(ax.fiber(i[0]), i[1])
    elif isinstance(ax, Prod):
        for d, u in zip(ax.axs, i):
            assume_in(d, u)
    else:
        c.hyp(in_axis(ax, i))


def flat_idx(idx):
    """all terms of an index structure"""
    if isinstance(idx, (tuple, list)):
        out = []
        for i in idx:
            out += flat_idx(i)
        return out
    return [idx]


def ivars_of(idx):
    return [v for v in flat_idx(idx) if is_z3(v) and is_ivar(v)]


def multi_cases(axes, name="i"):
    out = [()]
    for ax in axes:
        out = [o + (i,) for o in out for i in cases(ax, name)]
    return out


def each(axes, name="i"):
    """generic indices of the axes: a generator, the facts hold inside of the loop body"""
    if isinstance(axes, Axis):
        for i in cases(axes, name):
            with scope():
                assume_in(axes, i)
                yield i
        return
    axes = [a if isinstance(a, Axis) else Range(a) for a in axes]
    for idx in multi_cases(axes, name):
        with scope():
            for ax, i in zip(axes, idx):
                assume_in(ax, i)
            yield idx


def quant(kind, axes, fn, name="q"):
    """ForAll / Exists over all indices of the axes"""
    c = ctx()
    single = isinstance(axes, Axis)
    axl = [axes] if single else [a if isinstance(a, Axis) else Range(a) for a in axes]
    out = []
    for idx in multi_cases(axl, name):
        vs = ivars_of(idx)
        with scope() as sc:
            for ax, i in zip(axl, idx):
                assume_in(ax, i)
            rng = b_and(*[in_axis(ax, i) for ax, i in zip(axl, idx)])
            body = fn(*idx)
            new = sc.new()
        keep_facts(vs, new)
        if isinstance(body, bool) and isinstance(rng, bool):
            out.append(b_implies(rng, body) if kind == "all" else b_and(rng, body))
            continue
        if kind == "all":
            f = b_implies(rng, body)
        else:
            f = b_and(rng, body)
        if isinstance(f, bool):
            out.append(f)
            continue
        f = zbool(f)
        used = [v for v in vs if occurs(v, f)]
        if used:
            f = mk_forall(used, f) if kind == "all" else z3.Exists(used, f)
        out.append(f)
    return b_and(*out) if kind == "all" else b_or(*out)


def mk_forall(vs, f):
    """ForAll with the quantifiers of the conclusion pulled to the front"""
    vs = list(vs)
    if not vs:
        return f
    prem, pats = [], None
    while True:
        if z3.is_implies(f):
            prem.append(f.arg(0))
            f = f.arg(1)
        elif z3.is_quantifier(f) and f.is_forall():
            n = f.num_vars()
            ys = [z3.FreshConst(f.var_sort(k), "$p") for k in range(n)]
            inner = [z3.substitute_vars(f.pattern(k), *reversed(ys)) for k in range(f.num_patterns())]
            body = z3.substitute_vars(f.body(), *reversed(ys))
            vs += ys
            pats = inner if pats is None else None
            f = body
        else:
            break
    if prem:
        f = z3.Implies(z3.And(*prem) if len(prem) > 1 else prem[0], f)
    vs = [v for v in vs if occurs_const(v, f)]
    if pats and all(all(occurs_const(v, p) for v in vs) for p in pats):
        return z3.ForAll(vs, f, patterns=pats)
    return z3.ForAll(vs, f) if vs else f


def occurs_const(v, t):
    stack, seen = [t], set()
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if u.eq(v):
            return True
        if z3.is_quantifier(u):
            stack.append(u.body())
        elif z3.is_app(u):
            stack += u.children()
    return False


def forall(axes, fn, name="q"):
    return quant("all", axes, fn, name)


def exists(axes, fn, name="q"):
    return quant("ex", axes, fn, name)


def keep_facts(vs, new):
    """keep the facts found under bound variables (as universally quantified facts)"""
    c = ctx()
    seen = set()
    for f in new:
        if f.get_id() in seen:
            continue
        seen.add(f.get_id())
        fv = [v for v in vs if occurs(v, f)]
        if fv:
            f = mk_forall(fv, f)
        if not any(f.eq(h) for h in c.facts[-40:]):
            c.assume(f)


def ax_same(a, b):
    """provably the same axis (same positions, same order, same index structure)"""
    c = ctx()
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Range):
        return c.equal_int(a.n, b.n)
    if isinstance(a, Prod):
        return a.order == b.order and len(a.dims) == len(b.dims) and all(ax_same(u, v) for u, v in zip(a.axs, b.axs))
    if isinstance(a, Cat):
        return len(a.parts) == len(b.parts) and all(ax_same(p, q) for p, q in zip(a.parts, b.parts))
    if not ax_same(a.base, b.base):
        return False
    if isinstance(a, Sub):
        for i in each(a.base, "m"):
            if not c.valid(s_eq(a.mask(i), b.mask(i))):
                return False
        return True
    if isinstance(a, Sigma):
        for i in each(a.base, "m"):
            if not ax_same(a.fiber(i), b.fiber(i)):
                return False
        return True
    return False


# ------------------------------------------------------------------ mixed radix
def monomials(t):
    """polynomial normal form: list of (coefficient, [factors]) of an integer term"""
    t = z3.simplify(zint(t), som=True, flat=True)
    terms = t.children() if z3.is_add(t) else [t]
    out = []
    for u in terms:
        coef = 1
        facs = []
        fs = list(u.children()) if z3.is_mul(u) else [u]
        while fs:
            f = fs.pop(0)
            if z3.is_mul(f):
                fs = list(f.children()) + fs
            elif z3.is_int_value(f):
                coef *= f.as_long()
            elif f.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(f.arg(1)):
                facs += [f.arg(0)] * f.arg(1).as_long()
            else:
                facs.append(f)
        if coef != 0:
            out.append((coef, facs))
    return out


def _rebuild(terms):
    r = 0
    for coef, facs in terms:
        t = coef
        for f in facs:
            t = s_mul(t, f)
        r = s_add(r, t)
    return r


def _divide(terms, facs):
    """split into (quotient terms, rest) with respect to a product of atoms"""
    q, rest = [], []
    for coef, fs in terms:
        fs2 = list(fs)
        ok = True
        for f in facs:
            for j, g in enumerate(fs2):
                if g.eq(f):
                    del fs2[j]
                    break
            else:
                ok = False
                break
        if ok:
            q.append((coef, fs2))
        else:
            rest.append((coef, fs))
    return q, rest


def under(cond, f):
    """value of f where the condition holds"""
    c = ctx()
    if isinstance(cond, bool):
        return f()
    with scope() as sc:
        c.hyp(zbool(cond))
        r = f()
        new = sc.new()
    for u in new:
        c.assume(u)
    return r


def in_block(lo, x, hi):
    """lo <= x < hi; when x is a mixed radix number and the range one value of its top digit, the condition on the digit"""
    c = ctx()
    r = b_and(s_cmp("<=", lo, x), s_cmp("<", x, hi))
    if not is_z3(x) or isinstance(r, bool):
        return r
    n = monomials(s_sub(hi, lo))
    if len(n) != 1 or n[0][0] != 1 or not 2 <= len(n[0][1]) <= 4:
        return r
    fs = n[0][1]
    ql, rl = _divide(monomials(lo), fs)
    qx, rx = _divide(monomials(x), fs)
    if rl or not qx or not rx:
        return r
    for dims in it.permutations(fs):
        rest, out = rx, []
        for k in range(len(dims) - 1, 0, -1):
            q, rest = _divide(rest, dims[:k])
            out.append(q)
        out.append(rest)
        if all(out):
            if c.valid(b_and(*[b_and(s_cmp("<=", 0, _rebuild(u)), s_cmp("<", _rebuild(u), d)) for u, d in zip(reversed(out), dims)]), timeout=1000):
                return s_eq(_rebuild(qx), _rebuild(ql))
    return r


def _factors(d):
    """atomic factors of a product of symbols"""
    m = monomials(d)
    return m[0][1] if len(m) == 1 and m[0][0] == 1 else [d]


def digits(w, dims, inside=False):
    """F-order mixed radix digits of w (x fastest); inside: w is known to be in the range of the digits"""
    c = ctx()
    if inside and is_z3(w) and len(dims) > 1 and all(is_z3(d) for d in dims):
        q, rest = _divide(monomials(w), [f for d in dims for f in _factors(d)])
        if q and rest:
            w2 = _rebuild(rest)
            out = digits(w2, dims) if is_z3(w2) else None
            if out and c.valid(b_and(*[b_and(s_cmp("<=", 0, u), s_cmp("<", u, d)) for u, d in zip(out, dims)]), timeout=1000):
                return out
    dims = [pyval(d) for d in dims]
    if isinstance(w, int) and all(isinstance(d, int) for d in dims):
        out = []
        for d in dims[:-1]:
            out.append(w % d)
            w //= d
        out.append(w)
        return tuple(out)
    if len(dims) == 1:
        return (w,)
    if all(is_z3(d) for d in dims[:-1]):
        terms = monomials(w)
        out = []
        rest = terms
        ok = True
        atoms = [_factors(d) for d in dims[:-1]]
        for k in range(len(dims) - 1, 0, -1):
            q, rest = _divide(rest, [f for a in atoms[:k] for f in a])
            out.append(_rebuild(q))
        out.append(_rebuild(rest))
        out = tuple(reversed(out))
        cond = b_and(*[b_and(s_cmp("<=", 0, u), s_cmp("<", u, d)) for u, d in zip(out[:-1], dims[:-1])])
        key = (zint(w).get_id(), tuple(zint(d).get_id() for d in dims))
        opaque = all(isinstance(u, int) and u == 0 for u in out[1:])
        hidden = len(dims) > 2 and all(isinstance(u, int) and u == 0 for u in out[1:-1]) and isinstance(out[-1], int) and is_z3(out[0])
        if hidden and key not in c.nodigits and c.valid(b_and(s_cmp("<=", 0, out[0]), s_cmp("<", out[0], p_dims(dims[:-1]))), timeout=300):
            # only the top digit is visible
            return tuple(digits(out[0], dims[:-1])) + (out[-1],)
        if key not in c.nodigits:
            if c.valid(cond, timeout=300 if opaque else 2500):
                return out
            c.nodigits[key] = (w, dims)
    # uninterpreted digits with their defining facts
    key = "dig_" + "_".join(str(d) for d in dims[:-1])
    fs = [z3.Function("%s_%d" % (key, k), I, I) for k in range(len(dims))]
    w = zint(w)
    for k, f in enumerate(fs):
        c.digfam[f.name()] = (dims, k)
    out = tuple(f(w) for f in fs)
    nv = zint(p_dims(dims))
    val = 0
    mul = 1
    for u, d in zip(out, dims):
        val = s_add(val, s_mul(u, mul))
        mul = s_mul(mul, d)
    g = z3.And(w >= 0, w < nv)
    c.assume(z3.Implies(g, z3.And(w == zint(val), *[z3.And(u >= 0, u < zint(d)) for u, d in zip(out, dims)])))
    return out


def lin(idx, dims):
    r = 0
    m = 1
    for u, d in zip(idx, dims):
        r = s_add(r, s_mul(u, m))
        m = s_mul(m, d)
    return r



def prod_to_pos(ax, i):
    i = tuple(index_to_pos(d, u) for d, u in zip(ax.axs, i))
    if ax.order == "F":
        return lin(i, ax.dims)
    return lin(tuple(reversed(i)), tuple(reversed(ax.dims)))


def prod_from_pos(ax, k):
    if ax.order == "F":
        p = digits(k, ax.dims)
    else:
        p = tuple(reversed(digits(k, tuple(reversed(ax.dims)))))
    return tuple(pos_to_index(d, u) for d, u in zip(ax.axs, p))


def skeleton(term, bound):
    """content key of a term: bound variables and free index variables are canonised"""
    bs = [(v, z3.Int("@%d" % k)) for k, v in enumerate(bound)]
    t = z3.simplify(z3.substitute(term, *bs) if bs else term)
    free = free_ivars(t)
    t2 = z3.substitute(t, *[(v, z3.Int("#%d" % k)) for k, v in enumerate(free)]) if free else t
    return canon_text(t2), free


def canon_text(t):
    """text of a term with canonical names of the bound variables"""
    import re
    names, seen, stack = {}, set(), [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            for k in range(u.num_vars()):
                names.setdefault(u.var_name(k), "%%%d" % len(names))
            stack.append(u.body())
        elif z3.is_app(u):
            stack += reversed(u.children())
    txt = t.sexpr()
    if not names:
        return txt
    return re.sub(r"\|[^|]*\||[^\s()]+", lambda m: names.get(m.group(0).strip("|"), m.group(0)), txt)


def sel_symbols(sub):
    """position functions of a selection, named by its content"""
    c = ctx()
    i = canon_like(cases(sub.base, "m")[0])
    if len(cases(sub.base, "m")) != 1:
        raise Unsupported("positions in this selection")
    vs = ivars_of(i)
    with scope():
        assume_in(sub.base, i)
        m = zbool(b_and(in_axis(sub.base, i), sub.mask(i)))
    key, free = skeleton(m, vs)
    if key not in c.selkeys:
        c.selkeys[key] = c.fresh_name("sel")
    name = c.selkeys[key]
    nf = len(free)
    sel = [z3.Function("%s_%d" % (name, k), *([I] * nf + [I, I])) for k in range(len(vs))]
    rank = z3.Function("rank_" + name, *([I] * nf + [I] * len(vs) + [I]))
    c.subs["rank_" + name] = (sub, free, i)
    return sel, rank, free, i


def same_members(a, b):
    """two selections, of a range and of the grid with as many points (in the order of the range), have the same members"""
    if not isinstance(a, Sub) or not isinstance(b, Sub):
        return False
    if isinstance(a.base, Prod):
        a, b = b, a
    if not isinstance(a.base, Range) or not isinstance(b.base, Prod) or not all(isinstance(u, Range) for u in b.base.axs):
        return False
    if getattr(b, "flat_", None) is not None and b.flat_[0] is a:
        return b.flat_[1]
    c = ctx()
    ok = c.equal_int(a.base.n, p_dims(b.base.dims))
    if ok:
        for i in each(b.base, "m"):
            ok = ok and c.valid(s_eq(a.mask(prod_to_pos(b.base, i)), b.mask(i)))
    b.flat_ = (a, ok)
    return ok


def canon_like(i):
    return i


def rebuild_index(shape, terms):
    """index structure of the given shape with the index variables replaced, in order"""
    terms = list(terms)

    def go(s):
        if isinstance(s, tuple):
            return tuple(go(u) for u in s)
        if is_z3(s) and is_ivar(s):
            return terms.pop(0)
        return s
    return go(shape)


def sub_pos_to_index(sub, k, length=None):
    c = ctx()
    sel, rank, free, shape = sel_symbols(sub)
    if is_z3(k) and z3.is_app(k) and k.decl().eq(rank) and all(a.eq(b) for a, b in zip(k.children(), free)):
        # position of a known index
        i = rebuild_index(shape, k.children()[len(free):])
        if c.valid(b_and(in_axis(sub.base, i), sub.mask(i)), timeout=1000):
            return i
    elif is_z3(k) and z3.is_app(k) and k.decl().name() in c.subs:
        # position of a known index of the same selection
        other, ofree, oshape = c.subs[k.decl().name()]
        if all(a.eq(b) for a, b in zip(k.children(), ofree)) and same_members(sub, other):
            i = rebuild_index(oshape, k.children()[len(ofree):])
            if c.valid(b_and(in_axis(other.base, i), other.mask(i)), timeout=1000):
                return pos_to_index(sub.base, index_to_pos(other.base, i))
    tup = [f(*(free + [zint(k)])) for f in sel]
    i = rebuild_index(shape, tup)
    g = z3.And(zint(k) >= 0, zint(k) < zint(ax_len(sub) if length is None else length))
    with scope() as sc:
        c.hyp(g)
        b = zbool(b_and(in_axis(sub.base, i), sub.mask(i)))
        new = sc.new()
    for f in new:
        c.assume(f)
    c.assume(z3.Implies(g, b))
    c.assume(z3.Implies(g, rank(*(free + tup)) == zint(k)))
    return i


def sub_index_to_pos(sub, i):
    c = ctx()
    sel, rank, free, shape = sel_symbols(sub)
    tup = [zint(u) for u in flat_idx(i)] if len(flat_idx(i)) == len(sel) else None
    if tup is None:
        raise Unsupported("position of this index")
    k = rank(*(free + tup))
    g = zbool(b_and(in_axis(sub.base, i), sub.mask(i)))
    c.assume(z3.Implies(g, z3.And(k >= 0, k < zint(ax_len(sub)))))
    for f, u in zip(sel, tup):
        c.assume(z3.Implies(g, f(*(free + [k])) == u))
    return k


def partition(cat):
    """the range whose positions, in order, are the members of the parts: the parts are selections of one range,
    every position is in exactly one of them, and the positions of a part come before those of the next one"""
    got = getattr(cat, "part_", None)
    if got is not None:
        return got or None
    cat.part_ = False
    ps = cat.parts
    if len(ps) < 2 or not all(isinstance(p, Sub) and isinstance(p.base, Range) for p in ps) or not all(ax_same(ps[0].base, p.base) for p in ps[1:]):
        return None
    base = ps[0].base
    if isinstance(base.n, int) and base.n <= SMALL:
        return None
    c = ctx()
    # the answer is kept: it must not depend on the facts of a scope
    with core.outermost():
        for i in each(base, "m"):
            if not c.valid(b_or(*[p.mask(i) for p in ps])):
                return None
            for j in each(base, "m"):
                for a in range(len(ps)):
                    for b in range(a + 1, len(ps)):
                        if not c.valid(b_implies(b_and(ps[a].mask(i), ps[b].mask(j)), s_cmp("<", i, j))):
                            return None
    cat.part_ = base
    return base


def pos_to_index(ax, k):
    if isinstance(ax, Range):
        return k
    if isinstance(ax, Prod):
        return prod_from_pos(ax, k)
    for known in ctx().enumerations:
        i = known(ax, k)
        if i is not None:
            return i
    if isinstance(ax, Sub):
        return sub_pos_to_index(ax, k)
    if isinstance(ax, Cat):
        # a position which provably falls in one of the parts
        c = ctx()
        off = 0
        if partition(ax) is not None:
            for j, p in enumerate(ax.parts):
                if c.valid(b_and(in_axis(p.base, k), p.mask(k))):
                    return (j, k)
        for j, p in enumerate(ax.parts):
            n = ax_len(p)
            if c.valid(b_and(s_cmp("<=", off, k), s_cmp("<", k, s_add(off, n)))):
                return (j, pos_to_index(p, s_sub(k, off)))
            off = s_add(off, n)
    if isinstance(ax, Sigma):
        i = sub_pos_to_index(Sub(ax, lambda u: True), k, ax_len(ax))
        c = ctx()
        g = z3.And(zint(k) >= 0, zint(k) < zint(ax_len(ax)))
        try:
            with scope() as sc:
                c.hyp(g)
                e = zbool(s_eq(index_to_pos(ax, i), k))
                new = sc.new()
            for f in new:
                c.assume(f)
            c.assume(z3.Implies(g, e))
        except Unsupported:
            pass
        return i
    raise Unsupported("position lookup in %r" % (ax,))


def index_to_pos(ax, i):
    if isinstance(ax, Range):
        return i
    if isinstance(ax, Prod):
        return prod_to_pos(ax, i)
    if isinstance(ax, Sub):
        return sub_index_to_pos(ax, i)
    if isinstance(ax, Cat):
        if partition(ax) is not None:
            return i[1]
        off = 0
        for p in ax.parts[:i[0]]:
            off = s_add(off, ax_len(p))
        return s_add(off, index_to_pos(ax.parts[i[0]], i[1]))
    if isinstance(ax, Sigma):
        return s_add(prefix(ax, i[0]), index_to_pos(ax.fiber(i[0]), i[1]))
    raise Unsupported("position")


def prefix(ax, i):
    """number of positions before member i of a Sigma axis: a sum over a shorter range"""
    if not isinstance(ax.base, Range):
        raise Unsupported("position in nested collection")
    return sum_over([Range(i)], lambda k: ax_len(ax.fiber(k)))


# ------------------------------------------------------------------ arrays
RANK = {"bool": 0, "int": 1, "float": 2, "complex": 3}


def join_kind(a, b):
    return a if RANK[a] >= RANK[b] else b


def scalar_kind(x):
    if is_bool(x):
        return "bool"
    if isinstance(x, (Cx, complex)):
        return "complex"
    if isinstance(x, int) or (is_z3(x) and z3.is_int(x)):
        return "int"
    return "float"


class Arr:
    def __init__(self, axes, fn, kind="float", mem=None, sparse=False, tag=None):
        self.axes = tuple(a if isinstance(a, Axis) else Range(a) for a in axes)
        self.fn = fn
        self.kind = kind
        self.mem_ = mem
        self.sparse = sparse
        self.tag = tag
        self.meta = {}
        c = CTX[-1]
        self.birth = next(c.epoch) if c is not None else 0

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return tuple(ax_len(a) for a in self.axes)

    def copy(self):
        r = Arr(self.axes, self.fn, self.kind, self.mem_, self.sparse, self.tag)
        r.meta = dict(self.meta)
        return r

    def at(self, *idx):
        return self.fn(*idx)

    def assign(self, fn, mem=None):
        c = ctx()
        if c.loop_epochs and self.birth < c.loop_epochs[-1]:
            raise Unsupported("array of the surrounding scope modified in a loop")
        self.fn = fn
        self.mem_ = mem
        self.meta = {}

    def __repr__(self):
        return "Arr%s:%s" % (self.axes, self.kind)

    def is_empty(self):
        return any(isinstance(a, Range) and isinstance(a.n, int) and a.n == 0 for a in self.axes)


def mem(a, x):
    """membership of a value in an array"""
    if a.is_empty():
        return False
    if a.mem_ is not None:
        return a.mem_(x)
    return exists(list(a.axes), lambda *i: s_eq(a.fn(*i), x), "w")


def const_arr(shape, v, kind=None):
    return Arr(shape, lambda *i: v, kind or scalar_kind(v))


def as_arr(x):
    if isinstance(x, Arr):
        return x
    if is_scalar(x) or x.__class__ in SPECIAL:
        return Arr((), lambda: x, "float" if x.__class__ in SPECIAL else scalar_kind(x))
    if isinstance(x, (list, tuple)):
        items = [as_arr(u) for u in x]
        if not items:
            return Arr((Range(0),), lambda i: Poison("element of an empty array"), "float")
        nd = items[0].ndim
        if any(u.ndim != nd for u in items):
            raise Unsupported("ragged array")
        axes = items[0].axes
        for u in items[1:]:
            for p, q in zip(axes, u.axes):
                if not ax_same(p, q):
                    ctx().safe("stacked arrays have the same shape", s_eq(ax_len(p), ax_len(q)))
        kind = "bool"
        for u in items:
            kind = join_kind(kind, u.kind)
        fns = [u.fn for u in items]

        def fn(i, *rest):
            if isinstance(i, int):
                return fns[i](*rest)
            i = z3.simplify(i)
            if z3.is_int_value(i):
                return fns[i.as_long()](*rest)
            v = fns[-1](*rest)
            for k in range(len(fns) - 2, -1, -1):
                v = s_ite(i == k, fns[k](*rest), v)
            return v
        return Arr((Range(len(items)),) + axes, fn, kind)
    raise Unsupported("array of %r" % (type(x),))


def bcast(arrs):
    """numpy broadcasting; returns axes and adapted element functions"""
    c = ctx()
    nd = max(a.ndim for a in arrs)
    axes = []
    for k in range(nd):
        cand = []
        for a in arrs:
            j = k - (nd - a.ndim)
            if j >= 0:
                cand.append(a.axes[j])
        big = None
        for ax in cand:
            if isinstance(ax, Range) and isinstance(ax.n, int) and ax.n == 1:
                continue
            if big is None:
                big = ax
            elif not ax_same(big, ax):
                l1, l2 = ax_len(big), ax_len(ax)
                one1 = c.valid(s_eq(l1, 1))
                one2 = c.valid(s_eq(l2, 1))
                if one1:
                    big = ax
                elif not one2 and not same_members(big, ax):
                    c.safe("shapes agree", s_eq(l1, l2))
                    if isinstance(big, Range):
                        big = ax if not isinstance(ax, Range) else big
        axes.append(big if big is not None else cand[0])
    fns = []
    for a in arrs:
        f = a.fn
        off = nd - a.ndim
        maps = []
        for j, ax in enumerate(a.axes):
            tgt = axes[off + j]
            maps.append(index_map(tgt, ax))
        fns.append((lambda f, off, maps: lambda *i: f(*[(u if m is None else m(u)) for u, m in zip(i[off:], maps)]))(f, off, maps))
    return axes, fns


def index_map(tgt, ax):
    """map from an index of the axis tgt to the index of ax at the same position (None: identity)"""
    c = ctx()
    if tgt is ax:
        return None
    if isinstance(ax, Range) and isinstance(ax.n, int) and ax.n == 1 and not (isinstance(tgt, Range) and isinstance(tgt.n, int) and tgt.n == 1):
        return lambda i: 0
    if ax_same(tgt, ax):
        return None
    if c.valid(s_eq(ax_len(ax), 1)) and not c.valid(s_eq(ax_len(tgt), 1)):
        return lambda i: pos_to_index(ax, 0)
    return lambda i: pos_to_index(ax, index_to_pos(tgt, i))


def elementwise(op, *args, kind=None, mem=None):
    arrs = [as_arr(a) for a in args]
    if all(a.ndim == 0 for a in arrs):
        v = op(*[a.fn() for a in arrs])
        return v
    axes, fns = bcast(arrs)
    if kind is None:
        kind = "bool"
        for a in arrs:
            kind = join_kind(kind, a.kind)
    r = Arr(axes, lambda *i: op(*[f(*i) for f in fns]), kind)
    r.mem_ = mem
    r.sparse = any(a.sparse for a in arrs if a.ndim == 2)
    return r


def arr_add(a, b):
    m = None
    if isinstance(a, Arr) and is_num(b) and a.ndim == 1 and a.mem_ is not None and a.kind == "int":
        m0 = a.mem_
        m = lambda x: m0(s_sub(x, b))  # noqa
    if isinstance(b, Arr) and is_num(a) and b.ndim == 1 and b.mem_ is not None and b.kind == "int":
        m1 = b.mem_
        m = lambda x: m1(s_sub(x, a))  # noqa
    r = elementwise(s_add, a, b, mem=None)
    if isinstance(r, Arr):
        r.mem_ = m
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Arr) and x.ndim == 1 and x.kind == "int" and is_num(y) and x.meta.get("inv") is not None and r.kind == "int":
                r.meta["inv"] = (lambda inv0, y: lambda t: inv0(s_sub(t, y)))(x.meta["inv"], y)
        if r.kind == "bool":
            r.kind = "int"
    return r


def binop(op, a, b):
    a2 = a if isinstance(a, Arr) else (as_arr(a) if isinstance(a, (list, tuple)) else a)
    b2 = b if isinstance(b, Arr) else (as_arr(b) if isinstance(b, (list, tuple)) else b)
    if op == "+":
        return arr_add(a2, b2)
    if op == "-":
        if is_num(b2):
            return arr_add(a2, s_neg(b2))
        return elementwise(s_sub, a2, b2)
    if op == "*":
        return elementwise(s_mul, a2, b2)
    if op == "/":
        r = elementwise(s_div, a2, b2)
        if isinstance(r, Arr) and r.kind in ("int", "bool"):
            r.kind = "float"
        return r
    if op == "//":
        return elementwise(s_floordiv, a2, b2)
    if op == "%":
        return elementwise(s_mod, a2, b2)
    if op == "**":
        return elementwise(s_pow, a2, b2)
    if op == "==":
        return elementwise(s_eq, a2, b2, kind="bool")
    if op == "!=":
        return elementwise(lambda x, y: b_not(s_eq(x, y)), a2, b2, kind="bool")
    if op in ("<", "<=", ">", ">="):
        return elementwise(lambda x, y: s_cmp(op, x, y), a2, b2, kind="bool")
    if op == "&":
        return elementwise(lambda x, y: b_and(x, y), a2, b2, kind="bool")
    if op == "|":
        return elementwise(lambda x, y: b_or(x, y), a2, b2, kind="bool")
    raise Unsupported("operator " + op)


# ------------------------------------------------------------------ indexing
def _norm_bound(v, n, default):
    """python slice bound -> position clipped into [0, n] (step > 0)"""
    c = ctx()
    if v is None:
        return default
    if isinstance(v, int) and v < 0:
        r = s_add(n, v)
        if c.valid(s_cmp(">=", r, 0)):
            return r
        return s_max(r, 0)
    if isinstance(v, int) and isinstance(n, int):
        return min(v, n)
    if is_z3(v):
        if not c.valid(s_cmp(">=", v, 0)):
            # python semantics of a negative symbolic bound
            v = z3.If(zint(v) < 0, zint(s_max(s_add(n, v), 0)), zint(v))
    if c.valid(s_cmp("<=", v, n)):
        return v
    return s_min(v, n)


def slice_map(sl, n):
    """length and position map of a python slice on an axis of length n"""
    c = ctx()
    step = 1 if sl.step is None else sl.step
    if is_z3(step):
        step = pyval(z3.simplify(step))
    if step == 1:
        lo = _norm_bound(sl.start, n, 0)
        hi = _norm_bound(sl.stop, n, n)
        ln = s_sub(hi, lo)
        if is_z3(ln):
            ln = pyval(z3.simplify(ln, som=True))
        if not c.valid(s_cmp(">=", ln, 0)):
            ln = s_max(ln, 0)
        return ln, (lambda j: s_add(lo, j)), (lambda i: (b_and(s_cmp("<=", lo, i), s_cmp("<", i, hi)), s_sub(i, lo)))
    if step == -1:
        st = s_sub(n, 1) if sl.start is None else sl.start
        if isinstance(st, int) and st < 0:
            st = s_add(n, st)
        if not c.valid(s_cmp("<", st, n)):
            st = s_min(st, s_sub(n, 1))
        if sl.stop is None:
            en = -1
        else:
            en = sl.stop
            if isinstance(en, int) and en < 0:
                en = s_add(n, en)
        ln = s_sub(st, en)
        if is_z3(ln):
            ln = pyval(z3.simplify(ln, som=True))
        if not c.valid(s_cmp(">=", ln, 0)):
            ln = s_max(ln, 0)
        return ln, (lambda j: s_sub(st, j)), (lambda i: (b_and(s_cmp("<=", i, st), s_cmp(">", i, en)), s_sub(st, i)))
    raise Unsupported("slice step %r" % (step,))


def _is_full(sl):
    return isinstance(sl, slice) and sl.start is None and sl.stop is None and sl.step is None


def _norm_key(key, ndim):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    n_used = sum(1 for k in key if k is not None and k is not Ellipsis and not (isinstance(k, Arr) and k.kind == "bool" and k.ndim > 1))
    for k in key:
        if isinstance(k, Arr) and k.kind == "bool" and k.ndim > 1:
            n_used += k.ndim
    if any(k is Ellipsis for k in key):
        p = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key[p:p + 1] = [slice(None)] * (ndim - n_used)
    else:
        key += [slice(None)] * (ndim - n_used)
    out = []
    for k in key:
        if isinstance(k, (list,)):
            k = as_arr(k)
        if isinstance(k, range):
            if k.step != 1:
                raise Unsupported("range step")
            k = slice(k.start, k.stop)
        out.append(k)
    return out


def as_index_int(v, n, what="index"):
    c = ctx()
    if isinstance(v, int) and v < 0:
        v = s_add(n, v)
    if isinstance(v, int) and isinstance(n, int):
        if not 0 <= v < n:
            raise PyIndexError()
        return v
    c.safe("index in range", b_and(s_cmp("<=", 0, v), s_cmp("<", v, n)))
    return v


class PyIndexError(Exception):
    pass


def cat_slice(ax, sl):
    """slice of a concatenation which starts and stops at part boundaries"""
    c = ctx()
    offs = [0]
    for p in ax.parts:
        offs.append(s_add(offs[-1], ax_len(p)))
    lo = 0 if sl.start is None else sl.start
    hi = offs[-1] if sl.stop is None else sl.stop
    if isinstance(lo, int) and lo < 0 or isinstance(hi, int) and hi < 0:
        return None
    ja = [j for j, o in enumerate(offs) if c.equal_int(o, lo)]
    jb = [j for j, o in enumerate(offs) if c.equal_int(o, hi)]
    if not ja or not jb:
        return None
    a, b = ja[0], jb[-1]
    if b - a == 1:
        return ax.parts[a], (lambda i: (a, i))
    if b <= a:
        return Range(0), (lambda i: Poison("empty"))
    return Cat(ax.parts[a:b]), (lambda i: (i[0] + a, i[1]))


def uncat(a):
    """a one dimensional array over consecutive ranges, as an array over one range"""
    if a.ndim != 1 or not isinstance(a.axes[0], Cat) or not all(isinstance(p, Range) for p in a.axes[0].parts):
        return a
    parts, f = a.axes[0].parts, a.fn
    ends = []
    for p in parts:
        ends.append(s_add(ends[-1] if ends else 0, p.n))

    def fn(j):
        v = None
        for k in range(len(parts) - 1, -1, -1):
            u = f((k, s_sub(j, ends[k - 1]) if k else j))
            v = u if v is None else s_ite(s_cmp("<", j, ends[k]), u, v)
        return v
    r = Arr((Range(ends[-1]),), fn, a.kind, a.mem_)
    r.meta = {k: v for k, v in a.meta.items() if k in ("distinct", "sorted")}
    return r


def getitem(a, key):
    key = _norm_key(key, a.ndim)
    if a.ndim == 1 and len(key) == 1 and isinstance(key[0], Arr) and key[0].kind != "bool":
        a = uncat(a)
    if a.ndim == 1 and len(key) == 1 and isinstance(key[0], slice) and not _is_full(key[0]) and isinstance(a.axes[0], Cat) and (key[0].step not in (None, 1) or cat_slice(a.axes[0], key[0]) is None):
        a = uncat(a)
    # full mask on a multi-dimensional array
    for k in key:
        if isinstance(k, Arr) and k.kind == "bool" and k.ndim > 1:
            return _mask_nd(a, key)
    f = a.fn
    arrs = [k for k in key if isinstance(k, Arr) and not k.kind == "bool"]
    new_axes = []
    plan = []
    src = 0
    # broadcast of several integer index arrays
    if len([k for k in arrs if k.ndim >= 1]) > 1 or any(k.ndim > 1 for k in arrs):
        return _fancy_multi(a, key)
    mem_new = None
    for k in key:
        if k is None:
            new_axes.append(Range(1))
            plan.append(("new",))
            continue
        ax = a.axes[src]
        src += 1
        if isinstance(k, slice):
            if _is_full(k):
                new_axes.append(ax)
                plan.append(("id",))
                continue
            if isinstance(ax, Cat) and k.step in (None, 1):
                cut = cat_slice(ax, k)
                if cut is not None:
                    new_axes.append(cut[0])
                    plan.append(("map", cut[1]))
                    continue
            n = ax_len(ax)
            ln, fwd, _ = slice_map(k, n)
            if isinstance(ax, Range):
                new_axes.append(Range(ln))
                plan.append(("map", fwd))
            else:
                new_axes.append(Range(ln))
                plan.append(("map", (lambda ax, fwd: lambda j: pos_to_index(ax, fwd(j)))(ax, fwd)))
        elif isinstance(k, Arr) and k.kind == "bool":
            if k.ndim != 1:
                raise Unsupported("mask")
            new_axes.append(mask_axis(ax, k))
            plan.append(("id",))
        elif isinstance(k, Arr) and k.ndim == 1:
            kf = k.fn
            n = ax_len(ax)
            kax = k.axes[0]
            if isinstance(kax, Sub) and k.meta.get("identity") and ax_same(kax.base, ax if isinstance(ax, Range) else Range(ax_len(ax))):
                # selection by flatnonzero(mask): keep the axis as a selection
                if isinstance(ax, Range):
                    new_axes.append(Sub(ax, kax.mask))
                    plan.append(("id",))
                    continue
            ctx().safe("fancy index in range", forall(kax, (lambda kf, n: lambda u: b_and(s_cmp("<=", s_neg(n), kf(u)), s_cmp("<", kf(u), n)))(kf, n)))
            new_axes.append(kax)
            plan.append(("map", (lambda ax, kf, n: lambda u: pos_to_index(ax, wrap_neg(kf(u), n)))(ax, kf, n)))
        elif is_num(k) or (isinstance(k, Arr) and k.ndim == 0):
            if isinstance(k, Arr):
                k = k.fn()
            v = as_index_int(k, ax_len(ax))
            plan.append(("fix", pos_to_index(ax, v)))
        else:
            raise Unsupported("index %r" % (k,))
    def fn(*i):
        i = list(i)
        out = []
        for p in plan:
            if p[0] == "new":
                i.pop(0)
            elif p[0] == "id":
                out.append(i.pop(0))
            elif p[0] == "map":
                out.append(p[1](i.pop(0)))
            else:
                out.append(p[1])
        return f(*out)
    if not new_axes:
        return fn()
    r = Arr(new_axes, fn, a.kind)
    if a.ndim == 1 and len(key) == 1 and isinstance(key[0], Arr) and key[0].meta.get("perm") and ctx().equal_int(key[0].meta["perm"][0], ax_len(a.axes[0])):
        # a reordering has the same elements
        r.mem_ = lambda x: mem(a, x)
        r.meta["gens"] = a.meta.get("gens", [a])
        if a.meta.get("distinct"):
            r.meta["distinct"] = True
        if isinstance(a.axes[0], (Range, Sub)) and a.meta.get("inv") is not None:
            inv0, qm, ax0 = a.meta["inv"], key[0].meta["perm"][2], a.axes[0]
            r.meta["inv"] = lambda x: (inv0(x)[0], qm(zint(index_to_pos(ax0, inv0(x)[1]))))
        return r
    r.sparse = a.sparse and r.ndim == 2
    if a.ndim == 1 and len(key) == 1 and isinstance(key[0], Arr) and key[0].kind == "bool":
        r.meta = {k: v for k, v in a.meta.items() if k == "identity"}
        if a.mem_ is not None and a.meta.get("pos") is not None and isinstance(new_axes[0], Sub):
            m0, pos, mk = a.mem_, a.meta["pos"], new_axes[0].mask
            r.mem_ = lambda x: b_and(m0(x), mk(pos(x)))  # noqa
            r.meta["pos"] = pos
        elif a.meta.get("inv") is not None and isinstance(new_axes[0], Sub) and ax_same(new_axes[0].base, a.axes[0]):
            def part(x, inv0=a.meta["inv"], mk=new_axes[0].mask):
                ok, i = inv0(x)
                return b_and(ok, under(ok, lambda: mk(i))), i
            r.meta["inv"] = part
    return r


def wrap_neg(v, n):
    if isinstance(v, int):
        return v if v >= 0 else s_add(n, v)
    if ctx().valid(s_cmp(">=", v, 0)):
        return v
    return z3.If(zint(v) >= 0, zint(v), zint(s_add(n, v)))


def mask_axis(ax, k):
    kax = k.axes[0]
    kf = k.fn
    m = kf
    if kax is not ax and not ax_same(kax, ax):
        ctx().safe("mask length", s_eq(ax_len(kax), ax_len(ax)))
        conv = index_map(ax, kax)
        m = (lambda conv: lambda i: kf(i if conv is None else conv(i)))(conv)
    return sub_axis(ax, m)


def sub_axis(ax, m):
    """selection of an axis (nested selections are merged)"""
    if isinstance(ax, Sub):
        b0, m0 = ax.base, ax.mask
        return Sub(b0, lambda i: b_and(m0(i), m(i)))
    vals = []
    for i in cases(ax, "m"):
        with scope():
            assume_in(ax, i)
            vals.append(m(i))
    if vals and all((isinstance(v, bool) and v) or (is_z3(v) and z3.is_true(z3.simplify(zbool(v)))) for v in vals):
        return ax
    return Sub(ax, m)


def _fancy_multi(a, key):
    """several integer index arrays (broadcast together); all other keys are slices"""
    f = a.fn
    pos = [j for j, k in enumerate(key) if isinstance(k, Arr)]
    ints = [j for j, k in enumerate(key) if is_num(k)]
    if any(k is None for k in key) or any(isinstance(k, Arr) and k.kind == "bool" for k in key):
        raise Unsupported("mixed fancy indexing")
    adv = sorted(pos + ints)
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    idx_arrs = [as_arr(key[j]) for j in adv]
    axes, fns = bcast(idx_arrs)
    for j, fk in zip(adv, fns):
        n = ax_len(a.axes[j])
        ctx().safe("fancy index in range", forall(list(axes), (lambda fk, n: lambda *q: b_and(s_cmp("<=", s_neg(n), fk(*q)), s_cmp("<", fk(*q), n)))(fk, n)))
    others = []
    for j, k in enumerate(key):
        if j in adv:
            continue
        if _is_full(k):
            others.append((j, a.axes[j], None))
        else:
            ln, fwd, _ = slice_map(k, ax_len(a.axes[j]))
            ax = a.axes[j]
            others.append((j, Range(ln), (lambda ax, fwd: lambda u: pos_to_index(ax, fwd(u)))(ax, fwd)))
    nb = len(axes)
    first = adv[0] if contiguous else 0
    before = [o for o in others if o[0] < first] if contiguous else []
    after = [o for o in others if o not in before]
    new_axes = [o[1] for o in before] + list(axes) + [o[1] for o in after]

    def fn(*i):
        ib = i[:len(before)]
        im = i[len(before):len(before) + nb]
        ia = i[len(before) + nb:]
        out = [None] * a.ndim
        for (j, _, m), u in list(zip(before, ib)) + list(zip(after, ia)):
            out[j] = u if m is None else m(u)
        for j, fk in zip(adv, fns):
            n = ax_len(a.axes[j])
            out[j] = pos_to_index(a.axes[j], wrap_neg(fk(*im), n))
        return f(*out)
    return Arr(new_axes, fn, a.kind)


def _mask_nd(a, key):
    raise Unsupported("n-dimensional mask read")


def overwritten(cnd, new, old):
    """new value where the condition holds, old value elsewhere (which may have no content where it is overwritten)"""
    if isinstance(cnd, bool):
        return new() if cnd else old()
    try:
        prev = old()
    except Unwritten:
        if ctx().valid(cnd):
            return new()
        prev = under(b_not(cnd), old)
    if ctx().valid(b_not(cnd), timeout=500):
        return prev
    return s_ite(cnd, under(cnd, new), prev)


def setitem(a, key, val):
    """in place assignment; basic slices, masks, index arrays"""
    c = ctx()
    key = _norm_key(key, a.ndim)
    old = a.fn
    v = as_arr(val)
    # n-dimensional mask
    if len(key) == 1 and isinstance(key[0], Arr) and key[0].kind == "bool" and key[0].ndim == a.ndim and a.ndim > 1:
        if v.ndim != 0:
            raise Unsupported("array assignment through an n-d mask")
        mf0 = key[0].fn
        vv = v.fn
        conv = []
        for p, q in zip(a.axes, key[0].axes):
            if not ax_same(p, q):
                c.safe("mask shape", s_eq(ax_len(p), ax_len(q)))
            conv.append(None if ax_same(p, q) else (p, q))
        mf = lambda *i: mf0(*[(u if w is None else pos_to_index(w[1], index_to_pos(w[0], u))) for u, w in zip(i, conv)])  # noqa
        a.assign(lambda *i: overwritten(mf(*i), vv, lambda: old(*i)))
        return
    arrs = [k for k in key if isinstance(k, Arr) and k.kind != "bool" and k.ndim >= 1]
    if len(arrs) > 1 or any(k.ndim > 1 for k in arrs):
        return _scatter_multi(a, key, v)
    sel_axes = []
    tests = []     # per source axis: function of index -> (condition, index into value axis or None)
    for j, k in enumerate(key):
        ax = a.axes[j]
        if isinstance(k, slice):
            if _is_full(k):
                sel_axes.append(ax)
                tests.append(lambda i: (True, i))
            else:
                n = ax_len(ax)
                ln, fwd, inv = slice_map(k, n)
                sel_axes.append(Range(ln))
                tests.append((lambda ax, inv: lambda i: inv(index_to_pos(ax, i)))(ax, inv))
        elif isinstance(k, Arr) and k.kind == "bool":
            sub = mask_axis(ax, k)
            sel_axes.append(sub)
            if isinstance(sub, Sub):
                tests.append((lambda sub: lambda i: (sub.mask(i), i))(sub))
            else:
                tests.append(lambda i: (True, i))
        elif isinstance(k, Arr) and k.ndim == 1:
            kax = k.axes[0]
            if isinstance(kax, Sub) and k.meta.get("identity") and ax_same(kax.base, ax):
                sub = Sub(ax, kax.mask)
                sel_axes.append(sub)
                tests.append((lambda sub: lambda i: (sub.mask(i), i))(sub))
            else:
                pos = inverse_of(k)
                sel_axes.append(kax)
                tests.append((lambda pos, ax: lambda i: pos(index_to_pos(ax, i)))(pos, ax))
        elif is_num(k):
            vv = as_index_int(k, ax_len(ax))
            tests.append((lambda vv, ax: lambda i: (s_eq(index_to_pos(ax, i), vv), None))(vv, ax))
        else:
            raise Unsupported("assignment index")
    # broadcast the value to the selected axes
    if v.ndim > len(sel_axes):
        raise Unsupported("assignment shape")
    tgt = Arr(sel_axes, lambda *i: 0)
    if v.ndim:
        axes, fns = bcast([tgt, v])
        for p, q in zip(axes, sel_axes):
            if p is not q and not ax_same(p, q):
                c.safe("assigned shape agrees", s_eq(ax_len(p), ax_len(q)))
        vf0 = fns[1]
        conv = [None if ax_same(p, q) else (p, q) for p, q in zip(axes, sel_axes)]
        vf = lambda *i: vf0(*[(u if cv is None else pos_to_index(cv[0], index_to_pos(cv[1], u))) for u, cv in zip(i, conv)])  # noqa
    else:
        vf = lambda *i: v.fn()  # noqa

    def fn(*i):
        conds, idx = [], []
        for t, u in zip(tests, i):
            cnd, w = t(u)
            conds.append(cnd)
            if w is not None:
                idx.append(w)
        cnd = b_and(*conds)
        if isinstance(cnd, bool) and not cnd:
            return old(*i)
        return overwritten(cnd, lambda: vf(*idx), lambda: old(*i))
    a.assign(fn)
    if RANK[v.kind] > RANK[a.kind]:
        if a.kind in ("int", "bool") or v.kind == "complex":
            raise Unsupported("assignment would truncate %s to %s" % (v.kind, a.kind))


def inverse_of(k):
    """position of a value in an injective index array: value -> (present, index)"""
    inv = k.meta.get("inv")
    if inv is not None:
        return inv
    if k.meta.get("pos") is not None and k.mem_ is not None:
        pos, m = k.meta["pos"], k.mem_
        return lambda x: (m(x), pos(x))
    for n, at in ctx().inverses:
        if is_inverse(k, n, at):
            k.meta["inv"] = lambda x: (lambda h, j: (b_and(s_cmp("<=", 0, x), s_cmp("<", x, n), h), pos_to_index(k.axes[0], j)))(*at(x))
            return k.meta["inv"]
    raise Unsupported("scatter through an index array without known inverse")


def is_inverse(k, n, at):
    """the index array has distinct values in [0, n), which are those that at finds, at the positions of at"""
    c = ctx()
    if k.ndim != 1:
        return False
    ok = True
    for i in each(k.axes[0], "w"):
        x = k.fn(i)
        h, j = at(x)
        ok = ok and c.valid(b_and(s_cmp("<=", 0, x), s_cmp("<", x, n), h, s_eq(j, index_to_pos(k.axes[0], i))))
    for x in each(Range(n), "w"):
        h, j = at(x)
        ok = ok and c.valid(b_implies(h, b_and(s_cmp("<=", 0, j), s_cmp("<", j, ax_len(k.axes[0])))))
        with scope():
            c.hyp(zbool(h))
            ok = ok and c.valid(s_eq(k.fn(pos_to_index(k.axes[0], j)), x))
    return ok


def _scatter_multi(a, key, v):
    """a[i1, i2, ...] = v with index arrays having a joint inverse"""
    arrs = [k for k in key if isinstance(k, Arr)]
    group = arrs[0].meta.get("group")
    if len(arrs) != a.ndim or group is None or any(k.meta.get("group") is not group for k in arrs):
        raise Unsupported("scatter through several index arrays")
    # group: (linear index array, dims): the arrays are the digits of the linear index
    src, dims = group
    if [k.meta.get("digit") for k in arrs] != list(range(a.ndim)):
        raise Unsupported("scatter digit order")
    if not all(ctx().equal_int(d, ax_len(x)) for d, x in zip(dims, a.axes)):
        raise Unsupported("scatter dims")
    inv = inverse_of(src)
    kax = src.axes[0]
    old = a.fn
    if v.ndim:
        axes, fns = bcast([Arr([kax], lambda i: 0), v])
        if not ax_same(axes[0], kax):
            ctx().safe("assigned shape agrees", s_eq(ax_len(axes[0]), ax_len(kax)))
            vf = lambda i: fns[1](pos_to_index(axes[0], index_to_pos(kax, i)))  # noqa
        else:
            vf = fns[1]
    else:
        vf = lambda i: v.fn()  # noqa

    def fn(*i):
        c, k = inv(lin(i, dims))
        return s_ite(c, vf(k), old(*i))
    a.assign(fn)
    a.meta["scatter"] = (src, dims, vf, old)



from vc.sums import poly_equal, sum_over, sum_apps, sum_lemmas, sums_equal, sum_nonneg  # noqa: E402


def getitem_idx(a, i):
    """a[i] for an index structure of the first axis"""
    f = a.fn
    if a.ndim == 1:
        return f(i)
    r = Arr(a.axes[1:], lambda *r: f(i, *r), a.kind)
    return r


def concat(arrs, axis=0):
    """concatenation along an axis"""
    arrs = [as_arr(a) for a in arrs]
    nd = arrs[0].ndim
    if axis < 0:
        axis += nd
    kind = "bool"
    for a in arrs:
        if a.ndim != nd:
            raise Unsupported("concatenation of different dimensions")
        if not (isinstance(a.axes[axis], Range) and isinstance(a.axes[axis].n, int) and a.axes[axis].n == 0 and nd == 1 and a.kind == "float" and False):
            kind = join_kind(kind, a.kind)
    live = [a for a in arrs if not (isinstance(a.axes[axis], Range) and isinstance(a.axes[axis].n, int) and a.axes[axis].n == 0)]
    if not live:
        return Arr(arrs[0].axes, arrs[0].fn, kind)
    base = live[0]
    convs = []
    for a in live:
        cv = []
        for k, (p, q) in enumerate(zip(a.axes, base.axes)):
            if k == axis:
                cv.append(None)
                continue
            if not ax_same(p, q):
                ctx().safe("concatenated shapes agree", s_eq(ax_len(p), ax_len(q)))
            cv.append(index_map(q, p))
        convs.append(cv)
    if len(live) == 1:
        r = Arr(base.axes, base.fn, kind, base.mem_)
        r.meta = dict(base.meta)
        return r
    # flatten concatenations of unit arrays with constant lengths
    if all(isinstance(a.axes[axis], Range) and isinstance(a.axes[axis].n, int) for a in live):
        offs = []
        tot = 0
        for a in live:
            offs.append(tot)
            tot += a.axes[axis].n
        table = [(k, j) for k, a in enumerate(live) for j in range(a.axes[axis].n)]
        axes = list(base.axes)
        axes[axis] = Range(tot)

        def elem(k, idx):
            return live[k].fn(*[(u if cv is None else cv(u)) for u, cv in zip(idx, convs[k])])

        def cfn(*idx):
            p = idx[axis]
            if is_z3(p):
                p = pyval(z3.simplify(p))
            if isinstance(p, int):
                k, j = table[p]
                return elem(k, idx[:axis] + (j,) + idx[axis + 1:])
            v = None
            for q in range(tot - 1, -1, -1):
                k, j = table[q]
                e = elem(k, idx[:axis] + (j,) + idx[axis + 1:])
                v = e if v is None else s_ite(s_eq(p, q), e, v)
            return v
        return Arr(axes, cfn, kind)
    parts = [a.axes[axis] for a in live]
    axes = list(base.axes)
    axes[axis] = Cat(parts)

    def fn(*idx):
        k, i = idx[axis]
        idx = idx[:axis] + (i,) + idx[axis + 1:]
        a = live[k]
        return a.fn(*[(u if cv is None else cv(u)) for u, cv in zip(idx, convs[k])])
    r = Arr(axes, fn, kind)
    if nd == 1:
        r.mem_ = lambda x: b_or(*[mem(a, x) for a in live])
    return r


def guarded_cat(items):
    """1-D arrays under exclusive guards, as one array"""
    arrs = [a for _, a in items]
    parts = [sub_axis(a.axes[0], (lambda g: lambda i: g)(g)) for g, a in items]
    kind = "bool"
    for a in arrs:
        kind = join_kind(kind, a.kind)
    r = Arr((Cat(parts),), lambda i: arrs[i[0]].fn(i[1]), kind)
    r.mem_ = lambda x: b_or(*[b_and(g, mem(a, x)) for g, a in items])
    return r
