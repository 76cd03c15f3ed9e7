"""Sums over symbolic index sets in normal form.

A sum is a symbol whose definition (bounds, guards, summand) is registered by content: index
variables which are free in the summand are arguments of the symbol, so that equal contents at
different indices are instances of one symbol.  The normal form is linear, eliminates Kronecker
deltas, flattens nested sums and pulls out factors which do not depend on the bound variables.
"""
import itertools as it
import z3
from vc.core import *  # noqa
from vc import arr as A
from vc.digits import solve_radix


def sum_over(axes, fn):
    """sum of fn over all indices of the axes (complex values are split)"""
    c = ctx()
    axes = [a if isinstance(a, A.Axis) else A.Range(a) for a in (axes if isinstance(axes, (list, tuple)) else [axes])]
    total = 0
    for idx in A.multi_cases(axes, "s"):
        vs = A.ivars_of(idx)
        with scope() as sc:
            for ax, i in zip(axes, idx):
                A.assume_in(ax, i)
            bounds, guards, ok = [], [], True
            for ax, i in zip(axes, idx):
                ok = ok and _bounds(ax, i, bounds, guards)
            val = fn(*idx) if ok else 0
            new = sc.new()
        if not ok:
            continue
        if isinstance(val, (NaN, NanIte)):
            size = A.ax_len(axes[0]) if len(axes) == 1 and isinstance(axes[0], A.Range) else None
            if not isinstance(size, int) or size > A.SMALL:
                raise Unsupported("sum of not-a-number")
            r = 0
            for k in range(size):
                r = s_add(r, fn(k))
            return r
        if is_bool(val):
            val = zint(val)
        facts = []
        for f in new:
            if any(occurs(v, f) for v in vs):
                facts.append(f)
            else:
                _add_fact(f)
        if isinstance(val, (Cx, complex)):
            val = to_cx(val)
            r = Cx(norm_sum(bounds, guards, val.re, facts), norm_sum(bounds, guards, val.im, facts))
        else:
            r = norm_sum(bounds, guards, val, facts)
        total = s_add(total, r)
    return total


def _bounds(ax, i, bounds, guards):
    """collect (variable, length) pairs and guards of a structured index; False: provably empty"""
    if isinstance(ax, A.Range):
        if is_z3(i) and is_ivar(i):
            bounds.append((i, ax.n))
        else:
            g = A.in_axis(ax, i)
            if g is False:
                return False
            if g is not True:
                guards.append(zbool(g))
        return True
    if isinstance(ax, A.Prod):
        return all([_bounds(d, u, bounds, guards) for u, d in zip(i, ax.axs)])
    if isinstance(ax, A.Sub):
        if not _bounds(ax.base, i, bounds, guards):
            return False
        g = ax.mask(i)
        if g is False:
            return False
        if g is not True:
            guards.append(zbool(g))
        return True
    if isinstance(ax, A.Cat):
        return _bounds(ax.parts[i[0]], i[1], bounds, guards)
    if isinstance(ax, A.Sigma):
        return _bounds(ax.base, i[0], bounds, guards) and _bounds(ax.fiber(i[0]), i[1], bounds, guards)
    raise Unsupported("sum axis")


def _strip(t):
    """push the coercion to reals inside of conditionals and sums"""
    if z3.is_to_real(t):
        u = t.arg(0)
        if z3.is_int_value(u):
            return z3.RealVal(u.as_long())
        if u.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(u.arg(0), _strip(z3.ToReal(u.arg(1))), _strip(z3.ToReal(u.arg(2))))
        if z3.is_add(u) or z3.is_mul(u):
            xs = [_strip(z3.ToReal(x)) for x in u.children()]
            r = xs[0]
            for x in xs[1:]:
                r = r + x if z3.is_add(u) else r * x
            return r
        if z3.is_sub(u):
            xs = [_strip(z3.ToReal(x)) for x in u.children()]
            return xs[0] - xs[1]
    return t


def _is_zero(t):
    return (z3.is_rational_value(t) and t.numerator_as_long() == 0) or (z3.is_int_value(t) and t.as_long() == 0)


MAXTERMS = 200


def _times(xs, ys):
    return [(c1 * c2, g1 + g2, f1 + f2) for c1, g1, f1 in xs for c2, g2, f2 in ys]


def _inverse(den):
    """coefficient and factors of the inverse of the term (the inverse of zero is zero: the inverse is multiplicative)"""
    e = expand(den)
    if len(e) != 1 or e[0][1] or e[0][0] == 0:
        return 1, [z3.RealVal(1) / den]
    out = []
    for f in e[0][2]:
        if f.decl().kind() == z3.Z3_OP_DIV and z3.is_rational_value(f.arg(0)) and pyval(f.arg(0)) == 1:
            out.append(f.arg(1))
        else:
            out.append(z3.RealVal(1) / (z3.ToReal(f) if z3.is_int(f) else f))
    return Fraction(1) / Fraction(e[0][0]), out


def expand(t):
    """list of (coefficient, guards, factors) whose sum is the term"""
    t = _strip(t)
    if z3.is_int_value(t):
        v = t.as_long()
        return [(v, [], [])] if v else []
    if z3.is_rational_value(t):
        v = pyval(t)
        return [(v, [], [])] if v else []
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        return [e for u in t.children() for e in expand(u)]
    if k == z3.Z3_OP_SUB:
        out = expand(t.arg(0))
        for u in t.children()[1:]:
            out = out + [(-c, g, f) for c, g, f in expand(u)]
        return out
    if k == z3.Z3_OP_UMINUS:
        return [(-c, g, f) for c, g, f in expand(t.arg(0))]
    if k == z3.Z3_OP_MUL:
        out = [(1, [], [])]
        for u in t.children():
            e = expand(u)
            if len(e) * len(out) > MAXTERMS:
                return [(1, [], [t])]
            out = _times(out, e)
        return out
    if k == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)) and 0 < t.arg(1).as_long() <= 4:
        out = [(1, [], [])]
        e = expand(t.arg(0))
        for _ in range(t.arg(1).as_long()):
            if len(e) * len(out) > MAXTERMS:
                return [(1, [], [t])]
            out = _times(out, e)
        return out
    if k == z3.Z3_OP_DIV:
        num = expand(t.arg(0))
        den = z3.simplify(t.arg(1))
        if z3.is_rational_value(den):
            v = pyval(den)
            if v != 0:
                return [(Fraction(c) / Fraction(v), g, f) for c, g, f in num]
        q, inv = _inverse(den)
        return [(Fraction(c) * q, g, f + inv) for c, g, f in num]
    if k == z3.Z3_OP_ITE:
        c, a, b = t.arg(0), t.arg(1), t.arg(2)
        if _is_zero(b):
            return [(q, conj(c) + g, f) for q, g, f in expand(a)]
        if _is_zero(a):
            return [(q, [z3.Not(c)] + g, f) for q, g, f in expand(b)]
        ea, eb = expand(a), expand(b)
        if len(ea) == 1 and len(eb) == 1 and not ea[0][1] and not eb[0][1] and not _has_eq(c):
            return [(1, [], [t])]
        nc = z3.simplify(z3.Not(c))
        return [(q, conj(c) + g, f) for q, g, f in ea] + [(q, [nc] + g, f) for q, g, f in eb]
    return [(1, [], [t])]


def poly_key(t, cache=None):
    """normal form of an application: its arguments are brought to a polynomial form"""
    cache = {} if cache is None else cache
    k = t.get_id()
    if k not in cache:
        cache[k] = (_poly_key(t, cache), t)
    return cache[k][0]


def _poly_key(t, cache):
    if t.num_args() == 0 or t.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DIV):
        return t.get_id() if t.num_args() == 0 else ("term", t.get_id())
    if t.decl().kind() == z3.Z3_OP_DIV:
        return ("inv",) + tuple(poly_form(u, cache) for u in t.children())
    return (t.decl().name(),) + tuple(poly_form(u, cache) for u in t.children())


def poly_form(t, cache):
    """polynomial normal form over the applications which occur in the term"""
    if z3.is_bool(t):
        return ("bool", t.get_id())
    out = {}
    for q, gs, fs in expand(t):
        if gs:
            return ("term", t.get_id())
        m = tuple(sorted((str(poly_key(_strip(f), cache)) for f in fs)))
        out[m] = out.get(m, 0) + q
    return tuple(sorted((m, str(q)) for m, q in out.items() if q != 0))


def poly_equal(a, b):
    """the terms are equal as polynomials of congruent applications (sufficient)"""
    cache = {}
    try:
        return poly_form(z3.simplify(zreal(a) - zreal(b)), cache) == ()
    except z3.Z3Exception:
        return False


def vanishes(t, n):
    """the term is zero if the range of length n is empty (each of its parts has a sum over the range)"""
    c = ctx()
    for _, gs, fs in expand(t):
        ok = False
        for f in fs:
            if _is_sum(f):
                d = c.sums[f.decl().name()]
                mp = list(zip(d["params"], f.children()))
                if any(zint(subst_term(m, mp)).eq(n) for _, m in d["bounds"]):
                    ok = True
        if not ok:
            return False
    return True


def _has_eq(c):
    stack = [c]
    while stack:
        t = stack.pop()
        if z3.is_quantifier(t):
            continue
        if z3.is_eq(t):
            return True
        stack += t.children()
    return False


def conj(g):
    if isinstance(g, bool):
        return [] if g else [z3.BoolVal(False)]
    if z3.is_and(g):
        return [x for u in g.children() for x in conj(u)]
    if z3.is_true(g):
        return []
    return [g]


def _solve_inj(g, v):
    """equation f(.., v) == e with a registered injective function: v = f^-1(.., e)"""
    if not z3.is_eq(g) or not z3.is_int(g.arg(0)):
        return None
    for x, y in ((g.arg(0), g.arg(1)), (g.arg(1), g.arg(0))):
        inv = ctx().injective.get(x.decl().name()) if z3.is_app(x) else None
        if inv is None or x.num_args() == 0:
            continue
        ch = x.children()
        if ch[-1].eq(v) and not any(occurs(v, u) for u in ch[:-1]) and not occurs(v, y):
            return inv(*(ch[:-1] + [y]))
    return None


def _solve_for(g, v):
    """equation g gives v = term (without v)"""
    if not z3.is_eq(g) or not z3.is_int(g.arg(0)):
        return None
    a, b = g.arg(0), g.arg(1)
    for x, y in ((a, b), (b, a)):
        if x.eq(v) and not occurs(v, y):
            return y
    if not occurs(v, g):
        return None
    d = z3.simplify(a - b, som=True)
    terms = d.children() if z3.is_add(d) else [d]
    coef, rest = 0, 0
    for t in terms:
        if t.eq(v):
            coef += 1
        elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(1).eq(v):
            coef += t.arg(0).as_long()
        elif occurs(v, t):
            return None
        else:
            rest = s_add(rest, t)
    if coef == 1:
        return zint(s_neg(rest))
    if coef == -1:
        return zint(rest)
    return None


def norm_sum(bounds, guards, val, facts):
    """normal form of a sum: linear, deltas eliminated, nested sums flattened, constants pulled out"""
    val = zint(val)
    is_int = z3.is_int(val)
    total = 0
    for coef, g, f in expand(val):
        gs = []
        for u in list(guards) + list(g):
            gs += conj(zbool(u))
        total = s_add(total, _term_sum(list(bounds), gs, coef, f, list(facts), is_int))
    return total


def _not_empty(g, n):
    """the guard says that the range of length n is not empty"""
    from vc.core import _zero_test
    z, m = _zero_test(g)
    return m is not None and not z and is_z3(n) and m.eq(n)


def _in_range(g, v, n):
    """the guard is the range of the variable"""
    neg = z3.is_not(g)
    u = g.arg(0) if neg else g
    if not z3.is_app(u) or u.num_args() != 2:
        return False
    x, y = u.arg(0), u.arg(1)
    k = u.decl().kind()
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
        x, y = y, x
        k = z3.Z3_OP_LE if k == z3.Z3_OP_GE else z3.Z3_OP_LT
    zero = lambda t: z3.is_int_value(t) and t.as_long() == 0  # noqa
    if k == z3.Z3_OP_LE:
        return (y.eq(v) and zero(x)) if not neg else (x.eq(n) and y.eq(v))
    if k == z3.Z3_OP_LT:
        return (x.eq(v) and y.eq(n)) if not neg else (x.eq(v) and zero(y))
    return False


def _term_sum(bounds, gs, coef, fs, facts, is_int):
    c = ctx()
    changed = True
    while changed:
        changed = False
        seen = []
        for g in gs:
            g = z3.simplify(g)
            if z3.is_false(g):
                return 0
            for u in conj(g):
                if not any(u.eq(h) for h in seen):
                    seen.append(u)
        gs = seen
        for g in gs:
            sol = solve_radix(g, bounds)
            if sol is None:
                continue
            rngs = []
            for v, e in sol:
                n = [m for w, m in bounds if w.eq(v)][0]
                rngs.append(b_and(s_cmp("<=", 0, e), s_cmp("<", e, n)))
            mp = sol
            rng = b_and(*rngs)
            if rng is False:
                return 0
            gs = [z3.substitute(h, *mp) for h in gs if h is not g] + conj(zbool(rng))
            fs = [z3.substitute(u, *mp) for u in fs]
            facts = [z3.Implies(zbool(rng), z3.substitute(u, *mp)) for u in facts]
            bounds = [(w, subst_term(m, mp)) for w, m in bounds if not any(w.eq(v) for v, _ in sol)]
            changed = True
            break
        if changed:
            continue
        for v, n in bounds:
            for g in gs:
                e = _solve_for(g, v)
                keep = []
                if e is None:
                    e = _solve_inj(g, v)
                    if e is None:
                        continue
                    keep = [g]
                mp = [(v, e)]
                rng = b_and(s_cmp("<=", 0, e), s_cmp("<", e, subst_term(n, mp)))
                gs = [z3.substitute(h, (v, e)) for h in [h for h in gs if h is not g] + keep]
                if rng is False:
                    return 0
                if rng is not True:
                    gs += conj(zbool(rng))
                fs = [z3.substitute(u, (v, e)) for u in fs]
                facts = [z3.Implies(zbool(rng), z3.substitute(u, (v, e))) if occurs(v, u) else u for u in facts]
                bounds = [(w, subst_term(m, mp)) for w, m in bounds if not w.eq(v)]
                changed = True
                break
            if changed:
                break
    # the ranges are not empty inside of the sum
    for _, n in bounds:
        gs = [g for g in gs if not _not_empty(g, n)]
    gs = [g for g in gs if not any(_in_range(g, v, zint(n)) for v, n in bounds)]
    bvs = [v for v, _ in bounds]

    def dep(t):
        return any(occurs(v, t) for v in bvs)
    outer_g = [g for g in gs if not dep(g)]
    gs = [g for g in gs if dep(g)]
    outer_f = [f for f in fs if not dep(f)]
    fs = [f for f in fs if dep(f)]
    for f in facts:
        if not dep(f):
            _add_fact(f)
    facts = [f for f in facts if dep(f)]
    r = coef
    for f in outer_f:
        r = s_mul(r, f)
    for v, n in list(bounds):
        # the summand does not depend on the variable
        others = [m for w, m in bounds if not w.eq(v)]
        if any(occurs(v, u) for u in gs + fs) or any(is_z3(m) and occurs(v, m) for m in others) or dep(zint(n)) or not c.valid(zint(n) >= 0):
            continue
        r = s_mul(r, n if is_int else zreal(n))
        bounds = [(w, m) for w, m in bounds if not w.eq(v)]
        facts = [u for u in facts if not occurs(v, u)]
    if bounds:
        inner = [f for f in fs if _is_sum(f)]
        if len(inner) == 1:
            d = c.sums[inner[0].decl().name()]
            b2, g2, v2, f2 = inst_sum(d, inner[0])
            others = [f for f in fs if f is not inner[0]]
            r2 = norm_sum(bounds + b2, gs + g2, _prod(others + [v2]), facts + f2)
            return s_ite(b_and(*outer_g), s_mul(r, r2), 0)
        r = s_mul(r, _mk_sum(bounds, gs, _prod(fs) if fs else (z3.IntVal(1) if is_int else z3.RealVal(1)), facts))
    return s_ite(b_and(*outer_g), r, 0)


def _add_fact(f):
    c = ctx()
    if not any(f.eq(g) for g in c.facts[-60:]):
        c.assume(f)


def _prod(fs):
    r = 1
    for f in (sorted(fs, key=lambda t: t.sexpr()) if len(fs) > 1 else fs):
        r = s_mul(r, f)
    return r


def _is_sum(t):
    return z3.is_app(t) and t.decl().name() in ctx().sums


def inst_sum(d, app):
    """bounds, guards, value, facts of a sum symbol applied to arguments (fresh bound variables)"""
    c = ctx()
    mp = [(p, a) for p, a in zip(d["params"], app.children())]
    fresh = []
    for v, n in d["bounds"]:
        w = c.ivar("s")
        fresh.append(w)
        mp.append((v, w))

    def sub(t):
        return subst_term(t, mp)
    b = [(w, sub(n)) for (v, n), w in zip(d["bounds"], fresh)]
    return b, [sub(g) for g in d["guards"]], sub(d["val"]), [sub(f) for f in d["facts"]]


def _flat_mul(t):
    return [u for x in t.children() for u in _flat_mul(x)] if z3.is_mul(t) else [t]


def _arrange(bounds, gs, val):
    """bounds, guards and summand in an order which does not depend on the names of the variables"""
    best = None
    fs = _flat_mul(val)
    n = len(bounds)
    for perm in (it.permutations(range(n)) if n <= 3 else [tuple(range(n))]):
        b = [bounds[k] for k in perm]
        mp = [(v, z3.Int("@%d" % k)) for k, (v, _) in enumerate(b)]
        g = sorted([(z3.simplify(z3.substitute(u, *mp)).sexpr(), k) for k, u in enumerate(gs)])
        f = sorted([(z3.simplify(z3.substitute(u, *mp)).sexpr(), k) for k, u in enumerate(fs)])
        key = ([zint(m).sexpr() for _, m in b], [x for x, _ in g], [x for x, _ in f])
        if best is None or key < best[0]:
            best = (key, b, [gs[k] for _, k in g], [fs[k] for _, k in f])
    _, b, g, f = best
    r = f[0]
    for x in f[1:]:
        r = r * x
    return b, g, r


def _mk_sum(bounds, gs, val, facts):
    c = ctx()
    val = zint(val)
    bounds, gs, val = _arrange(list(bounds), list(gs), val)
    vs = [v for v, _ in bounds]
    is_int = z3.is_int(val)
    body = z3.If(z3.And(*gs) if gs else z3.BoolVal(True), val, z3.IntVal(0) if is_int else z3.RealVal(0))
    tup = z3.Function("tuple!%d" % len(bounds), *([I] * len(bounds) + [body.sort(), z3.BoolSort()]))(*([zint(n) for _, n in bounds] + [body]))
    key, free = A.skeleton(tup, vs)
    name = c.sumkeys.get(key)
    sort = I if is_int else R
    if name is None:
        name = c.fresh_name("SUM")
        c.sumkeys[key] = name
        c.sums[name] = dict(bounds=list(bounds), guards=list(gs), val=val, facts=list(facts), params=list(free), sort=sort)
    return z3.Function(name, *([I] * len(free) + [sort]))(*free) if free else z3.Const(name, sort)


def sum_apps(terms):
    """sum symbols which occur in the terms"""
    c = ctx()
    out, seen, stack = [], set(), [t for t in terms if is_z3(t)]
    while stack:
        t = stack.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().name() in c.sums:
                out.append(t)
            stack += t.children()
    return out


def sums_match(s, t):
    """equal summands by simplification and equivalent guards (some order of the variables)"""
    c = ctx()
    ds, dt = c.sums[s.decl().name()], c.sums[t.decl().name()]
    if len(ds["bounds"]) != len(dt["bounds"]) or ds["sort"] != dt["sort"]:
        return False
    b1, g1, v1, f1 = inst_sum(ds, s)
    b2, g2, v2, f2 = inst_sum(dt, t)
    n = len(b1)
    x = z3.simplify(v1, som=True)
    for perm in (it.permutations(range(n)) if n <= 3 else [tuple(range(n))]):
        mp = [(b2[perm[k]][0], b1[k][0]) for k in range(n)]
        if not x.eq(z3.simplify(z3.substitute(v2, *mp), som=True)):
            continue
        if not all(zint(b1[k][1]).eq(z3.substitute(zint(b2[perm[k]][1]), *mp)) for k in range(n)):
            continue
        with scope():
            for (v, m) in b1:
                c.assume(z3.And(v >= 0, v < zint(m)))
            p, q = z3.And(*g1), z3.And(*[z3.substitute(g, *mp) for g in g2])
            if z3.simplify(p).eq(z3.simplify(q)) or c.valid(p == q, timeout=1000):
                return True
    return False


def sums_equal(s, t, depth=0):
    """try to prove that two sum symbols are equal by equality of the summands (some order of the variables)"""
    c = ctx()
    ds, dt = c.sums[s.decl().name()], c.sums[t.decl().name()]
    if len(ds["bounds"]) != len(dt["bounds"]) or ds["sort"] != dt["sort"]:
        return False
    b1, g1, v1, f1 = inst_sum(ds, s)
    b2, g2, v2, f2 = inst_sum(dt, t)
    n = len(b1)
    zero = z3.IntVal(0) if ds["sort"] == I else z3.RealVal(0)
    for perm in (it.permutations(range(n)) if n <= 3 else [tuple(range(n))]):
        mp = [(b2[perm[k]][0], b1[k][0]) for k in range(n)]
        with scope():
            for (v, m) in b1:
                c.assume(z3.And(v >= 0, v < zint(m)))
            for f in f1 + [z3.substitute(f, *mp) for f in f2]:
                c.assume(f)
            if not all(c.equal_int(b1[k][1], z3.substitute(zint(b2[perm[k]][1]), *mp)) for k in range(n)):
                continue
            x = z3.If(z3.And(*g1), v1, zero) if g1 else v1
            y = z3.If(z3.And(*g2), v2, zero) if g2 else v2
            y = z3.substitute(y, *mp)
            if c.valid(x == y, timeout=4000):
                return True
            if depth < 2 and sum_apps([x]) and sum_apps([y]):
                if sum_lemmas([x == y], depth + 1) and c.valid(x == y, timeout=4000):
                    return True
    return False


def fewer_guards(app):
    """the same sum without the guards which follow from the others: app == result"""
    c = ctx()
    d = c.sums[app.decl().name()]
    if len(d["guards"]) < 2:
        return app
    b, g, v, f = inst_sum(d, app)
    keep = sorted(g, key=lambda u: -len(u.sexpr()))
    with scope():
        for (x, m) in b:
            c.assume(z3.And(x >= 0, x < zint(m)))
        for u in f:
            c.assume(u)
        for u in list(keep):
            rest = [w for w in keep if w is not u]
            if c.check(rest + [z3.Not(u)], timeout=200) == z3.unsat:
                keep = rest
    if len(keep) == len(g):
        return app
    return _mk_sum(b, keep, v, f)


def sum_lemmas(terms, depth=0):
    """add the provable equalities between the sums of the terms to the facts"""
    c = ctx()
    apps = sum_apps(terms)
    done = 0
    merged = set()
    if depth == 0 and 2 < len(apps) < 60:
        new = []
        for a in apps:
            b = fewer_guards(a)
            if not b.eq(a):
                c.assume(a == b)
                done += 1
            if not any(b.eq(u) for u in new):
                new.append(b)
        apps = new
        if done and c.valid(terms[0], timeout=4000):
            return done
    fast = 0
    more = []
    if depth == 0:
        # sums which are known to be related to those of the terms
        ids = {a.get_id() for a in apps}
        for fact in list(c.facts[-200:]):
            if z3.is_quantifier(fact):
                continue
            other = sum_apps([fact])
            if len(other) < 60 and any(a.get_id() in ids for a in other):
                more += [a for a in other if a.get_id() not in ids and not any(a.eq(u) for u in more)]
        more = more[:60]
    total = apps + more
    for i in range(len(apps)):
        for j in range(i + 1, len(total)):
            if i in merged or j in merged or total[i].sort() != total[j].sort() or total[i].eq(total[j]):
                continue
            if sums_match(total[i], total[j]):
                c.assume(total[i] == total[j])
                if j < len(apps):
                    merged.add(j)
                fast += 1
    done += fast
    if fast and depth == 0 and c.valid(terms[0], timeout=4000):
        return done
    for i in range(len(apps)):
        if i in merged:
            continue
        for j in range(i + 1, len(apps)):
            if j in merged:
                continue
            s, t = apps[i], apps[j]
            if s.sort() != t.sort() or s.eq(t):
                continue
            if sums_equal(s, t, depth):
                c.assume(s == t)
                merged.add(j)
                done += 1
    return done


def sum_nonneg(app):
    """0 <= sum when all the summands are provably non negative"""
    c = ctx()
    d = c.sums[app.decl().name()]
    b, g, v, f = inst_sum(d, app)
    with scope():
        for (x, m) in b:
            c.assume(z3.And(x >= 0, x < zint(m)))
        for u in g + f:
            c.assume(u)
        return c.valid(v >= 0, timeout=4000)
