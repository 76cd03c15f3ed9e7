"""Mixed-radix equations: sum_k c_k v_k + rest == 0 with c_0 = 1, c_{k+1} = c_k * d_k.

If 0 <= v_k + o_k < d_k for all but the last variable (o_k an offset), the equation has exactly
one solution: v_k + o_k is the digit k of the remaining term in the mixed radix system.
"""
import itertools
import z3
from vc.core import *  # noqa


def _coef(terms, v):
    """coefficient terms of v (list of (c, factors)), None if not linear"""
    out = []
    for c, fs in terms:
        k = [j for j, f in enumerate(fs) if f.eq(v)]
        if not k:
            if any(occurs(v, f) for f in fs):
                return None
            continue
        if len(k) > 1 or any(occurs(v, f) for j, f in enumerate(fs) if j != k[0]):
            return None
        out.append((c, [f for j, f in enumerate(fs) if j != k[0]]))
    return out


def solve_radix(g, bounds):
    """solution [(variable, term)] of an equation for at least two bound variables, or None"""
    from vc import arr as A
    if not z3.is_eq(g) or not z3.is_int(g.arg(0)):
        return None
    bvs = [(v, n) for v, n in bounds if occurs(v, g)]
    if len(bvs) < 2:
        return None
    terms = A.monomials(g.arg(0) - g.arg(1))
    cs = []
    for v, n in bvs:
        cf = _coef(terms, v)
        if cf is None or len(cf) != 1 or abs(cf[0][0]) != 1 or any(occurs(w, f) for w, _ in bvs for f in cf[0][1]):
            return None
        cs.append((v, n, cf[0][0], cf[0][1]))
    sg = cs[0][2]
    if any(x[2] != sg for x in cs):
        return None
    rest = [(-sg * c, fs) for c, fs in terms if not any(occurs(v, f) for v, _ in bvs for f in fs)]
    cs.sort(key=lambda x: len(x[3]))
    if cs[0][3]:
        return None
    dims = []
    for a, b in zip(cs, cs[1:]):
        left = list(b[3])
        for f in a[3]:
            for j, h in enumerate(left):
                if h.eq(f):
                    del left[j]
                    break
            else:
                return None
        if len(left) != 1:
            return None
        dims.append(left[0])
    c = ctx()
    w = A._rebuild(rest)
    offs = []
    for (v, n, _, _), d in zip(cs, dims):
        ok = [o for o in (0, 1, 2) if c.valid(b_and(s_cmp("<=", s_add(n, o), d), s_cmp("<", 0, d)))]
        if not ok:
            return None
        offs.append(ok)
    best = None
    for combo in itertools.product(*offs):
        w2 = w
        for o, x in zip(combo, cs):
            t = o
            for f in x[3]:
                t = s_mul(t, f)
            w2 = s_add(w2, t)
        dg = exact_digits(w2, dims)
        if dg is not None:
            best = (combo, dg)
            break
    if best is None:
        return None
    combo, dg = best
    combo = list(combo) + [0]
    return [(x[0], z3.simplify(zint(s_sub(u, o)))) for x, o, u in zip(cs, combo, dg)]


def exact_digits(w, dims):
    """digits of w when they are visible in the term: w = u0 + d0*(u1 + d1*(...)), else None"""
    from vc import arr as A
    c = ctx()
    rest = A.monomials(w)
    out = []
    for k in range(len(dims), 0, -1):
        q, rest = A._divide(rest, dims[:k])
        out.append(A._rebuild(q))
    out.append(A._rebuild(rest))
    out = tuple(reversed(out))
    for u, d in zip(out[:-1], dims):
        if not c.valid(b_and(s_cmp("<=", 0, u), s_cmp("<", u, d))):
            return None
    return out
