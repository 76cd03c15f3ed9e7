"""Refutation by instances: quantifiers are skolemized (constants) and instantiated at the ground terms.

Every formula which is added is a consequence of the facts (up to fresh constants for existential facts),
so that an unsatisfiable ground part proves the goal, and the ground part is decidable.
"""
import itertools
import time
import z3


class Ground:
    def __init__(self, terms=()):
        self.terms = []
        self.seen = set()
        self.ground = []
        self.univ = []        # guard, quantifier, instances
        self.memo = {}
        self.same, self.keep = {}, []
        self.pats = {}
        self.app, self.known, self.visited = [], 0, set()
        for t in terms:
            self.term(t)

    def term(self, t):
        t = z3.simplify(t) if z3.is_expr(t) else z3.IntVal(t)
        if t.sort() == z3.IntSort() and t.get_id() not in self.seen:
            self.seen.add(t.get_id())
            self.terms.append(t)

    def add(self, f):
        self.ground.append(self.conv(f, True))

    def conv(self, f, pol):
        """ground formula which is implied by f (pol) or implies f; its atoms have no quantifiers"""
        if z3.is_quantifier(f):
            n = f.num_vars()
            if f.is_lambda() or any(f.var_sort(k) != z3.IntSort() for k in range(n)):
                return z3.BoolVal(pol)
            # equal formulas share their witnesses and instances
            key = (f.is_exists(), n, pol, f.body().get_id())
            if key in self.same:
                return self.same[key]
            self.keep.append(f)
            if f.is_exists() == pol:
                # a witness
                ks = [z3.FreshConst(z3.IntSort(), "sk") for _ in range(n)]
                for k in ks:
                    self.term(k)
                self.same[key] = self.conv(z3.substitute_vars(f.body(), *reversed(ks)), pol)
                return self.same[key]
            b = z3.FreshConst(z3.BoolSort(), "gd")
            self.univ.append([b, f, set()])
            self.same[key] = b if pol else z3.Not(b)
            return self.same[key]
        if not has_quantifier(f, self.memo):
            return f
        if z3.is_not(f):
            return z3.Not(self.conv(f.arg(0), not pol))
        if z3.is_and(f):
            return z3.And([self.conv(g, pol) for g in f.children()])
        if z3.is_or(f):
            return z3.Or([self.conv(g, pol) for g in f.children()])
        if z3.is_implies(f):
            return z3.Or(z3.Not(self.conv(f.arg(0), not pol)), self.conv(f.arg(1), pol))
        if z3.is_eq(f) and f.arg(0).sort() == z3.BoolSort():
            a, b = f.children()
            if pol:
                return z3.And(z3.Or(z3.Not(self.conv(a, False)), self.conv(b, True)), z3.Or(z3.Not(self.conv(b, False)), self.conv(a, True)))
            return z3.Or(z3.And(self.conv(a, False), self.conv(b, False)), z3.Not(z3.Or(self.conv(a, True), self.conv(b, True))))
        if z3.is_app_of(f, z3.Z3_OP_ITE):
            a, b, c = f.children()
            return self.conv(z3.And(z3.Or(z3.Not(a), b), z3.Or(a, c)), pol)
        return z3.BoolVal(pol)

    def apps(self):
        """the applications of the ground part"""
        for g in self.ground[self.known:]:
            stack = [g]
            while stack:
                t = stack.pop()
                if t.get_id() in self.visited:
                    continue
                self.visited.add(t.get_id())
                if z3.is_app(t):
                    if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        self.app.append(t)
                    stack += t.children()
        self.known = len(self.ground)

    def round(self, model, most=12, free=False):
        """instances of the universal facts which are not true in the model (the oldest terms first);
        instances without any application of the ground part are only used if free"""
        self.apps()
        ev = lambda t: model.eval(t, model_completion=True)  # noqa
        have = set() if free else {(t.decl().name(),) + tuple(ev(x).get_id() for x in t.children()) for t in self.app}
        terms, vals = [], set()
        for k, t in enumerate(self.terms):
            v = ev(t)
            if v.get_id() not in vals:
                vals.add(v.get_id())
                terms.append((k, t))
        todo = []
        for u, (guard, f, done) in enumerate(self.univ):
            n = f.num_vars()
            if not z3.is_true(ev(guard)) or n > 3 or len(terms) ** n > 8000:
                continue
            for combo in itertools.product(terms, repeat=n):
                key = tuple(k for k, _ in combo)
                if key not in done:
                    todo.append((sum(key) + u, u, key, [t for _, t in combo]))
        todo.sort(key=lambda x: x[:3])
        new = 0
        for _, u, key, combo in todo:
            guard, f, done = self.univ[u]
            if not free:
                pats = self.patterns(f)
                vs = list(reversed(combo))
                if pats and not any((p.decl().name(),) + tuple(ev(z3.substitute_vars(x, *vs)).get_id() for x in p.children()) in have for p in pats):
                    continue
            g = z3.substitute_vars(f.body(), *reversed(combo))
            h = ev(g)
            # the guard means f (universal) or not f (existential)
            if z3.is_true(h) if f.is_forall() else z3.is_false(h):
                continue
            done.add(key)
            new += 1
            if f.is_forall():
                self.ground.append(z3.Or(z3.Not(guard), self.conv(g, True)))
            else:
                self.ground.append(z3.Or(z3.Not(guard), z3.Not(self.conv(g, False))))
            if new >= most:
                return new
        if not new and not free:
            return self.round(model, most, True)
        return new

    def patterns(self, f):
        """applications of the body to the bound variables"""
        if f.get_id() not in self.pats:
            self.keep.append(f)
            n, out, seen = f.num_vars(), [], set()

            def visit(t, depth):
                """lowest and highest free variable index of t (relative to f)"""
                if z3.is_var(t):
                    k = z3.get_var_index(t) - depth
                    return {k}
                if z3.is_quantifier(t):
                    return visit(t.body(), depth + t.num_vars())
                vs = set()
                for x in t.children():
                    vs |= visit(x, depth)
                if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and vs and min(vs) >= 0 and depth == 0 and t.get_id() not in seen:
                    seen.add(t.get_id())
                    out.append(t)
                return vs
            visit(f.body(), 0)
            self.pats[f.get_id()] = out
        return self.pats[f.get_id()]


def has_quantifier(f, memo):
    k = f.get_id()
    if k in memo:
        return memo[k][0]
    if z3.is_quantifier(f):
        r = True
    else:
        r = any(has_quantifier(g, memo) for g in f.children())
    memo[k] = (r, f)
    return r


PROD = {}


def abstract(f, memo):
    """f with the products of non constant factors as uninterpreted functions (a weaker fact, or a stronger goal)"""
    k = f.get_id()
    if k in memo:
        return memo[k][0]
    if z3.is_quantifier(f):
        ks = [z3.FreshConst(f.var_sort(i), "ab") for i in range(f.num_vars())]
        b = abstract(z3.substitute_vars(f.body(), *reversed(ks)), memo)
        r = z3.Lambda(ks, b) if f.is_lambda() else z3.ForAll(ks, b) if f.is_forall() else z3.Exists(ks, b)
    elif z3.is_app(f) and f.num_args():
        ch = [abstract(x, memo) for x in f.children()]
        num = lambda x: z3.is_int_value(x) or z3.is_rational_value(x)  # noqa
        if z3.is_app_of(f, z3.Z3_OP_MUL) and sum(not num(x) for x in ch) > 1:
            sym = sorted((x for x in ch if not num(x)), key=str)
            d = PROD.setdefault((len(sym), f.sort().name()), z3.Function("product_%d_%s" % (len(sym), f.sort().name()), *([f.sort()] * (len(sym) + 1))))
            r = d(*sym)
            for x in ch:
                if num(x):
                    r = x * r
        else:
            r = f.decl()(*ch)
    else:
        r = f
    memo[k] = (r, f)
    return r


def refute(facts, goal, terms=(), rounds=60, timeout=6000, budget=12.0):
    """True if instances of the facts and the negated goal are contradictory"""
    G = Ground(list(terms) + constants(goal))
    G.add(z3.Not(goal))
    seen = set()
    for f in facts:
        # bound variables are numbered: equal up to names
        k = (f.body().get_id(), f.num_vars()) if z3.is_quantifier(f) and f.is_forall() else f.get_id()
        if k not in seen:
            seen.add(k)
            G.add(f)
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", int(timeout))
    k = 0
    for _ in range(rounds):
        for g in G.ground[k:]:
            s.add(g)
        k = len(G.ground)
        r = s.check()
        if r == z3.unsat:
            return True
        if r != z3.sat or not G.round(s.model()) or time.time() - t0 > budget:
            return False
    return False


def constants(f):
    """integer constants of a formula"""
    out, seen, stack = [], set(), [f]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == z3.IntSort():
            out.append(t)
        stack += t.children()
    return sorted(out, key=str)[:6]
