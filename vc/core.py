"""Core of the verification-condition generator: scalars, solver context, obligations.

Scalars are Python numbers, z3 Int/Real/Bool terms or complex pairs `Cx`.
Machine integers and floating point numbers are treated as mathematical integers and reals
(this is listed as an assumption in the evidence).
"""
import itertools
import time
from fractions import Fraction
import z3


class Unsupported(Exception):
    """construct outside of the supported subset: the obligation is undecided"""


class PathAbort(Exception):
    """infeasible path"""


class Unwritten(Unsupported):
    """element of an array which was created without content"""


class Poison:
    """a value which must not be used"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Poison(%s)" % self.why


class Opaque:
    """an opaque immutable value (formatted strings, log objects, ...)"""

    def __init__(self, tag="opaque"):
        self.tag = tag

    def __repr__(self):
        return "Opaque(%s)" % self.tag


# ------------------------------------------------------------------ scalars
def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_bool(x):
    return isinstance(x, bool) or (is_z3(x) and z3.is_bool(x))


def is_num(x):
    return (isinstance(x, (int, float, complex, Fraction)) and not isinstance(x, bool)) or (is_z3(x) and z3.is_arith(x)) or isinstance(x, Cx)


def is_scalar(x):
    return is_bool(x) or is_num(x)


class Cx:
    """complex number as a pair of reals"""
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __repr__(self):
        return "Cx(%s, %s)" % (self.re, self.im)


NAN = object()


class NaN:
    """the not-a-number scalar (only propagated, compared structurally)"""

    def __repr__(self):
        return "NaN"


class Inf:
    """an infinite number (only compared, clamped and negated)"""

    def __init__(self, sign=1):
        self.sign = sign

    def __repr__(self):
        return "Inf(%d)" % self.sign


class NanIte:
    """conditional value where one of the branches is not-a-number"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


SPECIAL = frozenset((NaN, NanIte, Inf))


def special(f, *args):
    """operations with a number which may be undefined or infinite"""
    for k, a in enumerate(args):
        if isinstance(a, NanIte):
            u, w = (f(*[x if q == k else b for q, b in enumerate(args)]) for x in (a.a, a.b))
            return s_ite(a.c, u, w)
    comp = f.__name__ in ("<", "<=", ">", ">=", "eq")
    if any(isinstance(a, NaN) for a in args):
        return False if comp else NaN()
    k = f.__name__
    if k == "s_neg":
        return Inf(-args[0].sign)
    a, b = (args + (None,))[:2]
    if b is None or any(isinstance(x, (Cx, complex)) for x in args):
        raise Unsupported("operation with infinity")
    u, w = (x.sign if isinstance(x, Inf) else 0 for x in (a, b))
    if comp and u != w:
        return {"<": u < w, "<=": u <= w, ">": u > w, ">=": u >= w, "eq": False}[k]
    if comp:
        return k in ("<=", ">=", "eq")
    if k in ("s_max", "s_min"):
        first = (u >= w) if k == "s_max" else (u <= w)
        return a if first else b
    raise Unsupported("operation with infinity")


def to_cx(x):
    if isinstance(x, Cx):
        return x
    if isinstance(x, complex):
        return Cx(frac(x.real), frac(x.imag))
    return Cx(x, 0)


def frac(x):
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non finite constant")
        f = Fraction(repr(x))
        return int(f) if f.denominator == 1 else f
    return x


def zint(x):
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, float):
        return z3.RealVal(frac(x))
    if is_z3(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def zreal(x):
    x = zint(x)
    if z3.is_int(x):
        if z3.is_int_value(x):
            return z3.RealVal(x.as_long())
        return z3.ToReal(x)
    return x


def zbool(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if is_z3(x) and z3.is_bool(x):
        return x
    if isinstance(x, int):
        return z3.BoolVal(x != 0)
    if is_z3(x) and z3.is_arith(x):
        return x != 0
    raise Unsupported("truth value of %r" % (x,))


def pyval(x):
    """constant-fold a z3 value to a python value when possible"""
    if is_z3(x):
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            f = Fraction(x.numerator_as_long(), x.denominator_as_long())
            return f
    return x


def _lift(a, b):
    a = zint(a)
    b = zint(b)
    if z3.is_int(a) and z3.is_int(b):
        return a, b
    return zreal(a), zreal(b)


def isconst(x):
    return isinstance(x, (int, float, Fraction, bool)) and not is_z3(x)


def s_add(a, b):
    if a.__class__ in SPECIAL or b.__class__ in SPECIAL:
        return special(s_add, a, b)
    if isinstance(a, (Cx, complex)) or isinstance(b, (Cx, complex)):
        a, b = to_cx(a), to_cx(b)
        return Cx(s_add(a.re, b.re), s_add(a.im, b.im))
    if isconst(a) and isconst(b):
        return frac(a) + frac(b)
    if isconst(a) and a == 0 and not is_bool(b):
        return b
    if isconst(b) and b == 0 and not is_bool(a):
        return a
    a, b = _lift(a, b)
    return a + b


def s_neg(a):
    if a.__class__ in SPECIAL:
        return special(s_neg, a)
    if isinstance(a, (Cx, complex)):
        a = to_cx(a)
        return Cx(s_neg(a.re), s_neg(a.im))
    if isconst(a):
        return -frac(a)
    return -zint(a)


def s_sub(a, b):
    return s_add(a, s_neg(b))


def s_mul(a, b):
    if a.__class__ in SPECIAL or b.__class__ in SPECIAL:
        return special(s_mul, a, b)
    if isinstance(a, (Cx, complex)) or isinstance(b, (Cx, complex)):
        a, b = to_cx(a), to_cx(b)
        return Cx(s_sub(s_mul(a.re, b.re), s_mul(a.im, b.im)), s_add(s_mul(a.re, b.im), s_mul(a.im, b.re)))
    if isconst(a) and isconst(b):
        return frac(a) * frac(b)
    for u, v in ((a, b), (b, a)):
        if isconst(u):
            if u == 0:
                return 0
            if u == 1 and not is_bool(v):
                return v
    a, b = _lift(a, b)
    return a * b


def s_div(a, b):
    if a.__class__ in SPECIAL or b.__class__ in SPECIAL:
        return special(s_div, a, b)
    if isinstance(a, (Cx, complex)) or isinstance(b, (Cx, complex)):
        a, b = to_cx(a), to_cx(b)
        if isconst(b.im) and b.im == 0:
            return Cx(s_div(a.re, b.re), s_div(a.im, b.re))
        den = s_add(s_mul(b.re, b.re), s_mul(b.im, b.im))
        re = s_add(s_mul(a.re, b.re), s_mul(a.im, b.im))
        im = s_sub(s_mul(a.im, b.re), s_mul(a.re, b.im))
        return Cx(s_div(re, den), s_div(im, den))
    if isconst(a) and isconst(b):
        if b == 0:
            raise Unsupported("division by zero")
        r = Fraction(frac(a)) / Fraction(frac(b))
        return int(r) if r.denominator == 1 else r
    if isconst(a) and a == 0:
        return 0
    if isconst(b) and b == 1:
        return a if is_num(a) else zint(a)
    return zreal(a) / zreal(b)


def s_pow(a, k):
    if isinstance(k, (int, float, Fraction)) and frac(k) == int(frac(k)) and not is_z3(k):
        k = int(frac(k))
        if k < 0:
            return s_div(1, s_pow(a, -k))
        r = 1
        for _ in range(k):
            r = s_mul(r, a)
        return r
    if isconst(a) and a == -1:
        # parity of an integer exponent
        k = zint(k)
        if z3.is_int(k):
            return z3.If(k % 2 == 0, z3.IntVal(1), z3.IntVal(-1))
    raise Unsupported("power %s ** %s" % (a, k))


def s_eq(a, b):
    if a.__class__ in SPECIAL or b.__class__ in SPECIAL:
        return special(_eq, a, b)
    if isinstance(a, (Cx, complex)) or isinstance(b, (Cx, complex)):
        a, b = to_cx(a), to_cx(b)
        return b_and(s_eq(a.re, b.re), s_eq(a.im, b.im))
    if isconst(a) and isconst(b):
        return bool(frac(a) == frac(b))
    if is_bool(a) and is_bool(b):
        return zbool(a) == zbool(b)
    a, b = _lift(a, b)
    if a.eq(b):
        return True
    return a == b


def _named(name, f):
    f.__name__ = name
    return f


_eq = _named("eq", lambda a, b: s_eq(a, b))
_CMP = {op: _named(op, (lambda op: lambda a, b: s_cmp(op, a, b))(op)) for op in ("<", "<=", ">", ">=")}


def s_cmp(op, a, b):
    if a.__class__ in SPECIAL or b.__class__ in SPECIAL:
        return special(_CMP[op], a, b)
    if isinstance(a, (Cx, complex)) or isinstance(b, (Cx, complex)):
        raise Unsupported("ordering of complex numbers")
    if isconst(a) and isconst(b):
        a, b = frac(a), frac(b)
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    a, b = _lift(a, b)
    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]


def s_floordiv(a, b):
    if isconst(a) and isconst(b):
        return frac(a) // frac(b)
    a, b = zint(a), zint(b)
    if z3.is_int(a) and z3.is_int(b):
        return a / b
    raise Unsupported("floor division of reals")


def s_mod(a, b):
    if isconst(a) and isconst(b):
        return frac(a) % frac(b)
    a, b = zint(a), zint(b)
    if z3.is_int(a) and z3.is_int(b):
        return a % b
    raise Unsupported("modulo of reals")


def s_abs(a):
    if a.__class__ in SPECIAL:
        return special(s_abs, a)
    if isinstance(a, (Cx, complex)):
        a = to_cx(a)
        return s_sqrt(s_add(s_mul(a.re, a.re), s_mul(a.im, a.im)))
    if isconst(a):
        return abs(frac(a))
    a = zint(a)
    r = abs_deltas(a)
    if r is not None:
        return r
    return z3.If(a >= 0, a, -a)


def abs_deltas(a):
    """absolute value of a multiple of one indicator or of the difference of two indicators: |a-b| = a+b-2ab"""
    stack, n = [a], 0
    while stack:
        t = stack.pop()
        if t.decl().kind() == z3.Z3_OP_ITE:
            n += 1
        elif t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_TO_REAL):
            stack += t.children()
    if n not in (1, 2) or not CTX:
        return None
    from vc.sums import expand
    ps = expand(a)
    if len(ps) not in (1, 2) or any(f for _, _, f in ps):
        return None
    g = [z3.And(*u) if u else z3.BoolVal(True) for _, u, _ in ps]
    k = abs(ps[0][0])
    if len(ps) == 1:
        return s_ite(g[0], k, 0)
    if ps[0][0] + ps[1][0] != 0:
        return None
    r = s_add(s_ite(g[0], k, 0), s_ite(g[1], k, 0))
    if not ctx().valid(z3.Not(z3.And(*g)), timeout=400):
        r = s_sub(r, s_ite(z3.And(*g), 2 * k, 0))
    return r


def s_min(a, b):
    if a.__class__ in SPECIAL or b.__class__ in SPECIAL:
        return special(s_min, a, b)
    if isconst(a) and isconst(b):
        return min(frac(a), frac(b))
    a, b = _lift(a, b)
    return z3.If(a <= b, a, b)


def s_max(a, b):
    if a.__class__ in SPECIAL or b.__class__ in SPECIAL:
        return special(s_max, a, b)
    if isconst(a) and isconst(b):
        return max(frac(a), frac(b))
    a, b = _lift(a, b)
    return z3.If(a >= b, a, b)


def s_conj(a):
    if a.__class__ in SPECIAL:
        return special(s_conj, a)
    if isinstance(a, (Cx, complex)):
        a = to_cx(a)
        return Cx(a.re, s_neg(a.im))
    return a


def s_real(a):
    if a.__class__ in SPECIAL:
        return special(s_real, a)
    return to_cx(a).re


def s_imag(a):
    if a.__class__ in SPECIAL:
        return special(s_imag, a)
    return to_cx(a).im


def s_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    c = z3.simplify(c) if False else c
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, NaN) and isinstance(b, NaN):
        return a
    if isinstance(a, NaN) or isinstance(b, NaN):
        return NanIte(c, a, b)
    if isinstance(a, NanIte) or isinstance(b, NanIte):
        return NanIte(c, a, b)
    if isinstance(a, Inf) or isinstance(b, Inf):
        raise Unsupported("conditional infinity")
    if isinstance(a, (Cx, complex)) or isinstance(b, (Cx, complex)):
        a, b = to_cx(a), to_cx(b)
        return Cx(s_ite(c, a.re, b.re), s_ite(c, a.im, b.im))
    if is_bool(a) and is_bool(b):
        return z3.If(c, zbool(a), zbool(b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        if a == b:
            return a
        raise Unsupported("conditional non numeric value")
    a, b = _lift(a, b)
    if a.eq(b):
        return a
    if CTX and CTX[-1].sums:
        # an empty sum is zero
        z, n = _zero_test(c)
        if n is not None:
            zero, other = (a, b) if z else (b, a)
            if pyval(z3.simplify(zero)) == 0:
                from vc.sums import vanishes
                if vanishes(other, n):
                    return other
    return z3.If(c, a, b)


def _zero_test(c):
    """condition n == 0 (True, n) or n != 0 (False, n)"""
    if z3.is_and(c) and c.num_args() == 1:
        return _zero_test(c.arg(0))
    if z3.is_not(c):
        z, n = _zero_test(c.arg(0))
        return (not z), n
    if z3.is_eq(c) and c.arg(0).sort() == I:
        for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
            if z3.is_int_value(y) and y.as_long() == 0:
                return True, x
    return True, None


def nan_flag(x):
    """z3 condition under which the scalar is not-a-number"""
    if isinstance(x, NaN):
        return True
    if isinstance(x, NanIte):
        return s_ite(x.c, nan_flag(x.a), nan_flag(x.b))
    return False


def nan_value(x):
    if isinstance(x, NaN):
        return 0
    if isinstance(x, NanIte):
        return s_ite(x.c, nan_value(x.a), nan_value(x.b))
    return x


def b_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        out.append(zbool(x))
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        out.append(zbool(x))
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def b_not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(zbool(x))


def b_implies(a, b):
    return b_or(b_not(a), b)


R = z3.RealSort()
I = z3.IntSort()
SQRT = z3.Function("sqrt", R, R)
COS, SIN, EXP = (z3.Function(n, R, R) for n in ("cos", "sin", "exp"))


def s_trig(x, f, zero):
    if x.__class__ in SPECIAL:
        return special(_named("trig", lambda y: s_trig(y, f, zero)), x)
    if isinstance(x, (Cx, complex)):
        raise Unsupported("function of a complex number")
    y = zreal(x)
    if pyval(z3.simplify(y)) == 0:
        return zero
    return f(y)


def s_cos(x):
    return s_trig(x, COS, 1)


def s_sin(x):
    return s_trig(x, SIN, 0)


def s_exp(x):
    if x.__class__ in SPECIAL:
        return special(s_exp, x)
    if isinstance(x, (Cx, complex)):
        x = to_cx(x)
        r = s_trig(x.re, EXP, 1)
        return Cx(s_mul(r, s_cos(x.im)), s_mul(r, s_sin(x.im)))
    return s_trig(x, EXP, 1)

PI = z3.Real("pi")
MU0 = z3.Real("mu_0")


def s_sqrt(x):
    if x.__class__ in SPECIAL:
        return special(s_sqrt, x)
    if isinstance(x, (Cx, complex)):
        x = to_cx(x)
        if isconst(x.im) and x.im == 0:
            return s_sqrt(x.re)
        raise Unsupported("complex square root")
    x = zreal(x)
    y = z3.simplify(x, som=True)
    if z3.is_rational_value(y):
        if y.as_fraction() in (0, 1):
            return y
    return SQRT(x)


# ------------------------------------------------------------------ context
class scope:
    """facts added inside of the scope are removed at its end (fresh index variables, cases)"""

    def __enter__(self):
        c = self.c = ctx()
        self.n = len(c.facts)
        self.ver = c.ver
        self.trail = len(c.trail)
        c.starts.append(self.n)
        return self

    def new(self):
        """facts found in this scope, guarded by the hypotheses of the scope they depend on"""
        c = self.c
        out, hyps = [], []
        for f, h in zip(c.facts[self.n:], c.ishyp[self.n:]):
            if h:
                hyps.append(f)
            elif hyps:
                out.append(z3.Implies(z3.And(*hyps) if len(hyps) > 1 else hyps[0], f))
            else:
                out.append(f)
        return out

    def hyps(self):
        return [f for f, h in zip(self.c.facts[self.n:], self.c.ishyp[self.n:]) if h]

    def __exit__(self, *a):
        del self.c.facts[self.n:]
        del self.c.ishyp[self.n:]
        self.c.ver = self.ver
        self.c.starts.pop()
        del self.c.trail[self.trail:]
        return False


class outermost:
    """only the facts which hold outside of all the scopes"""

    def __enter__(self):
        c = self.c = ctx()
        self.saved = (c.facts, c.ishyp, c.ver, c.trail, c.starts)
        n = c.starts[0] if c.starts else len(c.facts)
        c.facts, c.ishyp, c.trail, c.starts = list(c.facts[:n]), list(c.ishyp[:n]), list(c.trail), []
        c.ver = next(c.vers)

    def __exit__(self, *a):
        self.c.facts, self.c.ishyp, self.c.ver, self.c.trail, self.c.starts = self.saved
        return False


class Ctx:
    """state of one path of the symbolic execution"""

    def __init__(self, timeout_ms=8000):
        self.facts = []
        self.ishyp = []
        self.starts = []
        self.ver = 0
        self.vers = itertools.count(1)
        self.names = {}
        self.decisions = []
        self.pos = 0
        self.pending = []
        self.timeout = timeout_ms
        self.safety = []          # (text, formula, facts) safety obligations met on the way
        self.assumed = set()      # names of library contracts that were used
        self.sums = {}            # symbol name -> sum description
        self.sumkeys = {}
        self.selkeys = {}
        self.inverses = []        # candidates for the inverse of index arrays: (length, value -> (present, position))
        self.subs = {}                  # rank symbols of selections
        self.enumerations = []          # lemmas: (axis, position) -> index or None
        self.nodigits = {}
        self.digfam = {}
        self.injective = {}       # injective input functions and their inverses
        self.queries = 0
        self.solver_s = 0.0
        self.cache = {}
        self.trail = []           # readable path description
        self.tainted = False      # an approximated construct was used: `sat` is not a refutation
        self.epoch = itertools.count(1)
        self.loop_epochs = []
        self.lemmas_used = set()
        self.assume(PI > 3)
        self.assume(PI < 4)
        self.assume(MU0 > 0)

    # -- fresh symbols; index variables (which may be bound or substituted) start with $
    def fresh_name(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return base if k == 0 else "%s!%d" % (base, k)

    def ivar(self, base="i"):
        return z3.Int(self.fresh_name("$" + base))

    def fresh(self, base, sort="int"):
        name = self.fresh_name(base)
        if sort == "int":
            return z3.Int(name)
        if sort == "real":
            return z3.Real(name)
        if sort == "bool":
            return z3.Bool(name)
        if sort == "complex":
            return Cx(z3.Real(name + ".re"), z3.Real(name + ".im"))
        raise Unsupported("sort " + sort)

    def assume(self, b, hyp=False):
        """add a fact; a hypothesis (hyp) restricts the scope, other facts follow from the hypotheses"""
        if isinstance(b, bool):
            if b:
                return
            b = z3.BoolVal(False)
        self.facts.append(zbool(b))
        self.ishyp.append(hyp)
        self.ver = next(self.vers)

    def hyp(self, b):
        self.assume(b, True)

    # -- solver
    def check(self, fs, timeout=None, facts=None):
        fs = [zbool(f) for f in fs]
        s = z3.Solver()
        s.set("timeout", int(timeout or self.timeout))
        for f in (self.facts if facts is None else facts):
            s.add(f)
        for f in fs:
            s.add(f)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.queries += 1
        self.solver_s += time.time() - t
        self.last_solver = s
        return r

    def valid(self, b, timeout=2500):
        """provable from the facts (engine decisions; never used to report a violation)"""
        if isinstance(b, bool):
            return b
        b = zbool(b)
        sb = z3.simplify(b)
        if z3.is_true(sb):
            return True
        if z3.is_false(sb):
            return False
        key = (b.get_id(), self.ver)
        if key in self.cache:
            return self.cache[key][0]
        easy = [f for f in self.facts if simple_fact(f)]
        r = simple_fact(b) and self.check([z3.Not(b)], timeout=min(timeout, 500), facts=easy) == z3.unsat
        r = r or self.check([z3.Not(b)], timeout=timeout) == z3.unsat
        self.cache[key] = (r, b)
        return r

    def equal_int(self, a, b):
        r = s_eq(a, b)
        if isinstance(r, bool):
            return r
        d = z3.simplify(zint(a) - zint(b), som=True)
        if z3.is_int_value(d):
            return d.as_long() == 0
        return self.valid(r)

    def safe(self, text, cond):
        """a safety obligation of the executed code (index in range, shapes agree, ...)"""
        if isinstance(cond, bool) and cond:
            return
        self.safety.append((text, cond, list(self.facts)))

    # -- branching: the executed path is driven by a list of decisions
    def truth(self, cond, what=""):
        if isinstance(cond, bool):
            return cond
        cond = zbool(cond)
        sc = z3.simplify(cond)
        if z3.is_true(sc):
            return True
        if z3.is_false(sc):
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
        else:
            can_t = self.check([cond], timeout=700) != z3.unsat
            can_f = self.check([z3.Not(cond)], timeout=700) != z3.unsat
            if can_t and can_f:
                d = True
                self.pending.append(self.decisions[:self.pos] + [False])
            elif can_t:
                d = True
            elif can_f:
                d = False
            else:
                raise PathAbort()
            self.decisions.append(d)
            self.pos += 1
        self.assume(cond if d else z3.Not(cond), True)
        self.trail.append(("" if d else "not ") + (what or str(sc)[:60]))
        return d


CTX = [None]


def ctx():
    return CTX[-1]


_SIMPLE = {}


def simple_fact(f):
    """linear and quantifier free: such facts are tried first"""
    k = f.get_id()
    if k in _SIMPLE:
        return _SIMPLE[k][0]
    r, seen, stack = True, set(), [f]
    while stack and r:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            r = False
        elif z3.is_app(t):
            kd = t.decl().kind()
            if kd == z3.Z3_OP_MUL:
                r = sum(0 if z3.is_int_value(u) or z3.is_rational_value(u) else 1 for u in t.children()) <= 1
            elif kd in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV, z3.Z3_OP_POWER):
                r = z3.is_int_value(t.arg(1)) or z3.is_rational_value(t.arg(1))
            stack += t.children()
    _SIMPLE[k] = (r, f)
    return r


# ------------------------------------------------------------------ terms
def is_ivar(t):
    return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith("$")


_FV = {}


def free_ivars(t):
    """index variables of a term, in order of first occurrence"""
    if not is_z3(t):
        return []
    k = t.get_id()
    if k in _FV:
        return _FV[k][0]
    out, seen, stack = [], set(), [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if is_ivar(u):
            out.append(u)
        elif z3.is_quantifier(u):
            stack.append(u.body())
        else:
            stack.extend(reversed(u.children()))
    _FV[k] = (out, t)
    return out


def occurs(v, f):
    return any(v.eq(u) for u in free_ivars(f))


def subst_term(t, mp):
    """substitution of index variables in a scalar"""
    if isinstance(t, Cx):
        return Cx(subst_term(t.re, mp), subst_term(t.im, mp))
    if isinstance(t, NanIte):
        return NanIte(subst_term(t.c, mp), subst_term(t.a, mp), subst_term(t.b, mp))
    if is_z3(t):
        r = z3.substitute(t, *[(a, zint(b)) for a, b in mp])
        if len(CTX) > 1 and ctx().digfam and any(is_z3(b) and (z3.is_add(b) or z3.is_mul(b)) for _, b in mp):
            r = visible_digits(r)
        return r
    return t


def visible_digits(t):
    """digits of terms whose decomposition became visible by a substitution"""
    from vc import arr as A
    c = ctx()
    seen, stack, mp = set(), [t], []
    while stack:
        u = stack.pop()
        if u.get_id() in seen or not z3.is_app(u):
            continue
        seen.add(u.get_id())
        stack += u.children()
        fam = c.digfam.get(u.decl().name()) if u.num_args() == 1 else None
        if fam is not None and (z3.is_add(u.arg(0)) or z3.is_mul(u.arg(0))) and not free_bound(u):
            d = A.digits(u.arg(0), fam[0])[fam[1]]
            d = zint(d)
            if not d.eq(u):
                mp.append((u, d))
    return z3.substitute(t, *mp) if mp else t


def free_bound(t):
    stack = [t]
    while stack:
        u = stack.pop()
        if z3.is_var(u):
            return True
        if z3.is_app(u):
            stack += u.children()
    return False


def reset_caches():
    _FV.clear()
    _SIMPLE.clear()
