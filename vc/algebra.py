"""Exact execution of real-valued formulas and their derivatives.

The functions of a module are executed as they are (the file is compiled from the current source,
only the name of the numerical library is bound to the stand-in below).  Two kinds of values:

- Gen: the value at a generic point, an element of  K[log u, atan w, ...]  with
  K = Q(x, y, z)[r] / (r^2 - x^2 - y^2 - z^2).  Sums, products, quotients and derivatives are exact.
- Num: a number of many digits with the special values of floating point arithmetic (1/0, log 0).
"""
import ast
import os
import sys
import types
import sympy
import mpmath

R, X, Y, Z = None, None, None, None
FIELD, X_, Y_, Z_ = sympy.field("x,y,z", sympy.QQ)
S2 = X_**2 + Y_**2 + Z_**2


class Reject(Exception):
    pass


class K:
    """a + b*r"""
    __slots__ = ("a", "b")

    def __init__(self, a, b=0):
        self.a, self.b = FIELD(a), FIELD(b)

    def __add__(self, o):
        return K(self.a + o.a, self.b + o.b)

    def __neg__(self):
        return K(-self.a, -self.b)

    def __sub__(self, o):
        return K(self.a - o.a, self.b - o.b)

    def __mul__(self, o):
        return K(self.a * o.a + self.b * o.b * S2, self.a * o.b + self.b * o.a)

    def inv(self):
        n = self.a**2 - self.b**2 * S2
        if n == 0:
            raise Reject("division by zero")
        return K(self.a / n, -self.b / n)

    def zero(self):
        return self.a == 0 and self.b == 0

    def one(self):
        return self.a == 1 and self.b == 0

    def key(self):
        return (self.a, self.b)

    def d(self, k):
        v = (X_, Y_, Z_)[k]
        return K(self.a.diff(v), self.b.diff(v) + self.b * v / S2)


ONE, ZERO, RAD = K(1), K(0), K(0, 1)


class Gen:
    """polynomial in the transcendental generators with coefficients of the field"""
    gens = {}                                       # name -> argument

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if not c.zero()}

    @staticmethod
    def of(x):
        if isinstance(x, Gen):
            return x
        if isinstance(x, bool):
            raise Reject("truth value")
        if isinstance(x, int):
            return Gen({(): K(x)})
        if isinstance(x, float):
            n, d = x.as_integer_ratio()
            return Gen({(): K(sympy.QQ(n, d))})
        raise Reject("value of type %s" % type(x).__name__)

    def coef(self):
        if any(m for m in self.t):
            raise Reject("nested transcendental function")
        return self.t.get((), ZERO)

    def __add__(self, o):
        o = Gen.of(o)
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t[m] + c if m in t else c
        return Gen(t)
    __radd__ = __add__

    def __neg__(self):
        return Gen({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        return self + (-Gen.of(o))

    def __rsub__(self, o):
        return Gen.of(o) - self

    def __mul__(self, o):
        o = Gen.of(o)
        t = {}
        for m, c in self.t.items():
            for n, e in o.t.items():
                k = tuple(sorted(m + n))
                t[k] = t[k] + c * e if k in t else c * e
        return Gen(t)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * Gen({(): Gen.of(o).coef().inv()})

    def __rtruediv__(self, o):
        return Gen.of(o) / self

    def __pow__(self, n):
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if n == 0.5:
            return lib_sqrt(self)
        if not isinstance(n, int):
            raise Reject("power")
        r = Gen.of(1)
        for _ in range(abs(n)):
            r = r * self
        return r if n >= 0 else 1 / r

    def __setitem__(self, m, v):
        # a generic point has no special values
        if m is not False:
            raise Reject("assignment")

    def copy(self):
        return self

    def d(self, k):
        out = Gen({})
        for m, c in self.t.items():
            out = out + Gen({m: c.d(k)})
            for j, g in enumerate(m):
                f, u = Gen.gens[g]
                q = u.d(k)
                q = q * u.inv() if f == "log" else q * (ONE + u * u).inv()
                out = out + Gen({m[:j] + m[j + 1:]: c * q})
        return out

    def zero(self):
        return not self.t


def lib_sqrt(x):
    x = Gen.of(x)
    u = x.coef()
    if u.b != 0:
        raise Reject("root")
    if u.a == S2:
        return Gen({(): RAD})
    raise Reject("root of another expression")


def generator(f):
    def g(x):
        x = Gen.of(x)
        u = x.coef()
        name = "%s(%s; %s)" % (f, u.a, u.b)
        Gen.gens[name] = (f, u)
        return Gen({(name,): ONE})
    return g


class Quiet:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Lib:
    """the stand-in of the numerical library at a generic point"""
    sqrt = staticmethod(lib_sqrt)
    log = staticmethod(generator("log"))
    arctan = staticmethod(generator("atan"))
    pi = None

    @staticmethod
    def errstate(**k):
        return Quiet()

    @staticmethod
    def isnan(x):
        return False

    @staticmethod
    def isinf(x):
        return False

    @staticmethod
    def isfinite(x):
        return True

    @staticmethod
    def logical_not(x):
        return not x

    @staticmethod
    def square(x):
        return x * x

    @staticmethod
    def power(x, n):
        return x**n

    @staticmethod
    def where(c, a, b):
        if c is True or c is False:
            return a if c else b
        raise Reject("selection")

    @staticmethod
    def nan_to_num(x, **k):
        return x

    def __getattr__(self, name):
        raise Reject("function %s" % name)


INF, NAN = mpmath.mpf("inf"), mpmath.mpf("nan")


class Num:
    """a number with the special values of the floating point arithmetic"""

    def __init__(self, v):
        self.v = v.v if isinstance(v, Num) else mpmath.mpf(v)

    def __add__(self, o):
        return Num(self.v + Num(o).v)
    __radd__ = __add__

    def __neg__(self):
        return Num(-self.v)

    def __pos__(self):
        return Num(self.v)

    def __sub__(self, o):
        return Num(self.v - Num(o).v)

    def __rsub__(self, o):
        return Num(Num(o).v - self.v)

    def __mul__(self, o):
        return Num(self.v * Num(o).v)
    __rmul__ = __mul__

    def __truediv__(self, o):
        a, b = self.v, Num(o).v
        if b == 0:
            return Num(NAN if a == 0 or mpmath.isnan(a) else (INF if a > 0 else -INF))
        return Num(a / b)

    def __rtruediv__(self, o):
        return Num(o) / self

    def __pow__(self, n):
        if n == 0.5:
            return NumLib.sqrt(self)
        if int(n) != n:
            raise Reject("power")
        if n < 0:
            return Num(1) / self**(-n)
        return Num(self.v**int(n))

    def __setitem__(self, m, v):
        if m is True:
            self.v = Num(v).v
        elif m is not False:
            raise Reject("assignment")

    def copy(self):
        return Num(self.v)

    def finite(self):
        return bool(mpmath.isfinite(self.v))


class NumLib(Lib):
    @staticmethod
    def sqrt(x):
        return Num(mpmath.sqrt(x.v)) if x.v >= 0 else Num(NAN)

    @staticmethod
    def log(x):
        return Num(mpmath.log(x.v)) if x.v > 0 else Num(-INF if x.v == 0 else NAN)

    @staticmethod
    def arctan(x):
        return Num(NAN if mpmath.isnan(x.v) else mpmath.atan(x.v))

    @staticmethod
    def isnan(x):
        return bool(mpmath.isnan(x.v))

    @staticmethod
    def isinf(x):
        return bool(mpmath.isinf(x.v))

    @staticmethod
    def isfinite(x):
        return x.finite()

    @staticmethod
    def nan_to_num(x, **k):
        raise Reject("nan_to_num")


def load(rel, lib):
    """namespace of a module of the working tree, with the stand-in of the library"""
    path = os.path.join(os.environ.get("VERIF_REPO", "/repo"), rel)
    with open(path) as f:
        tree = ast.parse(f.read(), path)
    names = set()
    body = []
    for st in tree.body:
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                names.add((a.asname or a.name.split(".")[0], a.name))
        elif isinstance(st, ast.FunctionDef):
            body.append(st)
        elif isinstance(st, ast.Assign) and isinstance(st.value, ast.Constant):
            body.append(st)
    ns = {"__name__": "extracted"}
    for name, full in names:
        ns[name] = lib if full == "numpy" else types.SimpleNamespace()
    exec(compile(ast.Module(body=body, type_ignores=[]), path, "exec"), ns)
    return ns


def generic(perm=(0, 1, 2)):
    v = [Gen({(): K(u)}) for u in (X_, Y_, Z_)]
    return [v[p] for p in perm]


def evaluate(g, at, digits=60):
    """numerical value of a generic expression"""
    with mpmath.workdps(digits):
        s = sum(u * u for u in at)
        r = mpmath.sqrt(s)

        def poly(p):
            t = mpmath.mpf(0)
            for m, c in p.terms():
                q = mpmath.mpf(int(c.numerator)) / int(c.denominator)
                for u, e in zip(at, m):
                    q *= u**e
                t += q
            return t

        def k(u):
            return poly(u.a.numer) / poly(u.a.denom) + r * poly(u.b.numer) / poly(u.b.denom)
        out = mpmath.mpf(0)
        for m, c in g.t.items():
            q = k(c)
            for n in m:
                f, u = Gen.gens[n]
                q *= mpmath.log(abs(k(u))) if f == "log" else mpmath.atan(k(u))
            out += q
        return out


def decide_zero(g):
    """status and detail of the claim that an expression vanishes identically"""
    if g.zero():
        return "proved", ""
    pts = [(mpmath.mpf(3) / 7, mpmath.mpf(5) / 11, mpmath.mpf(13) / 17), (mpmath.mpf(-2) / 3, mpmath.mpf(7) / 5, mpmath.mpf(1) / 9), (mpmath.mpf(4) / 3, mpmath.mpf(-1) / 7, mpmath.mpf(-8) / 5)]
    for p in pts:
        e = evaluate(g, p)
        if abs(e) > mpmath.mpf(10)**-30:
            return "refuted", "the difference is %s at (%s)" % (mpmath.nstr(e, 12), ", ".join(mpmath.nstr(u, 8) for u in p))
    return "undecided", "the normal form of the difference is not zero (numerically zero at three points)"
