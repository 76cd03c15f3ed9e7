"""Models of the builtins and of the numpy/scipy functions used by the code (trusted contracts)."""
import z3
from vc.core import *  # noqa
from vc import arr as A
from vc.arr import Arr, Range, Sub, Prod, Cat, Sigma
from vc.values import *  # noqa
from vc import values as V
from vc.digits import solve_radix  # noqa

MODELS = {}
BUILTINS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def builtin(name):
    def deco(f):
        BUILTINS[name] = Builtin(name, f)
        return f
    return deco


# ------------------------------------------------------------------ types
KINDS = {"numpy.int64": "int", "numpy.int32": "int", "numpy.uint8": "int", "numpy.float64": "float", "numpy.complex128": "complex", "numpy.bool_": "bool",
         "numpy.int_": "int", "numpy.bool": "bool"}
CONSTS = {"numpy.pi": PI, "numpy.newaxis": None, "numpy.inf": None, "scipy.constants.mu_0": MU0}


class DType:
    def __init__(self, kind):
        self.kind = kind


def kind_of_dtype(d):
    if d is None:
        return None
    if isinstance(d, DType):
        return d.kind
    if isinstance(d, Ext) and d.path in KINDS:
        return KINDS[d.path]
    if isinstance(d, Builtin) and d.name in ("int", "float", "bool", "complex"):
        return d.name
    if isinstance(d, str) and d in ("int", "float", "bool", "complex"):
        return d
    raise Unsupported("dtype %r" % (d,))


def ext_attr(obj, name):
    path = obj.path + "." + name
    if path == "numpy.nan":
        return NaN()
    if path == "numpy.inf":
        return Inf()
    if path in CONSTS:
        return CONSTS[path]
    if obj.path.split(".")[0] in ("scilogger",):
        return Opaque(path)
    return Ext(path)


def cast(a, kind, copy=True):
    if kind is None:
        return a.copy()
    if kind == a.kind:
        return a.copy()
    f = a.fn
    if A.RANK[kind] > A.RANK[a.kind]:
        if a.kind == "bool" and kind != "bool":
            r = Arr(a.axes, lambda *i: zint(f(*i)) if not isinstance(f(*i), bool) else int(f(*i)), kind, None, a.sparse)
        else:
            r = Arr(a.axes, f, kind, a.mem_, a.sparse)
            r.meta = dict(a.meta)
        return r
    if kind == "bool":
        return Arr(a.axes, lambda *i: b_not(s_eq(f(*i), 0)), "bool", None, a.sparse)
    if a.is_empty():
        return Arr(a.axes, f, kind)
    if kind == "float" and a.kind == "complex":
        raise Unsupported("complex to float cast")
    if kind == "int" and a.kind == "float" and a.meta.get("integral"):
        return Arr(a.axes, lambda *i: as_int(f(*i)), "int", None, a.sparse)
    raise Unsupported("cast from %s to %s" % (a.kind, kind))


def as_int(v):
    if isconst(v):
        return int(v)
    v = zint(v)
    if z3.is_int(v):
        return v
    if z3.is_to_real(v):
        return v.arg(0)
    return z3.ToInt(v)


def to_array(ip, x, kind=None):
    if hasattr(x, "vc_array"):
        x = x.vc_array()
    if isinstance(x, Arr):
        return cast(x, kind)
    if isinstance(x, SList):
        return slist_array(x, kind)
    if isinstance(x, (list, tuple)) and any(isinstance(u, SList) for u in x):
        x = [to_array(ip, u) for u in x]
    if isinstance(x, (Inf,)):
        raise Unsupported("array of infinity")
    if isinstance(x, (list, tuple)):
        x = [to_array(ip, u) if isinstance(u, (list, tuple, SList)) else u for u in x]
    a = A.as_arr(x)
    return cast(a, kind) if kind is not None else a


def slist_array(x, kind=None):
    """array from a sequence of symbolic length"""
    cs = A.cases(x.axis, "m")
    samples = []
    for i in cs:
        with scope():
            A.assume_in(x.axis, i)
            samples.append(x.elem(i))
    if all(is_scalar(s) for s in samples):
        k = kind or max([A.scalar_kind(s) for s in samples], key=lambda z: A.RANK[z])
        return cast(Arr((x.axis,), lambda i: x.elem(i), max([A.scalar_kind(s) for s in samples] or ["int"], key=lambda z: A.RANK[z])), k)
    if len(cs) == 1 and isinstance(samples[0], (Arr, tuple, list)):
        s = A.as_arr(samples[0])
        i0 = cs[0]
        vs = A.ivars_of(i0)
        for ax in s.axes:
            if not isinstance(ax, Range) or (is_z3(ax.n) and any(occurs(v, ax.n) for v in vs)):
                raise Unsupported("rows of varying length")
        return cast(Arr((x.axis,) + s.axes, lambda i, *r: A.as_arr(x.elem(i)).fn(*r), s.kind), kind)
    raise Unsupported("array of a symbolic sequence")


def num_arg(x):
    if isinstance(x, Arr) and x.ndim == 0:
        return x.fn()
    return x


def argget(args, kwargs, k, name, default=None):
    if len(args) > k:
        return args[k]
    return kwargs.get(name, default)


def only(kwargs, *names):
    for k in kwargs:
        if k not in names:
            raise Unsupported("keyword %s" % k)


# ------------------------------------------------------------------ builtins
def emptiness(n, ax):
    """a length is positive exactly if there is an element"""
    if is_z3(n) and not isinstance(ax, (Range, A.Prod)):
        f = A.exists(ax, lambda i: True)
        ctx().assume((n > 0) == zbool(f))
    return n


@builtin("len")
def _len(ip, args, kwargs):
    x = args[0]
    if hasattr(x, "vc_len"):
        return x.vc_len(ip)
    if getattr(x, "stale", None):
        raise Unsupported(x.stale)
    if isinstance(x, (list, tuple, dict, str, set, range)):
        return len(x)
    if isinstance(x, SList):
        return emptiness(x.length(), x.axis)
    if isinstance(x, SDict):
        if x.extra:
            return s_add(A.ax_len(x.axis), len(x.extra))
        return A.ax_len(x.axis)
    if isinstance(x, Arr):
        if x.ndim == 0 or x.sparse:
            raise PyRaise(TypeError)
        if "set" in x.meta:
            L, memf = x.meta["set"][0], x.meta["set"][3]
            v = ctx().ivar("x")
            with scope() as sc:
                m = zbool(memf(v))
                new = sc.new()
            A.keep_facts([v], new)
            ctx().assume((zint(L) > 0) == z3.Exists([v], m))
        return emptiness(A.ax_len(x.axes[0]), x.axes[0])
    if isinstance(x, (Opaque,)):
        return Opaque("len")
    raise Unsupported("len of %r" % (x,))


@builtin("range")
def _range(ip, args, kwargs):
    args = [unb(a) for a in args]
    if all(isinstance(a, int) for a in args):
        return range(*args)
    lo, hi = (0, args[0]) if len(args) == 1 else args[:2]
    if len(args) == 3 and args[2] != 1:
        raise Unsupported("range step")
    n = s_sub(hi, lo)
    if not ctx().valid(s_cmp(">=", n, 0)):
        n = s_max(n, 0)
    r = SList(Range(n), lambda i: s_add(lo, i), "range")
    r.start, r.stop = lo, hi
    return r


def unb(k):
    if isinstance(k, Arr) and k.ndim == 0:
        k = k.fn()
    return pyval(k) if is_z3(k) else k


@builtin("sum")
def _sum(ip, args, kwargs):
    x = args[0]
    init = args[1] if len(args) > 1 else kwargs.get("start", 0)
    it = ip.iterate(x)
    if isinstance(it, SList):
        import ast
        r = A.sum_over([it.axis], lambda i: scalar_elem(it.elem(i)))
        return ip.binop(ast.Add(), init, r) if not (isconst(init) and init == 0) else r
    r = init
    import ast
    for u in it:
        r = ip.binop(ast.Add(), r, u)
    return r


def scalar_elem(v):
    v = num_arg(v)
    if not is_scalar(v):
        raise Unsupported("sum of non scalars")
    return v


@builtin("any")
def _any(ip, args, kwargs):
    it = ip.iterate(args[0])
    if isinstance(it, SList):
        return A.exists(it.axis, lambda i: zb(it.elem(i)), "k")
    return b_or(*[zb(u) for u in it])


@builtin("all")
def _all(ip, args, kwargs):
    it = ip.iterate(args[0])
    if isinstance(it, SList):
        return A.forall(it.axis, lambda i: zb(it.elem(i)), "k")
    return b_and(*[zb(u) for u in it])


def zb(u):
    u = num_arg(u)
    if isinstance(u, bool):
        return u
    if is_bool(u):
        return u
    if is_num(u):
        return b_not(s_eq(u, 0))
    raise Unsupported("truth value")


def _minmax(ip, args, f, npname):
    if len(args) == 1:
        it = ip.iterate(args[0])
        if isinstance(it, SList):
            return MODELS[npname](ip, [to_array(ip, it)], {})
        args = it
    if not args:
        raise PyRaise(ValueError)
    r = num_arg(args[0])
    for u in args[1:]:
        r = f(r, num_arg(u))
    return r


@builtin("max")
def _max(ip, args, kwargs):
    only(kwargs)
    return _minmax(ip, args, s_max, "numpy.max")


@builtin("min")
def _min(ip, args, kwargs):
    only(kwargs)
    return _minmax(ip, args, s_min, "numpy.min")


@builtin("abs")
def _abs(ip, args, kwargs):
    return MODELS["numpy.abs"](ip, args, {})


@builtin("int")
def _int(ip, args, kwargs):
    v = num_arg(args[0])
    if isconst(v):
        return int(v)
    v = zint(v)
    if z3.is_int(v):
        return v
    if z3.is_to_real(v):
        return v.arg(0)
    # truncation towards zero
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


@builtin("float")
def _float(ip, args, kwargs):
    if args and isinstance(args[0], str):
        w = args[0].strip().lower()
        if w in ("nan", "inf", "+inf", "-inf", "infinity"):
            return NaN() if w == "nan" else Inf(-1 if w[0] == "-" else 1)
    v = num_arg(args[0])
    if isinstance(v, (Cx, complex)):
        raise PyRaise(TypeError)
    if is_scalar(v):
        return v
    raise Unsupported("float of %r" % (v,))


@builtin("complex")
def _complex(ip, args, kwargs):
    a = num_arg(args[0])
    b = num_arg(args[1]) if len(args) > 1 else 0
    return s_add(to_cx(a), s_mul(Cx(0, 1), b))


@builtin("bool")
def _bool(ip, args, kwargs):
    v = num_arg(args[0])
    if is_scalar(v):
        return zb(v)
    return ip.truth(v)


@builtin("str")
def _str(ip, args, kwargs):
    return args[0] if isinstance(args[0], (str, SymStr)) else Opaque("str")


@builtin("list")
def _list(ip, args, kwargs):
    if not args:
        return PList()
    it = ip.iterate(args[0])
    return SList(it.axis, it.elem) if isinstance(it, SList) else PList(it)


@builtin("tuple")
def _tuple(ip, args, kwargs):
    if not args:
        return ()
    it = ip.iterate(args[0])
    return SList(it.axis, it.elem, "tuple") if isinstance(it, SList) else tuple(it)


@builtin("set")
def _set(ip, args, kwargs):
    if not args:
        return PSet()
    it = ip.iterate(args[0])
    if isinstance(it, SList):
        raise Unsupported("set of symbolic size")
    if any(is_z3(x) or isinstance(x, SymStr) for x in it):
        raise Unsupported("set of symbolic values")
    return PSet(it)


@builtin("dict")
def _dict(ip, args, kwargs):
    d = PDict()
    if args:
        if isinstance(args[0], dict):
            d.update(args[0])
        elif isinstance(args[0], SDict):
            return args[0].copy()
        else:
            it = ip.iterate(args[0])
            if isinstance(it, SList):
                raise Unsupported("dict of a symbolic sequence")
            for k, v in it:
                d[k] = v
    d.update(kwargs)
    return d


@builtin("enumerate")
def _enumerate(ip, args, kwargs):
    it = ip.iterate(args[0])
    st = argget(args, kwargs, 1, "start", 0)
    if isinstance(it, SList):
        return SList(it.axis, lambda i: (s_add(st, A.index_to_pos(it.axis, i)), it.elem(i)), "enumerate")
    return PList([(st + k, v) for k, v in enumerate(it)])


@builtin("zip")
def _zip(ip, args, kwargs):
    its = [ip.iterate(a) for a in args]
    strict = kwargs.get("strict", False)
    if not any(isinstance(i, SList) for i in its):
        if strict and len({len(i) for i in its}) > 1:
            raise PyRaise(ValueError)
        return once(PList(list(zip(*its))))
    if not all(isinstance(i, SList) for i in its):
        raise Unsupported("zip of different sequences")
    for o in its[1:]:
        if not A.ax_same(its[0].axis, o.axis):
            if strict:
                if not ctx().truth(s_eq(its[0].length(), o.length()), "zip lengths agree"):
                    raise PyRaise(ValueError)
            elif not ctx().valid(s_eq(its[0].length(), o.length())):
                raise Unsupported("zip of different lengths")
    maps = [A.index_map(its[0].axis, o.axis) for o in its]
    return once(SList(its[0].axis, lambda i: tuple(o.elem(i if m is None else m(i)) for o, m in zip(its, maps)), "zip"))


def once(x):
    """an iterator: a second iteration over it is not supported"""
    x.once = True
    return x


@builtin("isinstance")
def _isinstance(ip, args, kwargs):
    x, t = args
    ts = t if isinstance(t, tuple) else (t,)
    for u in ts:
        n = u.name if isinstance(u, Builtin) else (u.path if isinstance(u, Ext) else None)
        if n == "str" and is_str(x):
            return True
        if n == "int" and (isinstance(x, int) or (is_z3(x) and z3.is_int(x))):
            return True
        if n == "bool" and is_bool(x):
            return True
        if n == "float" and (isinstance(x, (float, Fraction)) or (is_z3(x) and z3.is_real(x))):
            return True
        if n == "list" and isinstance(x, (list, SList)):
            return True
        if n == "dict" and isinstance(x, (dict, SDict)):
            return True
        if n == "tuple" and isinstance(x, tuple):
            return True
        if n == "numpy.ndarray" and isinstance(x, Arr) and not x.sparse:
            return True
        if n is None:
            raise Unsupported("isinstance")
    return False


@builtin("print")
def _print(ip, args, kwargs):
    return None


@builtin("round")
def _round(ip, args, kwargs):
    if len(args) > 1:
        raise Unsupported("round digits")
    return round_int(num_arg(args[0]))


@builtin("sorted")
def _sorted(ip, args, kwargs):
    it = ip.iterate(args[0])
    if isinstance(it, SList) or any(not isinstance(u, (int, str)) for u in it):
        raise Unsupported("sorted")
    return PList(sorted(it))


@builtin("callable")
def _callable(ip, args, kwargs):
    return isinstance(args[0], (Closure, Builtin))


@builtin("type")
def _type(ip, args, kwargs):
    return Opaque("type")


@builtin("id")
def _id(ip, args, kwargs):
    return Opaque("id")


BUILTINS["object"] = Opaque("object")


def round_int(v):
    """round half to even, as an integer"""
    if isconst(v):
        return round(frac(v))
    v = zint(v)
    if z3.is_int(v):
        return v
    f = z3.ToInt(v)
    d = v - z3.ToReal(f)
    half = z3.RealVal(Fraction(1, 2))
    return z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))


# ------------------------------------------------------------------ attributes and methods
def known_present(d, key):
    if isinstance(key, SymStr):
        i = d.hit(key.term)
        return i is not None and ctx().valid(A.in_axis(d.axis, i))
    return False


def attribute(ip, obj, name):
    if isinstance(obj, Arr):
        if name == "shape":
            return tuple(A.ax_len(a) for a in obj.axes)
        if name == "size":
            return A.p_dims([A.ax_len(a) for a in obj.axes])
        if name == "ndim":
            return obj.ndim
        if name == "T":
            return transpose(obj)
        if name == "dtype":
            return DType(obj.kind)
        if name == "real":
            return ew(s_real, obj, "float")
        if name == "imag":
            return ew(s_imag, obj, "float")
        if name == "nnz":
            raise Unsupported("nnz")
    return Builtin("method %s" % name, lambda ip_, a, k: method(ip_, obj, name, a, k))


def ew(f, a, kind=None):
    r = A.elementwise(f, a, kind=kind)
    if isinstance(r, Arr) and isinstance(a, Arr):
        r.sparse = a.sparse
    return r


def transpose(a, axes=None):
    if a.ndim < 2:
        return a
    order = list(range(a.ndim))[::-1] if axes is None else list(axes)
    f = a.fn

    def fn(*i):
        j = [None] * len(order)
        for k, o in enumerate(order):
            j[o] = i[k]
        return f(*j)
    r = Arr([a.axes[o] for o in order], fn, a.kind)
    r.sparse = a.sparse
    return r


def flatten(a, order="C"):
    if a.ndim == 1:
        return a.copy()
    if a.ndim == 0:
        return Arr((Range(1),), lambda i: a.fn(), a.kind)
    live = [k for k, ax in enumerate(a.axes) if not (isinstance(ax, Range) and isinstance(ax.n, int) and ax.n == 1)]
    f = a.fn

    def full(vals):
        out = [0] * a.ndim
        for k, v in zip(live, vals):
            out[k] = v
        return out
    if len(live) == 0:
        return Arr((Range(1),), lambda i: f(*full([])), a.kind)
    if len(live) == 1:
        return Arr((a.axes[live[0]],), lambda i: f(*full([i])), a.kind)
    # one constant axis: a concatenation of the rows (axis order as in memory)
    ks = live if order == "F" else live[::-1]
    slow = ks[-1]
    if isinstance(a.axes[slow], Range) and isinstance(a.axes[slow].n, int) and a.axes[slow].n <= 4 and len(live) == 2:
        parts = []
        for j in range(a.axes[slow].n):
            parts.append(Arr((a.axes[ks[0]],), (lambda j: lambda i: f(*full([i, j] if ks[0] < slow else [j, i])))(j), a.kind))
        return A.concat(parts)
    ax = Prod([a.axes[k] for k in live], order)
    return Arr((ax,), lambda i: f(*full(i)), a.kind)


def reshape(a, shape, order="C"):
    c = ctx()
    shape = [pyval(s) if is_z3(s) else s for s in shape]
    total = A.p_dims([A.ax_len(x) for x in a.axes])
    if any(isinstance(s, int) and s == -1 for s in shape):
        k = [j for j, s in enumerate(shape) if isinstance(s, int) and s == -1][0]
        rest = A.p_dims([s for j, s in enumerate(shape) if j != k])
        if isinstance(total, int) and isinstance(rest, int):
            shape[k] = total // rest
        elif isinstance(rest, int) and rest == 1:
            shape[k] = total
        else:
            q = s_div(total, rest)
            raise Unsupported("reshape with an inferred dimension")
    if not c.valid(s_eq(A.p_dims(shape), total)):
        if not c.truth(s_eq(A.p_dims(shape), total), "reshape size"):
            raise PyRaise(ValueError, "reshape")
    flat = flatten(a, order)
    fax = flat.axes[0]
    ff = flat.fn
    if len(shape) == 1:
        return Arr((fax if A.ax_same(fax, Range(shape[0])) else Range(shape[0]),), ff if A.ax_same(fax, Range(shape[0])) else (lambda i: ff(A.pos_to_index(fax, i))), a.kind)
    if isinstance(fax, Prod) and fax.order == order and len(fax.axs) == len(shape) and all(c.equal_int(A.ax_len(p), q) for p, q in zip(fax.axs, shape)):
        return Arr(fax.axs, lambda *i: ff(tuple(i)), a.kind)
    # concatenation of equal parts -> (part, n) or (n, part)
    if isinstance(fax, Cat) and len(shape) == 2:
        m = len(fax.parts)
        slow = 1 if order == "F" else 0
        if isinstance(shape[slow], int) and shape[slow] == m and all(c.equal_int(A.ax_len(p), shape[1 - slow]) for p in fax.parts):
            base = fax.parts[0]
            same = all(A.ax_same(base, p) for p in fax.parts)
            bax = base if same else Range(shape[1 - slow])
            maps = [A.index_map(bax, p) for p in fax.parts]

            def part(k, i):
                return ff((k, i if maps[k] is None else maps[k](i)))

            def fn(*idx):
                i, k = (idx[0], idx[1]) if slow == 1 else (idx[1], idx[0])
                if isinstance(k, int):
                    return part(k, i)
                v = part(m - 1, i)
                for j in range(m - 2, -1, -1):
                    v = s_ite(s_eq(k, j), part(j, i), v)
                return v
            axes = (bax, Range(m)) if slow == 1 else (Range(m), bax)
            return Arr(axes, fn, a.kind)

    def fn(*i):
        p = A.lin(i, shape) if order == "F" else A.lin(tuple(reversed(i)), list(reversed(shape)))
        return ff(A.pos_to_index(fax, p))
    return Arr([Range(s) for s in shape], fn, a.kind)


def reduce_all(a, f):
    return f(list(a.axes), a.fn)


def np_sum(ip, a, axis=None):
    if axis is None:
        return A.sum_over(list(a.axes), lambda *i: numeric(a.fn(*i)))
    if isinstance(axis, tuple):
        axs = sorted([x + a.ndim if x < 0 else x for x in axis])
    else:
        axs = [axis + a.ndim if axis < 0 else axis]
    rest = [k for k in range(a.ndim) if k not in axs]
    f = a.fn
    kind = "int" if a.kind == "bool" else a.kind

    def fn(*i):
        def g(*s):
            full = [None] * a.ndim
            for k, u in zip(rest, i):
                full[k] = u
            for k, u in zip(axs, s):
                full[k] = u
            return numeric(f(*full))
        return A.sum_over([a.axes[k] for k in axs], g)
    if not rest:
        return fn()
    if a.sparse:
        # the result is a two-dimensional matrix
        ax = [a.axes[rest[0]]]
        if rest[0] == 1:
            return Arr([Range(1)] + ax, lambda z, i: fn(i), kind)
        return Arr(ax + [Range(1)], lambda i, z: fn(i), kind)
    return Arr([a.axes[k] for k in rest], fn, kind)


def numeric(v):
    if is_bool(v):
        return zint(v) if not isinstance(v, bool) else int(v)
    return v


def method(ip, obj, name, args, kwargs):
    c = ctx()
    if isinstance(obj, Arr):
        return arr_method(ip, obj, name, args, kwargs)
    from vc.interp import Acc
    if isinstance(obj, Acc):
        if name == "append" and isinstance(obj.root(), (list, SList)):
            obj.mutate("append", args[0])
            return None
        if name == "extend" and isinstance(obj.root(), (list, SList)):
            obj.mutate("extend", args[0])
            return None
        raise Unsupported("method %s of a loop carried variable" % name)
    if isinstance(obj, SDict):
        if name in ("items", "keys", "values") and not obj.extra:
            el = {"items": lambda i: (obj.key(i), obj.val(i)), "keys": obj.key, "values": obj.val}[name]
            r = SList(obj.axis, el, name)
            r.dict_of = obj
            return r
        if name == "copy":
            return obj.copy()
        if name == "get":
            if c.truth(obj.has(args[0]), "key present"):
                return obj.lookup(args[0])
            return args[1] if len(args) > 1 else None
        raise Unsupported("dict method %s" % name)
    if isinstance(obj, dict):
        if name == "items":
            return PList([(k, v) for k, v in obj.items()])
        if name == "keys":
            return PList(obj.keys())
        if name == "values":
            return PList(obj.values())
        if name == "copy":
            return PDict(obj)
        if name == "get":
            return obj.get(args[0], args[1] if len(args) > 1 else None)
        if name == "update":
            V.check_mutable(obj)
            obj.update(args[0] if args else {}, **kwargs)
            return None
        if name == "pop":
            V.check_mutable(obj)
            if args[0] not in obj and len(args) == 1:
                raise PyRaise(KeyError)
            return obj.pop(*args)
        raise Unsupported("dict method %s" % name)
    if isinstance(obj, list):
        if name == "append":
            V.check_mutable(obj)
            obj.append(args[0])
            return None
        if name == "extend":
            V.check_mutable(obj)
            it = ip.iterate(args[0])
            if isinstance(it, SList):
                raise Unsupported("extend by a symbolic sequence")
            obj.extend(it)
            return None
        if name == "copy":
            return PList(obj)
        if name == "index":
            for k, u in enumerate(obj):
                from vc.interp import eq_value
                if c.truth(eq_value(u, args[0])):
                    return k
            raise PyRaise(ValueError)
        raise Unsupported("list method %s" % name)
    if isinstance(obj, (str, Opaque)):
        if isinstance(obj, str) and all(isinstance(a, (str, int)) for a in args) and not kwargs:
            return getattr(obj, name)(*args)
        return Opaque("str.%s" % name)
    if isinstance(obj, set):
        if name == "add":
            obj.add(args[0])
            return None
        raise Unsupported("set method")
    if is_scalar(obj):
        if name in ("item",):
            return obj
        if name == "conj" or name == "conjugate":
            return s_conj(obj)
        if name == "real":
            return s_real(obj)
        raise Unsupported("method %s of a scalar" % name)
    if isinstance(obj, SList) and name == "append" and obj.kind == "list" and isinstance(obj.axis, Range):
        V.check_mutable(obj)
        n, old, new = obj.axis.n, obj.elem, args[0]
        if not is_scalar(new):
            raise Unsupported("append of %r to a symbolic list" % (new,))
        obj.axis, obj.elem = Range(s_add(n, 1)), (lambda i: s_ite(s_eq(i, n), new, old(i)))
        return None
    if isinstance(obj, SList) and name == "index" and len(args) == 1 and isinstance(obj.axis, Range):
        # first position of an equal element
        from vc.interp import eq_value
        x = args[0]
        if not c.truth(A.exists(obj.axis, lambda i: eq_value(obj.elem(i), x)), "the element is in the list"):
            raise PyRaise(ValueError, "not in the list")
        # the position depends on the indices of the enclosing iterations
        probe = eq_value(obj.elem(c.fresh("probe", "int")), x)
        vs = [u for u in z3util_vars(probe) if u.decl().name().startswith("$")] if is_z3(probe) else []
        nm = c.fresh_name("position")
        p = z3.Function(nm, *[u.sort() for u in vs], z3.IntSort())(*vs) if vs else z3.Int(nm)
        c.assume(b_and(A.in_axis(obj.axis, p), eq_value(obj.elem(p), x), A.forall(Range(p), lambda i: b_not(eq_value(obj.elem(i), x)))))
        return p
    if isinstance(obj, SList) and name in ("copy",):
        return SList(obj.axis, obj.elem, obj.kind)
    if name in getattr(obj, "__vc_methods__", ()):
        return getattr(obj, name)(*args, **kwargs)
    raise Unsupported("method %s of %r" % (name, obj))


def arr_method(ip, a, name, args, kwargs):
    if name in ("copy", "tocsc", "tocsr", "tocoo", "tolil"):
        return a.copy()
    if name == "astype":
        return cast(a, kind_of_dtype(args[0]))
    if name in ("toarray", "todense"):
        r = a.copy()
        r.sparse = False
        return r
    if name in ("flatten", "ravel"):
        return flatten(a, argget(args, kwargs, 0, "order", "C"))
    if name == "reshape":
        shape = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
        return reshape(a, list(shape), kwargs.get("order", "C"))
    if name in ("conj", "conjugate"):
        return ew(s_conj, a)
    if name == "transpose":
        return transpose(a, args[0] if args and isinstance(args[0], (tuple, list)) else (args or None))
    if name == "tolist":
        if a.ndim == 1:
            return V.SList(a.axes[0], a.fn) if not (isinstance(a.axes[0], Range) and isinstance(a.axes[0].n, int)) else PList([a.fn(k) for k in range(a.axes[0].n)])
        raise Unsupported("tolist")
    if name == "dot":
        return matmul(ip, a, args[0])
    if name == "diagonal" and a.ndim == 2:
        f = a.fn
        if not A.ax_same(a.axes[0], a.axes[1]):
            raise Unsupported("diagonal of a non square array")
        return Arr((a.axes[0],), lambda i: f(i, i), a.kind)
    if name == "fill":
        v = num_arg(args[0])
        a.assign(lambda *i: v)
        return None
    if name == "item":
        return a.fn(*[A.pos_to_index(x, 0) for x in a.axes])
    if name == "getnnz" and a.ndim == 2 and a.sparse:
        # a sparse matrix stores exactly its non-zero entries (assumed)
        ctx().assumed.add("scipy.sparse getnnz: the matrix stores exactly its non-zero entries")
        axis = argget(args, kwargs, 0, "axis")
        if axis not in (0, 1):
            raise Unsupported("getnnz of a matrix")
        f, ax = a.fn, a.axes[axis]

        def count(i):
            def z(u):
                return b_not(s_eq(f(i, u) if axis == 1 else f(u, i), 0))
            return count_facts(A.sum_over([ax], lambda u: zint(zbool(z(u)))), ax, z)
        return Arr((a.axes[1 - axis],), count, "int")
    if name == "getrow" and a.ndim == 2:
        return A.getitem(a, (slice(args[0], s_add(args[0], 1)), slice(None)))
    full = {"count_nonzero": "numpy.count_nonzero", "sum": "numpy.sum", "all": "numpy.all", "any": "numpy.any", "max": "numpy.max", "min": "numpy.min", "mean": "numpy.mean",
            "prod": "numpy.prod", "nonzero": "numpy.nonzero", "argsort": "numpy.argsort", "cumsum": "numpy.cumsum", "round": "numpy.rint"}.get(name)
    if full in MODELS:
        return MODELS[full](ip, [a] + list(args), kwargs)
    raise Unsupported("array method %s" % name)


def set_attr(a, name, v):
    if name == "shape":
        r = reshape(a, list(v) if isinstance(v, (tuple, list)) else [v])
        a.axes, a.fn = r.axes, r.fn
        return
    raise Unsupported("array attribute")


def object_op(ip, o, a, b):
    for x, other, rev in ((a, b, False), (b, a, True)):
        f = getattr(x, "vc_binop", None)
        if f is not None:
            return f(ip, o, other, rev)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        raise PyRaise(TypeError)
    raise Unsupported("operator %s on %r and %r" % (o, type(a).__name__, type(b).__name__))


def object_item(ip, obj, key):
    f = getattr(obj, "vc_item", None)
    if f is not None:
        return f(ip, key)
    raise Unsupported("item of %r" % (obj,))


# ------------------------------------------------------------------ products
def matmul(ip, a, b):
    for x, other, rev in ((a, b, False), (b, a, True)):
        f = getattr(x, "vc_binop", None)
        if f is not None:
            return f(ip, "@", other, rev)
    a, b = A.as_arr(a), A.as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise PyRaise(ValueError)
    ka = a.axes[-1]
    kb = b.axes[0] if b.ndim <= 2 else b.axes[-2]
    if b.ndim > 2 or a.ndim > 2:
        raise Unsupported("matmul of high dimension")
    if not A.ax_same(ka, kb):
        if not ctx().valid(s_eq(A.ax_len(ka), A.ax_len(kb))):
            if not ctx().truth(s_eq(A.ax_len(ka), A.ax_len(kb)), "matrix shapes agree"):
                raise PyRaise(ValueError)
    cv = A.index_map(ka, kb)
    fa, fb = a.fn, b.fn
    kind = A.join_kind(A.join_kind(a.kind, b.kind), "int")

    def prod(ia, ib):
        return A.sum_over([ka], lambda k: s_mul(numeric(fa(*(ia + (k,)))), numeric(fb(*(((k if cv is None else cv(k)),) + ib)))))
    axes = list(a.axes[:-1]) + list(b.axes[1:])
    na = a.ndim - 1
    if not axes:
        return prod((), ())
    r = Arr(axes, lambda *i: prod(tuple(i[:na]), tuple(i[na:])), kind)
    r.sparse = a.sparse and b.sparse
    return r


# ------------------------------------------------------------------ creation
def shape_arg(s):
    if isinstance(s, Arr):
        n = pyval(A.ax_len(s.axes[0]))
        if not isinstance(n, int):
            raise Unsupported("shape")
        return [s.fn(k) for k in range(n)]
    if isinstance(s, (tuple, list)):
        return [unb(x) for x in s]
    return [unb(s)]


def mk_axes(shape):
    out = []
    for s in shape:
        if not (isinstance(s, int) and not isinstance(s, bool) or (is_z3(s) and z3.is_int(s))):
            raise PyRaise(TypeError, "shape")
        if isinstance(s, int):
            if s < 0:
                raise PyRaise(ValueError, "negative dimension")
        elif not ctx().valid(s >= 0):
            if not ctx().truth(s >= 0, "dimension not negative"):
                raise PyRaise(ValueError, "negative dimension")
        out.append(Range(s))
    return out


def creator(name, val, dk=1):
    @model("numpy." + name)
    def f(ip, args, kwargs):
        only(kwargs, "dtype", "order", "shape")
        shape = shape_arg(argget(args, kwargs, 0, "shape"))
        kind = kind_of_dtype(argget(args, kwargs, dk, "dtype")) or "float"
        v = (bool(val) if kind == "bool" else val) if val is not None else None
        axes = mk_axes(shape)
        if val is None:
            # np.empty: arbitrary values, tracked as unwritten
            r = Arr(axes, lambda *i: Poison("uninitialised array element"), kind)
            if any(isinstance(a.n, int) and a.n == 0 for a in axes):
                return r
            r.fn = lambda *i: unwritten()
            return r
        return Arr(axes, lambda *i: v, kind)


def unwritten():
    raise Unwritten("uninitialised array element")


creator("zeros", 0)
creator("ones", 1)
creator("empty", None)


@model("numpy.full")
def _full(ip, args, kwargs):
    only(kwargs, "dtype", "fill_value")
    shape = shape_arg(args[0])
    v = argget(args, kwargs, 1, "fill_value")
    kind = kind_of_dtype(argget(args, kwargs, 2, "dtype"))
    if isinstance(v, Inf):
        raise Unsupported("array of infinity")
    v = num_arg(v)
    if isinstance(v, Arr):
        raise Unsupported("full of an array")
    k0 = "float" if isinstance(v, (NaN, NanIte)) else A.scalar_kind(v)
    r = Arr(mk_axes(shape), lambda *i: v, k0)
    return cast(r, kind) if kind else r


def like(name, val):
    @model("numpy." + name)
    def f(ip, args, kwargs):
        a = A.as_arr(args[0])
        kind = kind_of_dtype(kwargs.get("dtype")) or a.kind
        v = bool(val) if kind == "bool" else val
        return Arr(a.axes, lambda *i: v, kind)


like("zeros_like", 0)
like("ones_like", 1)


def scalar_cast(path):
    @model(path)
    def f(ip, args, kwargs):
        x = num_arg(args[0])
        if isinstance(x, Arr):
            return cast(x, KINDS[path])
        if is_scalar(x):
            return num_arg(cast(A.as_arr(x), KINDS[path]))
        raise Unsupported("conversion of %r" % (x,))


for _p in KINDS:
    scalar_cast(_p)


@model("numpy.asarray", "numpy.ascontiguousarray")
def _asarray(ip, args, kwargs):
    only(kwargs, "dtype", "order")
    kind = kind_of_dtype(argget(args, kwargs, 1, "dtype"))
    if isinstance(args[0], Arr) and kind in (None, args[0].kind):
        return args[0]
    return to_array(ip, args[0], kind)


@model("numpy.array")
def _array(ip, args, kwargs):
    only(kwargs, "dtype", "copy", "order", "ndmin")
    return to_array(ip, args[0], kind_of_dtype(argget(args, kwargs, 1, "dtype")))


@model("numpy.copy")
def _copy(ip, args, kwargs):
    return A.as_arr(args[0]).copy()


@model("copy.deepcopy", "copy.copy")
def _deepcopy(ip, args, kwargs):
    return deep(args[0])


def deep(x):
    if isinstance(x, Arr):
        return x.copy()
    if isinstance(x, PDict):
        return PDict({k: deep(v) for k, v in x.items()})
    if isinstance(x, PList):
        return PList([deep(v) for v in x])
    if isinstance(x, tuple):
        return tuple(deep(v) for v in x)
    if isinstance(x, SDict):
        return x.copy()
    return x


@model("numpy.arange")
def _arange(ip, args, kwargs):
    only(kwargs, "dtype")
    args = [unb(a) for a in args]
    dt = kwargs.get("dtype")
    if len(args) == 4:
        dt = args.pop()
    lo, hi = (0, args[0]) if len(args) == 1 else args[:2]
    step = args[2] if len(args) > 2 else 1
    if not all(A.scalar_kind(x) in ("int",) for x in (lo, hi, step)):
        raise Unsupported("arange of reals")
    if not (isinstance(step, int) and step == 1):
        raise Unsupported("arange step")
    n = s_sub(hi, lo)
    if is_z3(n):
        n = pyval(z3.simplify(n, som=True))
    if not ctx().valid(s_cmp(">=", n, 0)):
        n = s_max(n, 0)
    r = Arr((Range(n),), lambda i: s_add(lo, i), "int")
    r.mem_ = lambda x: A.in_block(lo, x, hi)
    r.meta["identity"] = isinstance(lo, int) and lo == 0
    r.meta["inv"] = lambda x: (b_and(s_cmp("<=", lo, x), s_cmp("<", x, hi)), s_sub(x, lo))
    k = kind_of_dtype(dt)
    if k and k != "int":
        r = cast(r, k)
    return r


@model("numpy.concatenate")
def _concatenate(ip, args, kwargs):
    only(kwargs, "axis")
    axis = argget(args, kwargs, 1, "axis", 0)
    from vc.interp import Acc
    seq = args[0]
    if isinstance(seq, Acc):
        raise Unsupported("concatenation of a loop carried list")
    items = ip.iterate(seq)
    if isinstance(items, SList):
        return concat_slist(ip, items, axis)
    if any(isinstance(x, Acc) for x in items):
        return acc_cat(ip, items, axis)
    if axis is None:
        items = [flatten(to_array(ip, x)) for x in items]
        axis = 0
    return A.concat([to_array(ip, x) for x in items], axis)


def acc_cat(ip, items, axis):
    """loop carried array, followed by other arrays"""
    from vc.interp import Acc
    if not isinstance(items[0], Acc) or any(isinstance(x, Acc) for x in items[1:]):
        raise Unsupported("concatenation of a loop carried value")
    acc = items[0]
    nd = A.as_arr(acc.root()).ndim if isinstance(acc.root(), Arr) else None
    if axis == -1 and nd in (1, 2):
        axis = nd - 1
    if axis not in (0, 1) or (axis == 1 and nd != 2):
        raise Unsupported("concatenation of a loop carried value")
    for x in items[1:]:
        acc = acc.add("cat" if axis == 0 else "cat1", to_array(ip, x))
    return acc


def concat_slist(ip, items, axis):
    if axis != 0:
        raise Unsupported("concatenation of a symbolic list")
    if isinstance(items.axis, Cat):
        parts = []
        for k, p in enumerate(items.axis.parts):
            sub = SList(p, (lambda k: lambda i: items.elem((k, i)))(k))
            from vc.interp import concretize
            sub = concretize(sub)
            if isinstance(sub, list):
                parts += [to_array(ip, u) for u in sub]
            else:
                parts.append(concat_slist(ip, sub, axis))
        return A.concat(parts)
    i0 = A.cases(items.axis, "m")[0]
    with scope():
        A.assume_in(items.axis, i0)
        e = A.as_arr(items.elem(i0))
        nd, kind, rest = e.ndim, e.kind, e.axes[1:]
        vs = A.ivars_of(i0)
        for ax in rest:
            if not isinstance(ax, Range) or (is_z3(ax.n) and any(occurs(v, ax.n) for v in vs)):
                raise Unsupported("rows of varying shape")
    if nd == 0:
        raise PyRaise(ValueError)
    r = Arr((Sigma(items.axis, lambda i: A.as_arr(items.elem(i)).axes[0]),) + tuple(rest), lambda idx, *q: A.as_arr(items.elem(idx[0])).fn(idx[1], *q), kind)
    if nd == 1:
        r.mem_ = lambda x: A.exists(items.axis, lambda i: A.mem(A.as_arr(items.elem(i)), x), "k")
    return r


@model("numpy.append")
def _append(ip, args, kwargs):
    only(kwargs, "axis")
    axis = argget(args, kwargs, 2, "axis")
    from vc.interp import Acc
    if isinstance(args[0], Acc):
        x = to_array(ip, args[1])
        if axis is None:
            root = args[0].init
            while isinstance(root, Acc):
                root = root.init
            if A.as_arr(root).ndim != 1 or x.ndim > 1:
                raise Unsupported("append flattens")
            if x.ndim == 0:
                x = flatten(x)
        return args[0].add("cat", x)
    a, b = to_array(ip, args[0]), to_array(ip, args[1])
    if axis is None:
        a, b = flatten(a), flatten(b)
        axis = 0
    return A.concat([a, b], axis)


@model("numpy.hstack")
def _hstack(ip, args, kwargs):
    from vc.interp import Acc
    raw = ip.iterate(args[0])
    if isinstance(raw, (list, tuple)) and any(isinstance(x, Acc) for x in raw):
        first = raw[0].root() if isinstance(raw[0], Acc) else None
        if not isinstance(first, Arr) or first.ndim not in (1, 2):
            raise Unsupported("concatenation of a loop carried value")
        return acc_cat(ip, raw, first.ndim - 1)
    items = [to_array(ip, x) for x in ip.iterate(args[0])]
    items = [flatten(x) if x.ndim == 0 else x for x in items]
    return A.concat(items, 0 if items[0].ndim == 1 else 1)


@model("numpy.vstack")
def _vstack(ip, args, kwargs):
    from vc.interp import Acc
    raw = ip.iterate(args[0])
    if isinstance(raw, (list, tuple)) and any(isinstance(x, Acc) for x in raw):
        first = raw[0].root() if isinstance(raw[0], Acc) else None
        if not isinstance(first, Arr) or first.ndim != 2:
            raise Unsupported("concatenation of a loop carried value")
        rest = [to_array(ip, x) for x in raw[1:]]
        return acc_cat(ip, [raw[0]] + [expand(x, 0) if x.ndim == 1 else x for x in rest], 0)
    items = [to_array(ip, x) for x in ip.iterate(args[0])]
    items = [expand(x, 0) if x.ndim == 1 else x for x in items]
    return A.concat(items, 0)


def expand(a, axis):
    axes = list(a.axes)
    axes.insert(axis, Range(1))
    f = a.fn
    return Arr(axes, lambda *i: f(*(i[:axis] + i[axis + 1:])), a.kind)


@model("numpy.expand_dims")
def _expand_dims(ip, args, kwargs):
    a = A.as_arr(args[0])
    axis = argget(args, kwargs, 1, "axis")
    if isinstance(axis, (tuple, list)):
        m = a.ndim + len(axis)
        for k in sorted(x if x >= 0 else x + m for x in axis):
            a = expand(a, k)
        return a
    return expand(a, axis if axis >= 0 else axis + a.ndim + 1)


@model("numpy.stack")
def _stack(ip, args, kwargs):
    items = [to_array(ip, x) for x in ip.iterate(args[0])]
    axis = argget(args, kwargs, 1, "axis", 0)
    if axis < 0:
        axis += items[0].ndim + 1
    return A.concat([expand(x, axis) for x in items], axis)


@model("numpy.column_stack")
def _column_stack(ip, args, kwargs):
    items = [to_array(ip, x) for x in ip.iterate(args[0])]
    return A.concat([expand(x, 1) if x.ndim == 1 else x for x in items], 1)


@model("numpy.meshgrid")
def _meshgrid(ip, args, kwargs):
    xs = [to_array(ip, x) for x in args]
    if kwargs.get("indexing", "xy") != "ij":
        if len(xs) < 2:
            raise Unsupported("meshgrid")
        axes = [x.axes[0] for x in xs]
        axes[0], axes[1] = axes[1], axes[0]
        pos = list(range(len(xs)))
        pos[0], pos[1] = 1, 0
    else:
        axes = [x.axes[0] for x in xs]
        pos = list(range(len(xs)))
    out = []
    for k, x in enumerate(xs):
        out.append(Arr(axes, (lambda x, p: lambda *i: x.fn(i[p]))(x, pos[k]), x.kind))
    return PList(out)


@model("numpy.unravel_index")
def _unravel_index(ip, args, kwargs):
    idx = args[0]
    shape = shape_arg(argget(args, kwargs, 1, "shape"))
    order = argget(args, kwargs, 2, "order", "C")
    a = A.as_arr(idx)
    nv = A.p_dims(shape)
    ok = A.forall(list(a.axes), lambda *i: b_and(s_cmp("<=", 0, a.fn(*i)), s_cmp("<", a.fn(*i), nv)))
    if not ctx().valid(ok):
        if not ctx().truth(ok, "indices inside the grid"):
            raise PyRaise(ValueError, "unravel_index")
    out = []
    group = (a, list(shape))
    for k in range(len(shape)):
        if order == "F":
            g = (lambda k: lambda *i: A.digits(a.fn(*i), shape, True)[k])(k)
        else:
            g = (lambda k: lambda *i: A.digits(a.fn(*i), list(reversed(shape)))[len(shape) - 1 - k])(k)
        out.append(Arr(a.axes, g, "int") if a.ndim else g())
        if a.ndim == 1 and order == "F":
            out[-1].meta.update(group=group, digit=k)
    return tuple(out)


@model("numpy.ravel_multi_index")
def _ravel_multi_index(ip, args, kwargs):
    xs = [to_array(ip, x) for x in ip.iterate(args[0])]
    shape = shape_arg(argget(args, kwargs, 1, "dims"))
    order = kwargs.get("order", "C")
    for x, d in zip(xs, shape):
        ok = A.forall(list(x.axes), lambda *i: b_and(s_cmp("<=", 0, x.fn(*i)), s_cmp("<", x.fn(*i), d)))
        if not ctx().valid(ok) and not ctx().truth(ok, "indices inside the grid"):
            raise PyRaise(ValueError)
    if order == "C":
        xs, shape = xs[::-1], shape[::-1]
    r, m = None, 1
    for x, d in zip(xs, shape):
        t = A.binop("*", x, m) if not (isinstance(m, int) and m == 1) else x
        r = t if r is None else A.binop("+", r, t)
        m = s_mul(m, d)
    return r


@model("numpy.swapaxes")
def _swapaxes(ip, args, kwargs):
    a = A.as_arr(args[0])
    i, j = args[1], args[2]
    o = list(range(a.ndim))
    o[i], o[j] = o[j], o[i]
    return transpose(a, o)


@model("numpy.transpose")
def _transpose(ip, args, kwargs):
    return transpose(A.as_arr(args[0]), argget(args, kwargs, 1, "axes"))


@model("numpy.reshape")
def _reshape(ip, args, kwargs):
    sh = args[1]
    return reshape(to_array(ip, args[0]), list(sh) if isinstance(sh, (tuple, list)) else [sh], kwargs.get("order", "C"))


@model("numpy.flip")
def _flip(ip, args, kwargs):
    a = A.as_arr(args[0])
    axis = argget(args, kwargs, 1, "axis")
    axs = range(a.ndim) if axis is None else ([axis] if isinstance(axis, int) else axis)
    key = [slice(None)] * a.ndim
    for k in axs:
        key[k] = slice(None, None, -1)
    return A.getitem(a, tuple(key))


@model("numpy.tile")
def _tile(ip, args, kwargs):
    a = A.as_arr(args[0])
    reps = args[1]
    if isinstance(reps, (tuple, list)) and len(reps) == 1:
        reps = reps[0]
    if isinstance(reps, (tuple, list)):
        if len(reps) == 2 and a.ndim == 1:
            if isinstance(reps[1], int) and reps[1] == 1:
                f = a.fn
                return Arr([mk_axes([unb(reps[0])])[0], a.axes[0]], lambda i, j: f(j), a.kind)
        if len(reps) == a.ndim and all(isinstance(unb(r), int) and unb(r) == 1 for r in reps[1:]) and isinstance(a.axes[0], Range) and a.axes[0].n == 1:
            f = a.fn
            return Arr([mk_axes([unb(reps[0])])[0]] + list(a.axes[1:]), lambda i, *r: f(0, *r), a.kind)
        raise Unsupported("tile")
    reps = unb(reps)
    if a.ndim == 1:
        if isinstance(reps, int):
            return A.concat([a] * reps) if reps > 0 else A.getitem(a, (slice(0, 0),))
        f = a.fn
        return Arr((Prod([Range(reps), a.axes[0]], "C"),), lambda i: f(i[1]), a.kind)
    raise Unsupported("tile")


@model("numpy.repeat")
def _repeat(ip, args, kwargs):
    only(kwargs)
    a = A.as_arr(args[0])
    n = unb(args[1])
    if a.ndim == 0:
        return Arr(mk_axes([n]), lambda i: a.fn(), a.kind)
    if a.ndim == 1 and is_num(n):
        f = a.fn
        if isinstance(n, int) and n == 1:
            return a.copy()
        return Arr((Prod([a.axes[0]] + mk_axes([n]), "C"),), lambda i: f(i[0]), a.kind)
    raise Unsupported("repeat")


@model("numpy.eye", "numpy.identity")
def _eye(ip, args, kwargs):
    only(kwargs, "dtype")
    n = mk_axes([unb(args[0])])[0]
    k = kind_of_dtype(kwargs.get("dtype")) or "float"
    return Arr((n, n), lambda i, j: s_ite(s_eq(i, j), 1, 0), k)


@model("numpy.diag")
def _diag(ip, args, kwargs):
    a = A.as_arr(args[0])
    f = a.fn
    if a.ndim == 1:
        return Arr((a.axes[0], a.axes[0]), lambda i, j: s_ite(idx_eq(i, j), f(i), 0), a.kind)
    return arr_method(ip, a, "diagonal", [], {})


def idx_eq(i, j):
    """equality of index structures"""
    if isinstance(i, tuple):
        if len(i) != len(j):
            return False
        return b_and(*[idx_eq(u, v) for u, v in zip(i, j)])
    return s_eq(i, j)


# ------------------------------------------------------------------ elementwise
def unary(name, f, kind=None):
    @model("numpy." + name)
    def g(ip, args, kwargs):
        only(kwargs)
        x = args[0]
        if isinstance(x, (list, tuple, SList)):
            x = to_array(ip, x)
        if isinstance(x, Opaque):
            return Opaque(name)
        return ew(f, x, kind)
    return g


unary("real", s_real, "float")
unary("imag", s_imag, "float")
unary("conj", s_conj)
unary("conjugate", s_conj)
unary("sqrt", s_sqrt, "float")
unary("logical_not", lambda x: b_not(zb(x)), "bool")
unary("invert", lambda x: b_not(x), "bool")
unary("isnan", lambda x: nan_flag(x), "bool")
unary("isfinite", lambda x: b_not(nan_flag(x)), "bool")
unary("isinf", lambda x: False, "bool")
unary("square", lambda x: s_mul(x, x))
unary("negative", s_neg)
unary("exp", s_exp)
unary("cos", s_cos, "float")
unary("sin", s_sin, "float")


@model("numpy.nanmax")
def _nanmax(ip, args, kwargs):
    """largest number of the array, not-a-number if there is none"""
    only(kwargs)
    a = A.as_arr(args[0])
    if a.ndim != 1:
        raise Unsupported("nanmax of an array with several axes")
    c = ctx()
    ax = a.axes[0]
    m = c.fresh("nanmax", "real")

    def num(i):
        return b_not(nan_flag(a.fn(i)))
    some = A.exists(ax, num)
    c.assume(A.forall(ax, lambda i: b_implies(num(i), s_cmp("<=", nan_value(a.fn(i)), m))))
    c.assume(b_implies(some, A.exists(ax, lambda i: b_and(num(i), s_eq(nan_value(a.fn(i)), m)))))
    return s_ite(some, m, NaN())



@model("numpy.abs", "numpy.absolute", "numpy.fabs")
def _npabs(ip, args, kwargs):
    x = args[0]
    if isinstance(x, (list, tuple, SList)):
        x = to_array(ip, x)
    if isinstance(x, Arr):
        return ew(s_abs, x, "float" if x.kind == "complex" else x.kind)
    return s_abs(num_arg(x))


@model("numpy.rint", "numpy.round", "numpy.around")
def _rint(ip, args, kwargs):
    only(kwargs)
    if len(args) > 1:
        raise Unsupported("round digits")
    x = args[0]
    if isinstance(x, (list, tuple)):
        x = to_array(ip, x)
    r = ew(lambda v: round_int(v), x, "float")
    if isinstance(r, Arr):
        r.meta["integral"] = True
    return r


def binary(name, f, kind=None):
    @model("numpy." + name)
    def g(ip, args, kwargs):
        only(kwargs)
        xs = [to_array(ip, x) if isinstance(x, (list, tuple, SList)) else x for x in args]
        return A.elementwise(f, *xs, kind=kind)
    return g


binary("maximum", s_max)
binary("minimum", s_min)
binary("logical_or", lambda a, b: b_or(zb(a), zb(b)), "bool")
binary("logical_and", lambda a, b: b_and(zb(a), zb(b)), "bool")
binary("multiply", s_mul)
binary("add", s_add)
binary("subtract", s_sub)


@model("numpy.divide", "numpy.true_divide")
def _divide(ip, args, kwargs):
    only(kwargs)
    return A.binop("/", args[0], args[1])


@model("numpy.clip")
def _clip(ip, args, kwargs):
    a = args[0]
    lo, hi = argget(args, kwargs, 1, "a_min"), argget(args, kwargs, 2, "a_max")
    r = a
    if lo is not None:
        r = A.elementwise(s_max, r, lo)
    if hi is not None:
        r = A.elementwise(s_min, r, hi)
    return r


@model("numpy.where")
def _where(ip, args, kwargs):
    if len(args) != 3:
        raise Unsupported("where")
    cnd, a, b = args
    kind = A.join_kind(A.as_arr(a).kind, A.as_arr(b).kind)
    return A.elementwise(lambda c, x, y: s_ite(zb(c), x, y), cnd, a, b, kind=kind)


@model("numpy.errstate")
def _errstate(ip, args, kwargs):
    return Opaque("errstate")


# ------------------------------------------------------------------ reductions
@model("numpy.all")
def _npall(ip, args, kwargs):
    a = A.as_arr(to_array(ip, args[0]) if isinstance(args[0], (list, tuple, SList)) else args[0])
    axis = argget(args, kwargs, 1, "axis")
    if axis is None:
        return A.forall(list(a.axes), lambda *i: zb(a.fn(*i)))
    return reduce_axis(a, axis, lambda ax, f: A.forall(ax, f), "bool")


@model("numpy.any")
def _npany(ip, args, kwargs):
    a = A.as_arr(to_array(ip, args[0]) if isinstance(args[0], (list, tuple, SList)) else args[0])
    axis = argget(args, kwargs, 1, "axis")
    if axis is None:
        return A.exists(list(a.axes), lambda *i: zb(a.fn(*i)))
    return reduce_axis(a, axis, lambda ax, f: A.exists(ax, f), "bool")


def reduce_axis(a, axis, red, kind):
    if axis < 0:
        axis += a.ndim
    f = a.fn
    rest = [x for k, x in enumerate(a.axes) if k != axis]
    g = lambda *i: red(a.axes[axis], lambda s: zb(f(*(i[:axis] + (s,) + i[axis:]))))  # noqa
    if not rest:
        return g()
    return Arr(rest, g, kind)


@model("numpy.sum")
def _npsum(ip, args, kwargs):
    only(kwargs, "axis", "dtype")
    a = A.as_arr(to_array(ip, args[0]) if isinstance(args[0], (list, tuple, SList)) else args[0])
    return np_sum(ip, a, argget(args, kwargs, 1, "axis"))


@model("numpy.cumsum")
def _cumsum(ip, args, kwargs):
    only(kwargs, "dtype")
    a = to_array(ip, args[0])
    if a.ndim != 1 or not isinstance(a.axes[0], Range) or len(args) > 1:
        raise Unsupported("cumulative sum over several axes")
    return Arr(a.axes, lambda i: A.sum_over([Range(s_add(i, 1))], lambda j: a.fn(j)), "int" if a.kind == "bool" else a.kind)


@model("numpy.count_nonzero")
def _count(ip, args, kwargs):
    only(kwargs, "axis")
    a = A.as_arr(args[0])
    b = Arr(a.axes, lambda *i: zint(zb(a.fn(*i))) if not isinstance(zb(a.fn(*i)), bool) else int(zb(a.fn(*i))), "int")
    axis = argget(args, kwargs, 1, "axis")
    r = np_sum(ip, b, axis)
    if isinstance(axis, int) and a.ndim > 1 and not a.sparse and isinstance(a.axes[axis], Range):
        ax, f, g = a.axes[axis], a.fn, r.fn
        axis = axis % a.ndim
        r = Arr(r.axes, lambda *i: count_facts(g(*i), ax, lambda u: zb(f(*(i[:axis] + (u,) + i[axis:])))), "int")
    elif axis is None and a.ndim == 1 and isinstance(a.axes[0], Range):
        r = count_facts(r, a.axes[0], lambda u: zb(a.fn(u)))
    elif axis is None and is_z3(r):
        ctx().assume(r >= 0)
        ctx().assume((r > 0) == zbool(A.exists(list(a.axes), lambda *u: zb(a.fn(*u)))))
    return r


def count_facts(s, ax, f):
    """number of indices with a property: nothing, at most one, all"""
    if not is_z3(s):
        return s
    c = ctx()
    n = zint(A.ax_len(ax))
    c.assume(z3.And(s >= 0, s <= n))
    c.assume((s == n) == zbool(A.forall(ax, f)))
    c.assume((s == 0) == zbool(A.forall(ax, lambda u: b_not(f(u)))))
    c.assume((s <= 1) == zbool(A.forall([ax, ax], lambda u, w: b_implies(b_and(f(u), f(w)), s_eq(u, w)))))
    return s


@model("numpy.prod")
def _prod(ip, args, kwargs):
    only(kwargs, "dtype")
    a = to_array(ip, args[0]) if isinstance(args[0], (list, tuple)) else A.as_arr(args[0])
    n = [pyval(A.ax_len(x)) for x in a.axes]
    if len(n) != 1 or not isinstance(n[0], int):
        raise Unsupported("product of a symbolic number of factors")
    r = 1
    for k in range(n[0]):
        r = s_mul(r, a.fn(k))
    return r


@model("numpy.mean", "numpy.average")
def _mean(ip, args, kwargs):
    only(kwargs, "axis")
    a = A.as_arr(to_array(ip, args[0]) if isinstance(args[0], (list, tuple, SList)) else args[0])
    axis = argget(args, kwargs, 1, "axis")
    s = np_sum(ip, a, axis)
    if axis is None:
        n = A.p_dims([A.ax_len(x) for x in a.axes])
    else:
        n = A.ax_len(a.axes[axis])
    if isinstance(s, Arr):
        return A.binop("/", s, n)
    if isinstance(n, int) and n == 0:
        return NaN()
    if not isinstance(n, int) and not ctx().valid(b_not(s_eq(n, 0))):
        ctx().safe("mean of an empty array", b_not(s_eq(n, 0)))
    return s_div(s, n)


def extremum(sign):
    def g(ip, args, kwargs):
        only(kwargs, "axis", "initial")
        a = A.as_arr(to_array(ip, args[0]) if isinstance(args[0], (list, tuple, SList)) else args[0])
        axis = argget(args, kwargs, 1, "axis")
        if "initial" in kwargs:
            if axis is not None or not is_scalar(kwargs["initial"]):
                raise Unsupported("extremum with an initial value along an axis")
            init, n = kwargs["initial"], 1
            for x in a.axes:
                n = s_mul(n, A.ax_len(x))
            if not ctx().truth(s_cmp(">", n, 0), "reduction of a non empty array"):
                return init
            r = ext_value(list(a.axes), a.fn, sign, a.kind)
            return s_max(r, init) if sign > 0 else s_min(r, init)
        if axis is not None:
            if axis < 0:
                axis += a.ndim
            rest = [x for k, x in enumerate(a.axes) if k != axis]
            f = a.fn
            ext_nonempty(a.axes[axis])
            return Arr(rest, lambda *i: ext_value([a.axes[axis]], lambda s: f(*(i[:axis] + (s,) + i[axis:])), sign, a.kind), a.kind)
        for x in a.axes:
            ext_nonempty(x)
        return ext_value(list(a.axes), a.fn, sign, a.kind)
    return g


def ext_nonempty(ax):
    n = A.ax_len(ax)
    if isinstance(n, int) and n > 0:
        return
    c = ctx()
    cond = s_cmp(">", n, 0) if isinstance(ax, Range) else A.exists(ax, lambda i: True)
    if not c.valid(cond):
        if not c.truth(cond, "reduction of a non empty array"):
            raise PyRaise(ValueError, "empty reduction")


def ext_value(axes, f, sign, kind):
    """largest (sign=1) or smallest (sign=-1) value: named by content, bounded and attained"""
    c = ctx()
    # constant small sizes
    if all(isinstance(a, Range) and isinstance(a.n, int) and a.n <= A.SMALL for a in axes):
        r = None
        for idx in A.multi_cases(axes):
            v = f(*idx)
            r = v if r is None else (s_max(r, v) if sign > 0 else s_min(r, v))
        return r
    cs = A.multi_cases(axes, "e")
    keys, frees = [], []
    for idx in cs:
        with scope() as sc:
            for ax, i in zip(axes, idx):
                A.assume_in(ax, i)
            v = zint(f(*idx))
            g = zbool(b_and(*[A.in_axis(ax, i) for ax, i in zip(axes, idx)]))
        k, fr = A.skeleton(z3.If(g, v, v - v - 1), A.ivars_of(idx))
        keys.append(k)
        frees.append(fr)
        sort = v.sort()
    key = ("ext", sign, tuple(keys))
    if key not in c.selkeys:
        c.selkeys[key] = c.fresh_name("max" if sign > 0 else "min")
    name = c.selkeys[key]
    free = [x for fr in frees for x in fr]
    m = z3.Function(name, *([I] * len(free) + [sort]))(*free) if free else z3.Const(name, sort)
    op = "<=" if sign > 0 else ">="
    c.assume(zbool(A.forall(axes, lambda *i: s_cmp(op, f(*i), m))))
    c.assume(zbool(A.exists(axes, lambda *i: s_eq(f(*i), m))))
    return m


MODELS["numpy.max"] = MODELS["numpy.amax"] = extremum(1)
MODELS["numpy.min"] = MODELS["numpy.amin"] = extremum(-1)


# ------------------------------------------------------------------ sets of indices
@model("numpy.flatnonzero")
def _flatnonzero(ip, args, kwargs):
    a = A.as_arr(args[0])
    a = A.uncat(flatten(a))
    ax = a.axes[0]
    f = a.fn
    sub = A.sub_axis(ax, lambda i: zb(f(i)))
    r = Arr((sub,), lambda i: A.index_to_pos(ax, i), "int")
    r.meta["identity"] = True
    r.meta["mask"] = (ax, lambda i: zb(f(i)))
    if isinstance(ax, Range):
        r.mem_ = lambda x: b_and(A.in_axis(ax, x), zb(f(x)))
        r.meta["inv"] = lambda x: (r.mem_(x), x)
    r.meta["sorted"] = r.meta["distinct"] = True
    return r


@model("numpy.in1d", "numpy.isin")
def _in1d(ip, args, kwargs):
    inv = kwargs.get("invert", False)
    only(kwargs, "invert", "assume_unique")
    a, b = to_array(ip, args[0]), to_array(ip, args[1])
    if b.ndim != 1:
        b = flatten(b)
    f = a.fn
    if inv:
        return Arr(a.axes, lambda *i: b_not(A.mem(b, f(*i))), "bool")
    return Arr(a.axes, lambda *i: A.mem(b, f(*i)), "bool")


def value_set(name, memf, gens, kind="int"):
    """sorted distinct values with a given membership predicate; gens: arrays which cover all values"""
    c = ctx()
    x0 = z3.Int("$val") if kind == "int" else None
    if x0 is None:
        raise Unsupported("set of reals")
    with scope():
        m0 = zbool(memf(x0))
    key, free = A.skeleton(m0, [x0])
    key = "set:" + key
    if key not in c.selkeys:
        c.selkeys[key] = c.fresh_name(name)
    nm = c.selkeys[key]
    nf = len(free)
    L = z3.Function("len_" + nm, *([I] * nf + [I]))(*free) if nf else z3.Int("len_" + nm)
    U = z3.Function(nm, *([I] * nf + [I, I]))
    P = z3.Function("pos_" + nm, *([I] * nf + [I, I]))
    u = lambda j: U(*(free + [zint(j)]))  # noqa
    p = lambda x: P(*(free + [zint(x)]))  # noqa
    c.assume(L >= 0)
    r = Arr((Range(L),), lambda j: u(j), "int")
    r.mem_ = memf
    j, k = c.ivar("u"), c.ivar("u")
    with scope() as sc:
        c.hyp(z3.And(j >= 0, j < L))
        mj = zbool(memf(u(j)))
        new = sc.new()
    A.keep_facts([j], new)
    c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L), mj), patterns=[u(j)]))
    c.assume(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < L), u(j) < u(k)), patterns=[z3.MultiPattern(u(j), u(k))]))
    with scope() as sc:
        m00 = zbool(memf(u(0)))
        new = sc.new()
    for f in new:
        c.assume(f)
    c.assume(z3.Implies(L > 0, m00))

    def present(x):
        return z3.And(p(x) >= 0, p(x) < L, u(p(x)) == zint(x))
    for g in [h for g in gens for h in g.meta.get("gens", [g])]:
        c.assume(zbool(A.forall(list(g.axes), lambda *i: b_implies(memf(g.fn(*i)), present(g.fn(*i))))))
    x = c.ivar("x")
    c.assume(z3.ForAll([x], z3.Implies(z3.And(p(x) >= 0, p(x) < L, u(p(x)) == x), zbool(memf(x))), patterns=[p(x)]))
    r.meta.update(sorted=True, distinct=True, set=(L, u, p, memf))
    r.meta["inv"] = lambda x: (memf(x), p(x))
    return r


def distinct(a):
    """all elements of the array are different (index structures compared)"""
    if a.meta.get("distinct"):
        return True
    f = a.fn
    axes = list(a.axes)
    return A.forall(axes + axes, lambda *i: b_implies(s_eq(f(*i[:len(axes)]), f(*i[len(axes):])), b_and(*[idx_eq(u, v) for u, v in zip(i[:len(axes)], i[len(axes):])])))


@model("numpy.unique")
def _unique(ip, args, kwargs):
    only(kwargs, "return_counts", "return_index")
    c = ctx()
    x = args[0]
    if isinstance(x, SList) and len(A.cases(x.axis, "e")) == 1 and is_str(x.elem(A.cases(x.axis, "e")[0])):
        # distinct names (only their number is used)
        x = Arr((x.axis,), lambda i, e=x.elem: str_term(e(i)), "int")
    a = to_array(ip, x)
    if a.ndim != 1:
        a = flatten(a)
    if kwargs.get("return_index"):
        return unique_index(a, kwargs)
    n = A.ax_len(a.axes[0])
    r = value_set("uniq", lambda x: A.mem(a, x), [a])
    L = r.axes[0].n
    c.assume(zbool(s_cmp("<=", L, n)))
    d = distinct(a)
    c.assume(zbool(s_eq(L, n)) == zbool(d) if not isinstance(d, bool) else zbool(s_eq(L, n)))
    c.assume(z3.Implies(zbool(s_cmp(">", n, 0)), zbool(s_cmp(">", L, 0))))
    if kwargs.get("return_counts"):
        raise Unsupported("unique with counts")
    return r


def unique_index(a, kwargs):
    """sorted distinct values and the position of the first occurrence of each"""
    if kwargs.get("return_counts"):
        raise Unsupported("unique with counts")
    c = ctx()
    ax, f = a.axes[0], a.fn
    n = A.ax_len(ax)
    r = value_set("uniq", lambda x: A.mem(a, x), [a])
    L, u, p, memf = r.meta["set"]
    F = z3.Function(c.fresh_name("first"), I, I)
    j, k = c.ivar("u"), c.ivar("u")
    rng = z3.And(j >= 0, j < L)
    with scope() as sc:
        c.hyp(z3.And(rng, F(j) >= 0, F(j) < zint(n)))
        e = zbool(s_eq(f(A.pos_to_index(ax, F(j))), u(j)))
        new = sc.new()
    A.keep_facts([j], new)
    c.assume(z3.ForAll([j], z3.Implies(rng, z3.And(F(j) >= 0, F(j) < zint(n), e)), patterns=[F(j)]))
    with scope() as sc:
        c.hyp(z3.And(rng, k >= 0, k < F(j), F(j) < zint(n)))
        e = zbool(b_not(s_eq(f(A.pos_to_index(ax, k)), u(j))))
        new = sc.new()
    A.keep_facts([j, k], new)
    c.assume(z3.ForAll([j, k], z3.Implies(z3.And(rng, k >= 0, k < F(j)), e)))
    return (r, Arr((Range(L),), lambda i: F(zint(i)), "int"))


@model("numpy.random.permutation")
def _permutation(ip, args, kwargs):
    only(kwargs)
    c = ctx()
    n = unb(args[0])
    if not is_num(n):
        raise Unsupported("permutation of values")
    nm = c.fresh_name("perm")
    Pm, Qm = z3.Function(nm, I, I), z3.Function("inv_" + nm, I, I)
    k = c.ivar("m")
    rng = z3.And(k >= 0, k < zint(n))
    c.assume(z3.ForAll([k], z3.Implies(rng, z3.And(Pm(k) >= 0, Pm(k) < zint(n), Qm(Pm(k)) == k)), patterns=[Pm(k)]))
    c.assume(z3.ForAll([k], z3.Implies(rng, z3.And(Qm(k) >= 0, Qm(k) < zint(n), Pm(Qm(k)) == k)), patterns=[Qm(k)]))
    inside = lambda x: b_and(s_cmp("<=", 0, x), s_cmp("<", x, n))  # noqa
    r = Arr((Range(n),), lambda i: Pm(zint(i)), "int")
    r.mem_ = inside
    r.meta["inv"] = lambda x: (inside(x), Qm(zint(x)))
    r.meta["perm"] = (n, Pm, Qm)
    r.meta["distinct"] = True
    return r


@model("numpy.sort")
def _sort(ip, args, kwargs):
    only(kwargs)
    a = to_array(ip, args[0])
    d = distinct(a)
    if a.ndim == 1 and ctx().valid(d):
        r = A.getitem(a, _argsort(ip, [a], {}))
        r.mem_ = lambda x: A.mem(a, x)
        r.meta.update(sorted=True, distinct=True)
        return r
    raise Unsupported("sort of repeated values")


@model("numpy.intersect1d")
def _intersect1d(ip, args, kwargs):
    only(kwargs)
    a, b = to_array(ip, args[0]), to_array(ip, args[1])
    return value_set("inter", lambda x: b_and(A.mem(a, x), A.mem(b, x)), [a, b])


@model("numpy.union1d")
def _union1d(ip, args, kwargs):
    only(kwargs)
    a, b = to_array(ip, args[0]), to_array(ip, args[1])
    return value_set("union", lambda x: b_or(A.mem(a, x), A.mem(b, x)), [a, b])


@model("numpy.setdiff1d")
def _setdiff1d(ip, args, kwargs):
    only(kwargs)
    a, b = to_array(ip, args[0]), to_array(ip, args[1])
    return value_set("diff", lambda x: b_and(A.mem(a, x), b_not(A.mem(b, x))), [a])


@model("numpy.argsort")
def _argsort(ip, args, kwargs):
    only(kwargs, "kind")
    c = ctx()
    a = to_array(ip, args[0])
    if a.ndim != 1:
        raise Unsupported("argsort")
    ax = a.axes[0]
    n = A.ax_len(ax)
    f = a.fn
    # permutation of the index structures of the axis, named by content
    j = A.canon_like(A.cases(ax, "m")[0]) if len(A.cases(ax, "m")) == 1 else None
    q = c.ivar("m")
    with scope():
        c.hyp(z3.And(q >= 0, q < zint(n)))
        v = zint(f(A.pos_to_index(ax, q)))
    key, free = A.skeleton(z3.If(zint(n) > q, v, v - v), [q])
    key = "argsort:" + key
    if key not in c.selkeys:
        c.selkeys[key] = c.fresh_name("argsort")
    nm = c.selkeys[key]
    nf = len(free)
    Pm = z3.Function(nm, *([I] * nf + [I, I]))
    Qm = z3.Function("inv_" + nm, *([I] * nf + [I, I]))
    pm = lambda x: Pm(*(free + [zint(x)]))  # noqa
    qm = lambda x: Qm(*(free + [zint(x)]))  # noqa
    k = c.ivar("m")
    rng = z3.And(k >= 0, k < zint(n))
    c.assume(z3.ForAll([k], z3.Implies(rng, z3.And(pm(k) >= 0, pm(k) < zint(n), qm(pm(k)) == k)), patterns=[pm(k)]))
    c.assume(z3.ForAll([k], z3.Implies(rng, z3.And(qm(k) >= 0, qm(k) < zint(n), pm(qm(k)) == k)), patterns=[qm(k)]))
    l = c.ivar("m")  # noqa
    with scope() as sc:
        c.hyp(z3.And(k >= 0, k < l, l < zint(n)))
        vk, vl = zint(f(A.pos_to_index(ax, pm(k)))), zint(f(A.pos_to_index(ax, pm(l))))
        new = sc.new()
    A.keep_facts([k, l], new)
    c.assume(z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k < l, l < zint(n)), vk <= vl), patterns=[z3.MultiPattern(pm(k), pm(l))]))
    r = Arr((Range(n),), lambda i: pm(i), "int")
    r.mem_ = lambda x: b_and(s_cmp("<=", 0, x), s_cmp("<", x, n))
    r.meta["inv"] = lambda x: (b_and(s_cmp("<=", 0, x), s_cmp("<", x, n)), qm(x))
    r.meta["perm"] = (n, pm, qm)
    return r


@model("numpy.searchsorted")
def _searchsorted(ip, args, kwargs):
    only(kwargs, "sorter")
    c = ctx()
    a, v = to_array(ip, args[0]), A.as_arr(to_array(ip, args[1]) if isinstance(args[1], (list, tuple)) else args[1])
    if kwargs.get("sorter") is not None:
        a = A.getitem(a, to_array(ip, kwargs["sorter"]))
    n = A.ax_len(a.axes[0])
    ax = a.axes[0]
    f = a.fn
    # the array must be sorted: obligation of the caller
    srt = A.forall([Range(n), Range(n)], lambda i, j: b_implies(s_cmp("<", i, j), s_cmp("<=", f(A.pos_to_index(ax, i)), f(A.pos_to_index(ax, j)))))
    if not (a.meta.get("sorted")):
        c.safe("searchsorted on a sorted array", srt)
    q = c.ivar("m")
    with scope():
        c.hyp(z3.And(q >= 0, q < zint(n)))
        w = zint(f(A.pos_to_index(ax, q)))
    key, free = A.skeleton(z3.If(zint(n) > q, w, w - w), [q])
    key = "search:" + key
    if key not in c.selkeys:
        c.selkeys[key] = c.fresh_name("search")
    nm = c.selkeys[key]
    S = z3.Function(nm, *([I] * len(free) + [w.sort(), I]))

    def val(x):
        x = zint(x)
        s = S(*(free + [x]))
        c.assume(z3.And(s >= 0, s <= zint(n)))
        j = c.ivar("m")
        with scope() as sc:
            c.hyp(z3.And(j >= 0, j < zint(n)))
            e = zint(f(A.pos_to_index(ax, j)))
            new = sc.new()
        A.keep_facts([j], new)
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s), e < x)))
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= s, j < zint(n)), e >= x)))
        if a.meta.get("inv") is not None:
            # follows from the above: a value of the array is found not after its position
            has, at = a.meta["inv"](x)
            c.assume(z3.Implies(zbool(has), z3.And(s <= zint(at), zint(at) >= 0, zint(at) < zint(n))))
        return s
    return Arr(v.axes, lambda *i: val(v.fn(*i)), "int") if v.ndim else val(v.fn())


# ------------------------------------------------------------------ sparse matrices
@model("scipy.sparse.csc_matrix", "scipy.sparse.csr_matrix", "scipy.sparse.coo_matrix", "scipy.sparse.csc_array", "scipy.sparse.csr_array")
def _csc(ip, args, kwargs):
    only(kwargs, "shape", "dtype")
    x = args[0]
    kind = kind_of_dtype(argget(args, kwargs, 2, "dtype"))
    shape = argget(args, kwargs, 1, "shape")
    if isinstance(x, Arr):
        r = cast(x, kind)
        r.sparse = True
        return r
    if isinstance(x, tuple) and len(x) == 2 and not isinstance(x[1], tuple):
        axes = mk_axes(shape_arg(x))
        r = Arr(axes, lambda i, j: 0, kind or "float")
        r.sparse = True
        return r
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
        data, (row, col) = x
        data, row, col = to_array(ip, data), to_array(ip, row), to_array(ip, col)
        if shape is None:
            raise Unsupported("sparse matrix without shape")
        axes = mk_axes(shape_arg(shape))
        n, m = axes[0].n, axes[1].n
        axs, fns = A.bcast([row, col, data])
        fr, fc, fd = fns
        ok = A.forall(axs, lambda *k: b_and(s_cmp("<=", 0, fr(*k)), s_cmp("<", fr(*k), n), s_cmp("<=", 0, fc(*k)), s_cmp("<", fc(*k), m)))
        ctx().safe("sparse indices in range", ok)
        r = Arr(axes, lambda i, j: A.sum_over(axs, lambda *k: s_ite(b_and(s_eq(fr(*k), i), s_eq(fc(*k), j)), fd(*k), 0)), kind or data.kind)
        r.sparse = True
        return r
    raise Unsupported("sparse matrix construction")


@model("scipy.sparse.diags")
def _diags(ip, args, kwargs):
    only(kwargs, "format", "shape", "dtype", "offsets")
    off = argget(args, kwargs, 1, "offsets", 0)
    x = args[0]
    if isinstance(off, (list, tuple)):
        if list(off) != [0]:
            raise Unsupported("diagonals")
        x = x[0]
    elif off != 0:
        raise Unsupported("diagonals")
    a = to_array(ip, x)
    f = a.fn
    if a.ndim == 0 or (isinstance(a.axes[0], Range) and a.axes[0].n == 1 and kwargs.get("shape") is not None):
        axes = mk_axes(shape_arg(kwargs["shape"]))
        v = a.fn() if a.ndim == 0 else a.fn(0)
        r = Arr(axes, lambda i, j: s_ite(s_eq(i, j), v, 0), a.kind)
    else:
        r = Arr((a.axes[0], a.axes[0]), lambda i, j: s_ite(idx_eq(i, j), f(i), 0), a.kind)
    r.sparse = True
    return r


@model("scipy.sparse.eye", "scipy.sparse.identity")
def _speye(ip, args, kwargs):
    only(kwargs, "format", "dtype")
    r = _eye(ip, [args[0]], {"dtype": kwargs.get("dtype")})
    r.sparse = True
    return r


def bmat_model(ip, rows):
    out_rows = []
    nr, nc = len(rows), len(rows[0])
    mats = [[None if x is None else A.as_arr(x) for x in row] for row in rows]
    # selections are kept as such (a block of zeros only has a length)
    first = lambda axs: next((x for x in axs if not isinstance(x, Range)), axs[0] if axs else None)  # noqa
    rax = [first([m.axes[0] for m in row if m is not None]) for row in mats]
    cax = [first([row[j].axes[1] for row in mats if row[j] is not None]) for j in range(nc)]
    for i in range(nr):
        for j in range(nc):
            m = mats[i][j]
            if m is not None:
                if rax[i] is None:
                    rax[i] = m.axes[0]
                elif not A.ax_same(rax[i], m.axes[0]):
                    ctx().safe("block shapes agree", s_eq(A.ax_len(rax[i]), A.ax_len(m.axes[0])))
                if cax[j] is None:
                    cax[j] = m.axes[1]
                elif not A.ax_same(cax[j], m.axes[1]):
                    ctx().safe("block shapes agree", s_eq(A.ax_len(cax[j]), A.ax_len(m.axes[1])))
    if any(x is None for x in rax + cax):
        raise PyRaise(ValueError)
    kind = "bool"
    for row in mats:
        for m in row:
            if m is not None:
                kind = A.join_kind(kind, m.kind)

    maps = [[None if m is None else (A.index_map(rax[i], m.axes[0]), A.index_map(cax[j], m.axes[1])) for j, m in enumerate(row)] for i, row in enumerate(mats)]

    def fn(i, j):
        (ki, ii), (kj, jj) = i, j
        m = mats[ki][kj]
        if m is None:
            return 0
        f, g = maps[ki][kj]
        return m.fn(ii if f is None else f(ii), jj if g is None else g(jj))
    if nr == 1 and nc == 1:
        r = Arr((rax[0], cax[0]), lambda i, j: fn((0, i), (0, j)), kind)
    elif nr == 1:
        r = Arr((rax[0], Cat(cax)), lambda i, j: fn((0, i), j), kind)
    elif nc == 1:
        r = Arr((Cat(rax), cax[0]), lambda i, j: fn(i, (0, j)), kind)
    else:
        r = Arr((Cat(rax), Cat(cax)), fn, kind)
    return r


@model("scipy.sparse.bmat", "scipy.sparse.block_array")
def _bmat(ip, args, kwargs):
    only(kwargs, "format", "dtype")
    r = bmat_model(ip, [list(row) for row in args[0]])
    r.sparse = True
    return r


@model("scipy.sparse.hstack")
def _sphstack(ip, args, kwargs):
    only(kwargs, "format", "dtype")
    r = bmat_model(ip, [list(args[0])])
    r.sparse = True
    return r


@model("scipy.sparse.vstack")
def _spvstack(ip, args, kwargs):
    only(kwargs, "format", "dtype")
    r = bmat_model(ip, [[x] for x in args[0]])
    r.sparse = True
    return r


@model("scipy.sparse.block_diag")
def _spblockdiag(ip, args, kwargs):
    only(kwargs, "format", "dtype")
    ms = list(args[0])
    r = bmat_model(ip, [[(m if i == j else None) for j in range(len(ms))] for i, m in enumerate(ms)])
    r.sparse = True
    return r


@model("numpy.block")
def _block(ip, args, kwargs):
    rows = args[0]
    if rows and not isinstance(rows[0], (list, tuple)):
        rows = [rows]
    return bmat_model(ip, [list(r) for r in rows])


@model("scipy.sparse.issparse")
def _issparse(ip, args, kwargs):
    return isinstance(args[0], Arr) and args[0].sparse


class DTypeInfo:
    """numpy.dtype(...): only its size is understood"""
    __vc_methods__ = ()

    def __init__(self, kind):
        self.itemsize = {"complex": 16, "float": 8, "int": 8, "bool": 1}[kind]

    def vc_attr(self, name):
        if name == "itemsize":
            return self.itemsize
        raise Unsupported("attribute %s of a type" % name)


@model("numpy.dtype")
def _dtype(ip, args, kwargs):
    only(kwargs)
    return DTypeInfo(kind_of_dtype(args[0]))


@model("numpy.matmul", "numpy.dot")
def _matmul(ip, args, kwargs):
    return matmul(ip, args[0], args[1])


@model("numpy.cross")
def _cross(ip, args, kwargs):
    only(kwargs, "axis")
    a, b = A.as_arr(args[0]), A.as_arr(args[1])
    axes, (fa, fb) = A.bcast([a, b])
    ax = argget(args, kwargs, 2, "axis", -1)
    if ax not in (-1, len(axes) - 1) or not (isinstance(axes[-1], Range) and axes[-1].n == 3):
        raise Unsupported("cross product axis")

    def comp(i, k):
        p, q = (k + 1) % 3, (k + 2) % 3
        return s_sub(s_mul(fa(*(i + (p,))), fb(*(i + (q,)))), s_mul(fa(*(i + (q,))), fb(*(i + (p,)))))

    def fn(*i):
        k = i[-1]
        if isinstance(k, int):
            return comp(i[:-1], k)
        v = comp(i[:-1], 2)
        for j in (1, 0):
            v = s_ite(s_eq(k, j), comp(i[:-1], j), v)
        return v
    return Arr(axes, fn, A.join_kind(a.kind, b.kind))


@model("numpy.linalg.norm", "scipy.linalg.norm")
def _norm(ip, args, kwargs):
    only(kwargs, "axis", "keepdims")
    a = A.as_arr(args[0])
    axis = argget(args, kwargs, 2, "axis")
    keep = argget(args, kwargs, 3, "keepdims", False)
    if len(args) > 1 and args[1] is not None:
        raise Unsupported("norm order")
    f = a.fn

    def sq(v):
        v = to_cx(v)
        return s_add(s_mul(v.re, v.re), s_mul(v.im, v.im))
    b = Arr(a.axes, lambda *i: sq(f(*i)), "float")
    s = np_sum(ip, b, axis)
    if isinstance(s, Arr):
        s = ew(s_sqrt, s, "float")
        if keep is True:
            if not isinstance(axis, int):
                raise Unsupported("keepdims")
            s = expand(s, axis if axis >= 0 else a.ndim + axis)
        return s
    if keep is not False:
        raise Unsupported("keepdims")
    return s_sqrt(s)


@model("scipy.sparse.csgraph.connected_components")
def _connected_components(ip, args, kwargs):
    """classes of the nodes: two nodes have the same label exactly if they are linked by a chain of edges"""
    only(kwargs, "csgraph", "directed", "connection", "return_labels")
    c = ctx()
    g = argget(args, kwargs, 0, "csgraph")
    directed = kwargs.get("directed", True)
    conn = kwargs.get("connection", "weak")
    ret = kwargs.get("return_labels", True)
    if len(args) > 1 or not isinstance(g, Arr) or g.ndim != 2 or directed not in (True, False) or conn != "weak":
        raise Unsupported("connected components of this graph")
    if not A.ax_same(g.axes[0], g.axes[1]):
        c.safe("graph matrix is square", s_eq(A.ax_len(g.axes[0]), A.ax_len(g.axes[1])))
        raise Unsupported("axes of the graph matrix")
    ax = g.axes[0]
    n = c.fresh("n_comp")
    nm = c.fresh_name("label")
    cs = A.cases(ax, "v")
    k = len(A.flat_idx(cs[0]))
    if len(cs) != 1:
        raise Unsupported("nodes of the graph")
    L = z3.Function(nm, *([I] * k + [I]))
    link = z3.Function("linked_" + nm, *([I] * (2 * k) + [z3.BoolSort()]))
    label = lambda i: L(*[zint(u) for u in A.flat_idx(i)])  # noqa
    c.assume(n >= 0)
    c.assume(A.forall(ax, lambda i: b_and(s_cmp("<=", 0, label(i)), s_cmp("<", label(i), n))))
    c.assume(A.forall(Range(n), lambda q: A.exists(ax, lambda i: s_eq(label(i), q))))
    c.assume(A.forall([ax, ax], lambda i, j: s_eq(s_eq(label(i), label(j)), link(*[zint(u) for u in A.flat_idx(i) + A.flat_idx(j)]))))
    # relation: smallest equivalence which contains the edges
    c.links = getattr(c, "links", [])
    c.links.append((ax, lambda i, j: b_or(b_not(s_eq(g.fn(i, j), 0)), b_not(s_eq(g.fn(j, i), 0))), lambda i, j: link(*[zint(u) for u in A.flat_idx(i) + A.flat_idx(j)]), label))
    c.assumed.add("scipy.sparse.csgraph.connected_components: equal labels exactly for nodes which are linked by a chain of edges")
    r = Arr((ax,), label, "int")
    return (n, r) if ret else n


def z3util_vars(t):
    """constants of a term"""
    from z3 import z3util
    return z3util.get_vars(t)
