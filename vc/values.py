"""Values of the interpreted program which are not scalars or arrays."""
import z3
from vc.core import *  # noqa
from vc import arr as A
from vc.arr import Arr


class PyRaise(Exception):
    """an exception of the executed program"""

    def __init__(self, cls, msg="", value=None):
        super().__init__("%s: %s" % (getattr(cls, "__name__", cls), msg))
        self.cls, self.msg, self.value = cls, msg, value


class PList(list):
    def __init__(self, *a):
        super().__init__(*a)
        c = CTX[-1]
        self.birth = next(c.epoch) if c is not None else 0


class PDict(dict):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        c = CTX[-1]
        self.birth = next(c.epoch) if c is not None else 0


class PSet(set):
    pass


def wrap(x):
    """turn python containers into tracked ones"""
    if isinstance(x, (PList, PDict)):
        return x
    if isinstance(x, list):
        return PList([wrap(u) for u in x])
    if isinstance(x, dict):
        return PDict({k: wrap(v) for k, v in x.items()})
    if isinstance(x, tuple):
        return tuple(wrap(u) for u in x)
    return x


def check_mutable(x):
    c = ctx()
    if c.loop_epochs and getattr(x, "birth", 0) < c.loop_epochs[-1]:
        raise Unsupported("container of the surrounding scope modified in a loop")


# ------------------------------------------------------------------ symbolic strings
_LIT = {}
_LITREV = {}


def lit_code(s):
    if s not in _LIT:
        _LIT[s] = len(_LIT) + 1000001
        _LITREV[_LIT[s]] = s
    return _LIT[s]


NONE = 1000000              # code of None among the optional strings


class SymStr:
    """a string known up to equality: an integer code (literals have fixed codes)"""

    def __init__(self, term, opt=False):
        self.term = zint(term)
        self.opt = opt            # the value may be None

    def __repr__(self):
        return "SymStr(%s)" % self.term


def str_term(x):
    if isinstance(x, SymStr):
        return x.term
    if isinstance(x, str):
        return z3.IntVal(lit_code(x))
    if x is None:
        return z3.IntVal(NONE)
    raise Unsupported("string %r" % (x,))


def is_str(x):
    return isinstance(x, (str, SymStr))


CONCAT = z3.Function("concat", I, I, I)


def concat_str(parts):
    """concatenation of strings (an uninterpreted function of its parts, literals are merged)"""
    flat = []
    for p in parts:
        for q in getattr(p, "parts", None) or [p]:
            if isinstance(q, SymStr) and q.opt:
                raise Unsupported("concatenation with a string which may be None")
            if isinstance(q, str) and flat and isinstance(flat[-1], str):
                flat[-1] += q
            elif not isinstance(q, str) or q:
                flat.append(q)
    if all(isinstance(p, str) for p in flat):
        return "".join(flat)
    if len(flat) == 1:
        return flat[0]
    t = str_term(flat[-1])
    for p in reversed(flat[:-1]):
        t = CONCAT(str_term(p), t)
    r = SymStr(t)
    r.parts = flat
    return r


def format_str(s, args):
    """parts of a format string with strings only"""
    args = list(args) if isinstance(args, tuple) else [args]
    bits = s.split("%s")
    if "%" in "".join(bits) or len(bits) != len(args) + 1 or not all(is_str(a) and not getattr(a, "opt", False) for a in args):
        return None
    out = [bits[0]]
    for a, b in zip(args, bits[1:]):
        out += [a, b]
    return concat_str(out)


# ------------------------------------------------------------------ symbolic sequences and dicts
class SList:
    """sequence indexed by an axis"""

    def __init__(self, axis, elem, kind="list"):
        self.axis = axis
        self.elem = elem
        self.kind = kind
        c = CTX[-1]
        self.birth = next(c.epoch) if c is not None and kind == "list" else 0

    def length(self):
        return A.ax_len(self.axis)

    def __repr__(self):
        return "SList(%s)" % (self.axis,)


class SDict:
    """mapping with distinct keys key(i), i in axis; values val(i)"""

    def __init__(self, axis, key, val, name="d"):
        self.axis = axis
        self.key = key
        self.val = val
        self.name = name
        self.cur = None           # (index, current value) during an iteration
        self.shared = False       # the values are also reachable through a copy
        self.extra = PDict()      # concrete keys stored besides
        c = CTX[-1]
        self.birth = next(c.epoch) if c is not None else 0

    def __repr__(self):
        return "SDict(%s)" % (self.axis,)

    def copy(self):
        r = SDict(self.axis, self.key, self.val, self.name)
        r.cur = self.cur
        r.shared = self.shared = True
        r.extra = PDict(self.extra)
        return r

    def has(self, tag):
        t = str_term(tag)
        conds = [s_eq(str_term(k), t) for k in self.extra]
        i = self.hit(t)
        if i is not None:
            conds.append(A.in_axis(self.axis, i))
        else:
            conds.append(A.exists(self.axis, lambda i: s_eq(str_term(self.key(i)), t), "k"))
        return b_or(*conds)

    def hit(self, t):
        """index when the tag is syntactically the key of an index"""
        for i in A.cases(self.axis, "h"):
            with scope():
                kt = str_term(self.key(i))
            vs = A.ivars_of(i)
            m = match_term(kt, t, vs)
            if m is not None:
                return A.rebuild_index(i, [m[v.get_id()] for v in vs])
        return None

    def lookup(self, tag):
        """value for a tag which is known to be present"""
        c = ctx()
        t = str_term(tag)
        for k in self.extra:
            if s_eq(str_term(k), t) is True:
                return self.extra[k]
        if self.extra and not c.valid(b_and(*[b_not(s_eq(str_term(k), t)) for k in self.extra])):
            for k in self.extra:
                if c.valid(s_eq(str_term(k), t)):
                    return self.extra[k]
            raise Unsupported("lookup in a mixed dict")
        if self.cur is not None:
            i, _ = self.cur[0], None
            if str_term(self.key(i)).eq(t):
                return self.cur[1]
        i = self.hit(t)
        if i is None:
            i = self.pos(t)
        return self.val(i)

    def pos(self, t):
        c = ctx()
        cs = A.cases(self.axis, "h")
        if len(cs) != 1:
            raise Unsupported("lookup in a concatenated dict")
        vs = A.ivars_of(cs[0])
        with scope():
            kt = str_term(self.key(cs[0]))
            rng = zbool(A.in_axis(self.axis, cs[0]))
        key, free = A.skeleton(z3.And(rng, kt == kt), vs)
        if key not in c.selkeys:
            c.selkeys[key] = c.fresh_name("pos_" + self.name)
        name = c.selkeys[key]
        fs = [z3.Function("%s_%d" % (name, k), *([I] * (len(free) + 2))) for k in range(len(vs))]
        args = list(free) + [t]
        i = A.rebuild_index(cs[0], [f(*args) for f in fs])
        with scope() as sc:
            ex = A.exists(self.axis, lambda j: s_eq(str_term(self.key(j)), t), "k")
            g = zbool(b_and(A.in_axis(self.axis, i), s_eq(str_term(self.key(i)), t)))
            new = sc.new()
        for f in new:
            c.assume(f)
        c.assume(z3.Implies(zbool(ex), g))
        # keys are distinct: the position of the key of any index is this index
        q = [c.ivar("k") for _ in vs]
        iq = A.rebuild_index(cs[0], q)
        with scope():
            kq = str_term(self.key(iq))
            rq = zbool(A.in_axis(self.axis, iq))
        c.assume(z3.ForAll(q, z3.Implies(z3.And(rq, kq == t), z3.And(*[f(*args) == v for f, v in zip(fs, q)]))))
        return i


def match_term(pat, t, vs):
    """one-way matching of a key pattern f(.., v, ..) against a term"""
    m = {}
    ids = {v.get_id() for v in vs}

    def go(p, u):
        if p.get_id() in ids:
            if p.get_id() in m:
                return m[p.get_id()].eq(u)
            m[p.get_id()] = u
            return True
        if p.eq(u):
            return True
        if not (z3.is_app(p) and z3.is_app(u)) or not p.decl().eq(u.decl()) or p.num_args() != u.num_args() or p.num_args() == 0:
            return False
        return all(go(a, b) for a, b in zip(p.children(), u.children()))
    if go(pat, t) and all(v.get_id() in m for v in vs):
        return m
    return None


# ------------------------------------------------------------------ callables, modules
class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "Builtin(%s)" % self.name


class Closure:
    def __init__(self, node, module, env, qual):
        self.node, self.module, self.env, self.qual = node, module, env, qual
        self.bound = None

    def __repr__(self):
        return "Closure(%s)" % self.qual


class ClassV:
    def __init__(self, name, methods, module, attrs):
        self.name, self.methods, self.module, self.attrs = name, methods, module, attrs
        self.bases, self.qual = [], name

    def find(self, name, skip=False):
        """method or attribute of the class or of its bases"""
        if not skip:
            if name in self.methods:
                return self.methods[name]
            if name in self.attrs:
                return self.attrs[name]
        for b in self.bases:
            r = b.find(name) if isinstance(b, ClassV) else None
            if r is not None:
                return r
        return None

    def is_exception(self):
        return any(b.is_exception() if isinstance(b, ClassV) else isinstance(b, type) and issubclass(b, BaseException) for b in self.bases)

    @property
    def __name__(self):
        return self.name


class Instance:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        c = CTX[-1]
        self.birth = next(c.epoch) if c is not None else 0


class Ext:
    """attribute path of an external module; calls look up the library models"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "Ext(%s)" % self.path


# ------------------------------------------------------------------ loop templates
class Template:
    """values computed at a generic index i (under hypotheses), instantiated by substitution"""

    def __init__(self, axis, i, hyps):
        self.axis, self.i, self.hyps = axis, i, list(hyps)
        self.vs = A.ivars_of(i)

    def pairs(self, i2):
        a, b = A.flat_idx(self.i), A.flat_idx(i2)
        if len(a) != len(b):
            raise Unsupported("index structure")
        return [(v, zint(w)) for v, w in zip(a, b) if is_z3(v) and is_ivar(v)]

    def inst(self, f, axes, idx, i2):
        """f(*idx) evaluated at a generic index and substituted"""
        c = ctx()
        mp = self.pairs(i2)
        same = all(v.eq(w) for v, w in mp)
        if same:
            return f(*idx)
        q, leaf = [], []

        def canon(u):
            if isinstance(u, tuple):
                return tuple(canon(x) for x in u)
            if is_z3(u):
                v = c.ivar("t")
                leaf.append((v, zint(u)))
                return v
            return u
        q = [canon(u) for u in idx]
        with scope() as sc:
            A.assume_in(self.axis, self.i)
            for h in self.hyps:
                c.hyp(h)
            if axes is not None:
                for ax, u in zip(axes, q):
                    A.assume_in(ax, u)
            val = f(*q)
            new = sc.new()
        allp = mp + leaf
        for g in new:
            g2 = z3.substitute(g, *allp)
            if not any(g2.eq(h) for h in c.facts[-60:]):
                c.assume(g2)
        return subst_value_scalar(val, allp)

    def at(self, value, i2):
        """the value at another index"""
        return subst_value(value, self, i2)


def subst_value_scalar(v, mp):
    if isinstance(v, (Cx, NanIte)) or is_z3(v):
        return subst_term(v, mp)
    if isinstance(v, SymStr):
        return SymStr(subst_term(v.term, mp), v.opt)
    return v


def subst_axis(ax, tm, i2):
    mp = tm.pairs(i2)
    if isinstance(ax, A.Range):
        return A.Range(subst_term(ax.n, mp))
    if isinstance(ax, A.Prod):
        return A.Prod([subst_axis(d, tm, i2) for d in ax.axs], ax.order)
    if isinstance(ax, A.Cat):
        return A.Cat([subst_axis(p, tm, i2) for p in ax.parts])
    if isinstance(ax, A.Sub):
        return A.Sub(subst_axis(ax.base, tm, i2), lambda j: tm.inst(ax.mask, [ax.base], (j,), i2))
    if isinstance(ax, A.Sigma):
        base = subst_axis(ax.base, tm, i2)

        def fiber(j):
            # the fiber at a generic inner index, both indices are substituted
            cs = A.cases(ax.base, "f")
            if len(cs) != 1:
                raise Unsupported("nested concatenated collection")
            t2 = Template(ax.base, cs[0], [])
            ftm = Pair(tm, t2)
            with scope() as sc:
                A.assume_in(tm.axis, tm.i)
                A.assume_in(ax.base, t2.i)
                fib = ax.fiber(t2.i)
                new = sc.new()
            A.keep_facts(ftm.vs, new)
            return subst_axis(fib, ftm, (i2, j))
        return A.Sigma(base, fiber)
    raise Unsupported("axis")


class Pair(Template):
    """two nested generic indices"""

    def __init__(self, t1, t2):
        self.t1, self.t2 = t1, t2
        self.axis = A.Sigma(t1.axis, lambda i: t2.axis)
        self.i = (t1.i, t2.i)
        self.hyps = list(t1.hyps) + list(t2.hyps)
        self.vs = A.ivars_of(self.i)


def subst_value(v, tm, i2):
    mp = tm.pairs(i2)
    if all(a.eq(b) for a, b in mp) and not isinstance(v, (dict, list)):
        return v
    if isinstance(v, (Cx, NanIte, SymStr)) or is_z3(v):
        return subst_value_scalar(v, mp)
    if isinstance(v, PDict):
        return PDict({k: subst_value(u, tm, i2) for k, u in v.items()})
    if isinstance(v, PList):
        return PList([subst_value(u, tm, i2) for u in v])
    if isinstance(v, tuple):
        return tuple(subst_value(u, tm, i2) for u in v)
    if isinstance(v, Arr):
        axes = [subst_axis(ax, tm, i2) for ax in v.axes]
        fn0, axes0 = v.fn, v.axes
        r = Arr(axes, lambda *idx: tm.inst(fn0, axes0, idx, i2), v.kind)
        r.sparse = v.sparse
        if v.mem_ is not None:
            mem0 = v.mem_
            r.mem_ = lambda x: tm.inst(mem0, None, (x,), i2)
        if v.meta.get("inv") is not None and v.ndim == 1 and isinstance(v.axes[0], (A.Range, A.Sub)):
            inv0 = v.meta["inv"]
            r.meta["inv"] = lambda x: tuple(tm.inst(lambda y, k=k: inv0(y)[k], None, (x,), i2) for k in (0, 1))
        if "sorted" in v.meta:
            r.meta["sorted"] = v.meta["sorted"]
        if "distinct" in v.meta:
            r.meta["distinct"] = v.meta["distinct"]
        if "identity" in v.meta:
            r.meta["identity"] = v.meta["identity"]
        return r
    if isinstance(v, SList):
        return SList(subst_axis(v.axis, tm, i2), lambda j: subst_inner(v.elem, v.axis, tm, i2, j), v.kind)
    if isinstance(v, SDict):
        r = SDict(subst_axis(v.axis, tm, i2), lambda j: subst_inner(v.key, v.axis, tm, i2, j), lambda j: subst_inner(v.val, v.axis, tm, i2, j), v.name)
        return r
    if hasattr(v, "vc_subst"):
        return v.vc_subst(lambda t: subst_value_scalar(t, mp))
    return v


def subst_inner(f, axis, tm, i2, j):
    cs = A.cases(axis, "f")
    if len(cs) != 1:
        raise Unsupported("nested concatenated collection")
    t2 = Template(axis, cs[0], [])
    pr = Pair(tm, t2)
    c = ctx()
    with scope() as sc:
        A.assume_in(tm.axis, tm.i)
        for h in tm.hyps:
            c.hyp(h)
        A.assume_in(axis, t2.i)
        val = f(t2.i)
        new = sc.new()
    A.keep_facts(pr.vs, new)
    return subst_value(val, pr, (i2, j))
