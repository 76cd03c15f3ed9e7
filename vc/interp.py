"""Symbolic interpreter of the real source of /repo (the syntax tree is re-read on every run).

Everything which is not understood raises Unsupported: the obligation is then undecided, never
discharged and never refuted.
"""
import ast
import builtins
import os
import z3
from vc.core import *  # noqa
from vc import arr as A
from vc.arr import Arr
from vc.values import *  # noqa
from vc import values as V


REPO = os.environ.get("VERIF_REPO", "/repo")


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Env(dict):
    pass


class Module:
    def __init__(self, name, interp):
        self.name = name
        self.interp = interp
        path = os.path.join(REPO, *name.split("."))
        self.path = path + ".py" if os.path.exists(path + ".py") else os.path.join(path, "__init__.py")
        if not os.path.exists(self.path):
            raise Unsupported("module %s not found" % name)
        with open(self.path) as f:
            self.tree = ast.parse(f.read())
        self.globals = Env()
        self.globals["__name__"] = name
        for node in self.tree.body:
            try:
                interp.exec_stmt(node, self.globals, self, self.globals)
            except Unsupported as e:
                for t in ast.walk(node):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                        self.globals[t.id] = Poison("module level: %s" % e)


EXC = {n: getattr(builtins, n) for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}


class Acc:
    """loop carried variable: only accumulating operations are understood"""

    def __init__(self, name, init, ops=()):
        self.name, self.init, self.ops = name, init, list(ops)

    def add(self, op, val):
        return Acc(self.name, self.init, self.ops + [(op, val)])

    def root(self):
        """value before the outermost loop"""
        r = self.init
        while isinstance(r, Acc):
            r = r.init
        return r

    def mutate(self, op, val):
        self.ops.append((op, val))

    def __repr__(self):
        return "Acc(%s)" % self.name


class Interp:
    def __init__(self, overrides=None):
        from vc import npmodel
        self.modules = {}
        self.lib = npmodel.MODELS
        self.np = npmodel
        self.overrides = dict(overrides or {})
        self.depth = 0
        self.entry = None          # recursive function whose body is executed once
        self.aliases = {}          # libraries with the same functions
        self.loops = {}            # function -> handler which proves and uses a loop invariant
        self.called = set()        # functions of the repository which were executed
        self.opaque_modules = ("scilogger", "pyvista", "qtpy", "matplotlib", "warnings", "vtk")

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name not in self.modules:
            self.modules[name] = None
            self.modules[name] = Module(name, self)
        return self.modules[name]

    def function(self, modname, fname):
        mod = self.module(modname)
        obj = mod.globals
        for part in fname.split("."):
            if isinstance(obj, ClassV):
                obj = obj.methods[part]
            else:
                if part not in obj:
                    raise Unsupported("%s not found in %s" % (fname, modname))
                obj = obj[part]
        return obj

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kwargs)
        if isinstance(f, ClassV):
            if f.qual in self.overrides:
                return self.overrides[f.qual](*args, **kwargs)
            obj = Instance(f)
            init = f.find("__init__")
            if isinstance(init, Closure):
                self.call_closure(init, [obj] + list(args), kwargs)
            return obj
        if isinstance(f, Opaque):
            if f.tag in self.overrides:
                return self.overrides[f.tag](*args, **kwargs)
            return Opaque(f.tag + "()")
        if isinstance(f, Instance) and "__call__" in f.cls.methods:
            return self.call_closure(f.cls.methods["__call__"], [f] + list(args), kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcValue(f, args)
        if callable(f) and getattr(f, "__vc__", False):
            return f(*args, **kwargs)
        raise Unsupported("call of %r" % (f,))

    def call_ext(self, f, args, kwargs):
        if f.path in self.overrides:
            return self.overrides[f.path](*args, **kwargs)
        if f.path in self.lib:
            ctx().assumed.add(f.path)
            return self.lib[f.path](self, args, kwargs)
        if f.path.split(".")[0] in self.opaque_modules:
            return Opaque(f.path)
        raise Unsupported("library function %s" % f.path)

    def call_closure(self, f, args, kwargs):
        if f.qual in self.overrides:
            if self.entry != f.qual:
                return self.overrides[f.qual](*args, **kwargs)
            self.entry = None
        if f.bound is not None:
            args = [f.bound] + list(args)
        self.called.add(f.qual)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion")
        try:
            env = Env()
            self.bind(f, args, kwargs, env)
            fr = Frame(f.module, env, f.env)
            fr.fqual = f.qual
            fr.owner = getattr(f, "owner", None)
            fr.self = args[0] if args else None
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
                raise Unsupported("generator function")
            try:
                self.block(f.node.body, fr)
            except ReturnEx as r:
                return r.value
            return None
        finally:
            self.depth -= 1

    def bind(self, f, args, kwargs, env):
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        defaults = f.defaults if hasattr(f, "defaults") else []
        nd = len(names) - len(defaults)
        for k, n in enumerate(names):
            if k < len(args):
                if n in kwargs:
                    raise PyRaise(TypeError, "multiple values")
                env[n] = args[k]
            elif n in kwargs:
                env[n] = kwargs.pop(n)
            elif k >= nd:
                env[n] = defaults[k - nd]
            else:
                raise PyRaise(TypeError, "missing argument " + n)
        rest = args[len(names):]
        if a.vararg:
            env[a.vararg.arg] = tuple(rest)
        elif rest:
            raise PyRaise(TypeError, "too many arguments")
        for p, d in zip(a.kwonlyargs, getattr(f, "kwdefaults", [])):
            if p.arg in kwargs:
                env[p.arg] = kwargs.pop(p.arg)
            else:
                env[p.arg] = d
        if a.kwarg:
            env[a.kwarg.arg] = PDict(kwargs)
        elif kwargs:
            raise PyRaise(TypeError, "unexpected keyword %s" % list(kwargs))

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def exec_stmt(self, st, env, module, glob):
        fr = Frame(module, env, None)
        fr.is_module = True
        self.stmt(st, fr)

    def stmt(self, st, fr):
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(st).__name__)
        return m(st, fr)

    def st_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def st_Pass(self, st, fr):
        pass

    def st_Import(self, st, fr):
        for a in st.names:
            if a.asname:
                fr.env[a.asname] = self.import_name(a.name)
            else:
                fr.env[a.name.split(".")[0]] = self.import_name(a.name.split(".")[0])

    def st_ImportFrom(self, st, fr):
        for a in st.names:
            full = st.module + "." + a.name
            base = os.path.join(REPO, *full.split("."))
            if a.name == "*":
                if st.module.split(".")[0] != "pypeec":
                    raise Unsupported("star import of %s" % st.module)
                g = self.module(st.module).globals
                for n, x in dict.items(g):
                    if n in g["__all__"] if "__all__" in g else not n.startswith("_"):
                        fr.env[n] = x
            elif st.module.split(".")[0] == "pypeec":
                if os.path.exists(base + ".py") or os.path.isdir(base):
                    fr.env[a.asname or a.name] = ModRef(full)
                else:
                    fr.env[a.asname or a.name] = self.getattr(ModRef(st.module), a.name)
            else:
                fr.env[a.asname or a.name] = Ext(full)

    def import_name(self, name):
        if name.split(".")[0] == "pypeec":
            return ModRef(name)
        if name.split(".")[0] in self.aliases:
            name = ".".join([self.aliases[name.split(".")[0]]] + name.split(".")[1:])
        return Ext(name)

    def st_FunctionDef(self, st, fr):
        qual = (fr.qual + "." if fr.qual else "") + st.name
        cl = Closure(st, fr.module, fr, fr.module.name + ":" + qual if fr.module else qual)
        cl.defaults = [self.ev(d, fr) for d in st.args.defaults]
        cl.kwdefaults = [None if d is None else self.ev(d, fr) for d in st.args.kw_defaults]
        cl.deco = [ast.unparse(d) for d in st.decorator_list]
        fr.env[st.name] = cl

    def st_ClassDef(self, st, fr):
        methods, attrs = {}, {}
        sub = Frame(fr.module, Env(), fr)
        sub.qual = (fr.qual + "." if fr.qual else "") + st.name
        for node in st.body:
            if isinstance(node, ast.Expr):
                continue
            self.stmt(node, sub)
        for k, v in sub.env.items():
            if isinstance(v, Closure):
                methods[k] = v
            else:
                attrs[k] = v
        cl = ClassV(st.name, methods, fr.module, attrs)
        cl.qual = fr.module.name + ":" + sub.qual
        cl.bases = [self.ev(b, fr) for b in st.bases]
        for m in methods.values():
            m.owner = cl
        fr.env[st.name] = cl

    def st_Global(self, st, fr):
        fr.globals_.update(st.names)

    def st_Return(self, st, fr):
        raise ReturnEx(None if st.value is None else self.ev(st.value, fr))

    def st_Break(self, st, fr):
        raise BreakEx()

    def st_Continue(self, st, fr):
        raise ContinueEx()

    def st_Assert(self, st, fr):
        if not self.truth(self.ev(st.test, fr), ast.unparse(st.test)):
            raise PyRaise(AssertionError)

    def st_Raise(self, st, fr):
        if st.exc is None:
            if fr.handling is not None:
                raise fr.handling
            raise Unsupported("re-raise")
        e = self.ev(st.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            raise PyRaise(e)
        if isinstance(e, Instance) and e.cls.is_exception():
            raise PyRaise(e.cls, "", e)
        if isinstance(e, ClassV) and e.is_exception():
            raise PyRaise(e, "", self.call(e, []))
        if isinstance(e, ExcValue):
            raise PyRaise(e.cls, repr(e.args[0]) if e.args else "", e)
        raise Unsupported("raise %r" % (e,))

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            else:
                raise Unsupported("del")

    def st_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def st_AugAssign(self, st, fr):
        t = st.target
        load = ast.copy_location(ast.fix_missing_locations(_as_load(t)), t)
        cur = self.ev(load, fr)
        val = self.ev(st.value, fr)
        if hasattr(cur, "vc_iadd") and isinstance(st.op, ast.Add):
            self.assign(t, cur.vc_iadd(self, val), fr)
            return
        if isinstance(cur, list) and isinstance(st.op, ast.Add) and not isinstance(val, Arr):
            V.check_mutable(cur)
            if isinstance(val, SList):
                self.assign(t, self.binop(st.op, cur, val), fr)
                return
            cur.extend(val)
            return
        r = self.binop(st.op, cur, val)
        if isinstance(cur, Arr) and isinstance(r, Arr):
            # in place: the shape and the kind of the target are kept
            if A.RANK[r.kind] > A.RANK[cur.kind] and not cur.sparse:
                raise Unsupported("in place operation changes the kind")
            if not cur.sparse:
                if len(r.axes) != len(cur.axes):
                    raise Unsupported("in place operation changes the shape")
                cur.assign(r.fn)
                if isinstance(t, ast.Name):
                    return
                r = cur
        self.assign(t, r, fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                fr.module.globals[t.id] = v
            else:
                fr.env[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), t.elts)
            for e, u in zip(t.elts, items):
                self.assign(e, u, fr)
            return
        if isinstance(t, ast.Subscript):
            obj = self.ev(t.value, fr)
            key = self.ev(t.slice, fr)
            self.store(obj, key, v)
            return
        if isinstance(t, ast.Attribute):
            obj = self.ev(t.value, fr)
            if isinstance(obj, Instance):
                V.check_mutable(obj)
                obj.attrs[t.attr] = v
                return
            if isinstance(obj, Arr):
                return self.np.set_attr(obj, t.attr, v)
            if isinstance(obj, Opaque):
                return
            if hasattr(obj, "vc_setattr"):
                return obj.vc_setattr(t.attr, v)
        raise Unsupported("assignment target")

    def unpack(self, v, n, elts=None):
        if isinstance(v, Acc):
            raise Unsupported("unpacking of a loop carried value")
        if isinstance(v, Arr):
            if v.ndim < 1:
                raise Unsupported("unpack scalar")
            L = A.ax_len(v.axes[0])
            if not ctx().truth(s_eq(L, n), "unpack %d values" % n):
                raise PyRaise(ValueError, "unpack")
            return [A.getitem(v, (k,)) for k in range(n)]
        if isinstance(v, SList):
            if not ctx().truth(s_eq(v.length(), n), "unpack %d values" % n):
                raise PyRaise(ValueError, "unpack")
            return [v.elem(A.pos_to_index(v.axis, k)) for k in range(n)]
        if isinstance(v, (tuple, list)):
            if len(v) != n:
                raise PyRaise(ValueError, "unpack")
            return list(v)
        if hasattr(v, "vc_unpack"):
            return v.vc_unpack(n)
        raise Unsupported("unpack %r" % (v,))

    def store(self, obj, key, v):
        if hasattr(obj, "vc_store"):
            obj.vc_store(self, key, v)
            return
        if isinstance(obj, Acc):
            obj.mutate("store", (key, v))
            return
        if isinstance(obj, Arr):
            A.setitem(obj, self.index_key(key), v)
            return
        if isinstance(obj, PDict):
            V.check_mutable(obj)
            if isinstance(key, SymStr):
                raise Unsupported("symbolic key stored in a concrete dict")
            obj[key] = v
            return
        if isinstance(obj, SDict):
            if obj.cur is not None and is_str(key) and str_term(key).eq(str_term(obj.key(obj.cur[0]))):
                obj.cur = (obj.cur[0], v)
                return
            V.check_mutable(obj)
            if isinstance(key, str) or key is None:
                if ctx().valid(b_not(obj.has(key))):
                    obj.extra[key] = v
                    return
            old = obj.val
            has = obj.has(key)
            if not ctx().valid(has):
                raise Unsupported("store of a possibly new key")
            t = str_term(key)
            obj.val = lambda i: decided_merge(s_eq(str_term(obj.key(i)), t), v, lambda: old(i))
            return
        if isinstance(obj, PList):
            V.check_mutable(obj)
            if isinstance(key, int):
                if not -len(obj) <= key < len(obj):
                    raise PyRaise(IndexError)
                obj[key] = v
                return
        raise Unsupported("item assignment on %r" % (obj,))

    def st_If(self, st, fr):
        if self.truth(self.ev(st.test, fr), ast.unparse(st.test)[:80]):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def truth(self, v, what=""):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, Arr):
            n = 1
            for ax in v.axes:
                n = s_mul(n, A.ax_len(ax))
            if not ctx().valid(s_eq(n, 1)):
                raise Unsupported("truth value of an array")
            v = v.fn(*[A.pos_to_index(ax, 0) for ax in v.axes])
        if is_scalar(v):
            return ctx().truth(zbool(v) if is_z3(v) else bool(v), what)
        if isinstance(v, (list, tuple, dict, str, set)):
            return len(v) > 0
        if isinstance(v, SList):
            return ctx().truth(b_not(s_eq(v.length(), 0)), what)
        if isinstance(v, SDict):
            return ctx().truth(b_not(s_eq(A.ax_len(v.axis), 0)), what)
        if isinstance(v, (Closure, Builtin, Instance, ClassV, Ext)):
            return True
        if hasattr(v, "vc_truth"):
            return ctx().truth(v.vc_truth(self), what)
        raise Unsupported("truth value of %r" % (v,))

    def st_With(self, st, fr):
        for it in st.items:
            v = self.ev(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(st.body, fr)

    def st_Try(self, st, fr):
        try:
            try:
                self.block(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    if self.matches(h, e, fr):
                        if h.name:
                            fr.env[h.name] = e.value if e.value is not None else ExcValue(e.cls, (e.msg,))
                        old = fr.handling
                        fr.handling = e
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.handling = old
                        break
                else:
                    raise
            else:
                self.block(st.orelse, fr)
        finally:
            self.block(st.finalbody, fr)

    def matches(self, h, e, fr):
        if h.type is None:
            return True
        t = self.ev(h.type, fr)
        ts = t if isinstance(t, tuple) else (t,)
        for u in ts:
            if sub_class(e.cls, u):
                return True
            if not isinstance(u, (type, ClassV)):
                raise Unsupported("exception class %r" % (u,))
        return False

    def st_While(self, st, fr):
        h = self.loops.get(fr.fqual)
        if h is not None and h(self, st, None, fr):
            return
        lim = 64
        while True:
            if not self.truth(self.ev(st.test, fr), ast.unparse(st.test)[:60]):
                self.block(st.orelse, fr)
                return
            lim -= 1
            if lim == 0:
                raise Unsupported("while loop without invariant")
            try:
                self.block(st.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                pass

    def st_For(self, st, fr):
        from vc import loops
        seq = self.iterate(self.ev(st.iter, fr))
        if isinstance(seq, SList):
            h = self.loops.get(fr.fqual, self.loops.get("*"))
            if h is not None and h(self, st, seq, fr):
                return
            loops.run_for(self, st, seq, fr)
            return
        for v in seq:
            self.assign(st.target, v, fr)
            try:
                self.block(st.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.block(st.orelse, fr)

    def iterate(self, v):
        """concrete list of values or an SList"""
        if hasattr(v, "vc_iter"):
            return v.vc_iter(self)
        if getattr(v, "stale", None):
            raise Unsupported(v.stale)
        if isinstance(v, (SList, PList)) and getattr(v, "once", False):
            # an iterator: it is empty after the first iteration
            if v.once == "used":
                raise Unsupported("second iteration over an iterator")
            v.once = "used"
        if isinstance(v, Acc):
            raise Unsupported("iteration over a loop carried value")
        if isinstance(v, (list, tuple, range)):
            return list(v)
        if isinstance(v, set):
            if len(v) <= 1:
                return list(v)
            raise Unsupported("iteration order of a set")
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, SList):
            return concretize(v)
        if isinstance(v, SDict):
            return concretize(SList(v.axis, v.key, "keys"))
        if isinstance(v, Arr):
            ax = v.axes[0]
            return concretize(SList(ax, lambda i: A.getitem_idx(v, i), "arr"))
        if isinstance(v, str):
            return list(v)
        raise Unsupported("iteration over %r" % (v,))

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        v = m(e, fr)
        if isinstance(v, Poison):
            raise Unsupported("use of %s" % v.why)
        return v

    def ex_Constant(self, e, fr):
        if isinstance(e.value, float):
            if e.value in (float("inf"), -float("inf")):
                return Inf(1 if e.value > 0 else -1)
            return frac(e.value) if e.value == e.value else NaN()
        return e.value

    def ex_Name(self, e, fr):
        return self.name(e.id, fr)

    def name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.env and n not in f.globals_:
                return f.env[n]
            f = f.parent
        g = fr.module.globals if fr.module is not None else {}
        if n in g:
            return g[n]
        if n in self.np.BUILTINS:
            return self.np.BUILTINS[n]
        if n in EXC:
            return EXC[n]
        raise Unsupported("name %s" % n)

    def ex_Tuple(self, e, fr):
        return tuple(self.elements(e.elts, fr))

    def ex_List(self, e, fr):
        return PList(self.elements(e.elts, fr))

    def ex_Set(self, e, fr):
        return PSet(self.elements(e.elts, fr))

    def elements(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.iterate(self.ev(x.value, fr))
                if isinstance(v, SList):
                    raise Unsupported("star of a symbolic sequence")
                out += list(v)
            else:
                out.append(self.ev(x, fr))
        return out

    def ex_Dict(self, e, fr):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                u = self.ev(v, fr)
                if not isinstance(u, dict):
                    raise Unsupported("dict unpacking")
                d.update(u)
            else:
                key = self.ev(k, fr)
                if isinstance(key, SymStr):
                    raise Unsupported("symbolic key")
                d[key] = self.ev(v, fr)
        return d

    def ex_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if is_str(x) and not getattr(x, "opt", False) and v.format_spec is None and v.conversion in (-1, 115):
                    parts.append(x)
                else:
                    return Opaque("str")
        return concat_str(parts)

    def ex_FormattedValue(self, e, fr):
        return Opaque("str")

    def ex_Lambda(self, e, fr):
        cl = Closure(e, fr.module, fr, "<lambda>")
        cl.defaults = [self.ev(d, fr) for d in e.args.defaults]
        return cl

    def ex_IfExp(self, e, fr):
        if self.truth(self.ev(e.test, fr), ast.unparse(e.test)[:60]):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def ex_Starred(self, e, fr):
        raise Unsupported("star expression")

    def acc_bool(self, e, fr, isand):
        """status = status and condition: the conditions are accumulated"""
        acc, rest = None, []
        for x in e.values:
            try:
                v = self.ev(x, fr)
            except PyRaise:
                raise Unsupported("error in a boolean operation on a loop carried value")
            if isinstance(v, Acc):
                if acc is not None or not is_bool(v.init):
                    raise Unsupported("boolean operation on loop carried values")
                acc = v
            elif is_bool(v):
                rest.append(v)
            else:
                raise Unsupported("boolean operation on a loop carried value")
        return acc.add("and" if isand else "or", b_and(*rest) if isand else b_or(*rest))

    def ex_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        vals = []
        for x in e.values:
            if isinstance(x, ast.Name):
                try:
                    v = self.name(x.id, fr)
                except Unsupported:
                    continue
                if isinstance(v, Acc):
                    return self.acc_bool(e, fr, isand)
        for k, x in enumerate(e.values):
            v = self.ev(x, fr)
            if isinstance(v, Acc):
                raise Unsupported("boolean operation on a loop carried value")
            if is_bool(v):
                if isinstance(v, bool):
                    if v != isand:
                        return v if not vals else (b_and(*vals, v) if isand else b_or(*vals, v))
                    if k == len(e.values) - 1 and not vals:
                        return v
                    continue
                # short circuit matters when the next operand may fail: evaluate it under the guard
                if k < len(e.values) - 1 and not pure_bool(e.values[k + 1:]):
                    t = self.truth(v, ast.unparse(x)[:60])
                    if t != isand:
                        return t
                    continue
                vals.append(v)
                continue
            if vals:
                raise Unsupported("mixed boolean operation")
            t = self.truth(v, ast.unparse(x)[:60])
            if k == len(e.values) - 1 or t != isand:
                return v
        if not vals:
            return isand
        return b_and(*vals) if isand else b_or(*vals)

    def ex_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Acc):
                raise Unsupported("not of a loop carried value")
            if is_bool(v):
                return b_not(v)
            return not self.truth(v, ast.unparse(e.operand)[:60])
        if isinstance(e.op, ast.USub):
            if isinstance(v, Arr):
                r = A.elementwise(s_neg, v)
                if isinstance(r, Arr):
                    r.sparse = v.sparse
                return r
            if is_num(v) or v.__class__ in SPECIAL:
                return s_neg(v)
            return self.np.method(self, v, "__neg__", [], {})
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Arr) and v.kind == "bool":
                return A.elementwise(b_not, v)
            if is_bool(v) and is_z3(v):
                return b_not(v)
        raise Unsupported("unary operator")

    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.Pow: "**", ast.FloorDiv: "//", ast.MatMult: "@",
           ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}

    def ex_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        o = self.OPS.get(type(op))
        if o is None:
            raise Unsupported("operator")
        if o == "%" and isinstance(a, (str, Opaque)):
            if isinstance(a, str) and isinstance(b, (str, int)) and not isinstance(b, bool):
                try:
                    return a % b
                except TypeError:
                    raise PyRaise(TypeError)
            r = format_str(a, b) if isinstance(a, str) else None
            return Opaque("str") if r is None else r
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("op")
        if isinstance(a, str) and isinstance(b, str) and o == "+":
            return a + b
        if is_str(a) and is_str(b) and o == "+":
            return concat_str([a, b])
        if isinstance(a, Acc) or isinstance(b, Acc):
            return self.acc_op(o, a, b)
        if o == "@":
            return self.np.matmul(self, a, b)
        if isinstance(a, (list, SList)) and isinstance(b, (list, SList)) and o == "+":
            return list_concat(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and o == "+":
            return a + b
        if isinstance(a, (list, tuple)) and isinstance(b, int) and o == "*":
            return type(a)(list(a) * b)
        if isinstance(b, list) and isinstance(a, int) and o == "*":
            return PList(list(b) * a)
        if o == "*" and isinstance(a, list) and len(a) == 1 and is_z3(b) and ctx().valid(s_cmp(">=", b, 0)):
            x = a[0]
            return SList(A.Range(b), lambda i: x)
        if (is_scalar(a) or a.__class__ in SPECIAL) and (is_scalar(b) or b.__class__ in SPECIAL):
            return self.scalar_op(o, a, b)
        if isinstance(a, (Arr,)) or isinstance(b, (Arr,)):
            sa, sb = isinstance(a, Arr) and a.sparse, isinstance(b, Arr) and b.sparse
            if o == "*" and (sa or sb):
                if is_scalar(a) or is_scalar(b):
                    r = A.elementwise(s_mul, a, b)
                    r.sparse = True
                    return r
                return self.np.matmul(self, a, b)
            if o == "**" and (sa or sb):
                raise Unsupported("power of a sparse matrix")
            if o in ("+", "-") and (sa != sb) and (isinstance(a, Arr) and isinstance(b, Arr)):
                r = A.binop(o, a, b)
                r.sparse = False
                return r
            r = A.binop(o, a, b)
            if isinstance(r, Arr) and (sa or sb):
                r.sparse = True
            return r
        if isinstance(a, Instance) or isinstance(b, Instance):
            raise Unsupported("operator on an instance")
        if o == "-" and (isinstance(a, Cx) and isinstance(b, (SList, list)) or isinstance(b, Cx) and isinstance(a, (SList, list))):
            # a complex power is a numpy number
            return A.binop(o, *[self.np.to_array(self, x) if isinstance(x, (SList, list)) else x for x in (a, b)])
        return self.np.object_op(self, o, a, b)

    def scalar_op(self, o, a, b):
        f = {"+": s_add, "-": s_sub, "*": s_mul, "/": s_div, "**": s_pow, "//": s_floordiv, "%": s_mod}.get(o)
        if o in ("&", "|") and is_bool(a) and is_bool(b):
            return b_and(a, b) if o == "&" else b_or(a, b)
        if f is None:
            raise Unsupported("operator %s" % o)
        if o in ("/", "//", "%") and not isconst(b) and is_num(b) and not isinstance(b, Cx):
            ctx().safe("division by zero", b_not(s_eq(b, 0)))
        if o in ("/", "//", "%") and isconst(b) and b == 0:
            raise PyRaise(ZeroDivisionError)
        return f(a, b)

    def acc_op(self, o, a, b):
        if o == "+" and isinstance(a, Acc) and not isinstance(b, Acc):
            if isinstance(a.root(), (list, SList)):
                return a.add("extend", b)
            return a.add("add", b)
        if o == "+" and isinstance(b, Acc) and not isinstance(a, Acc) and not isinstance(b.root(), (list, SList)):
            return b.add("add", a)
        if o == "-" and isinstance(a, Acc) and not isinstance(b, Acc):
            return a.add("add", s_neg(b) if is_num(b) else A.elementwise(s_neg, b))
        raise Unsupported("operation on the loop carried variable %s" % (a.name if isinstance(a, Acc) else b.name))

    def ex_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            out.append(self.compare(op, left, right))
            left = right
        if len(out) == 1:
            return out[0]
        if all(is_bool(x) for x in out):
            return b_and(*out)
        raise Unsupported("chained comparison")

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, Acc) or isinstance(b, Acc):
                raise Unsupported("identity of a loop carried value")
            if a is None or b is None:
                o = b if a is None else a
                r = s_eq(o.term, V.NONE) if isinstance(o, SymStr) and o.opt else (a is None) and (b is None)
            elif isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            elif is_bool(a) and is_bool(b):
                r = s_eq(a, b)
            else:
                r = a is b
            return r if isinstance(op, ast.Is) else b_not(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else b_not(r)
        if isinstance(a, Acc) or isinstance(b, Acc):
            raise Unsupported("comparison of a loop carried value")
        o = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None:
                return o == "!="
            return A.binop(o, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("comparison of an opaque value")
        if o in ("==", "!="):
            r = eq_value(a, b)
            return r if o == "==" else b_not(r)
        if is_scalar(a) and is_scalar(b):
            return s_cmp(o, a, b)
        raise Unsupported("comparison of %r and %r" % (a, b))

    def contains(self, coll, x):
        if isinstance(coll, Acc):
            raise Unsupported("membership in a loop carried value")
        if isinstance(coll, SDict):
            return coll.has(x)
        if hasattr(coll, "vc_contains"):
            return coll.vc_contains(self, x)
        if isinstance(coll, (dict, list, tuple, set)):
            return b_or(*[eq_value(k, x) for k in coll])
        if isinstance(coll, SList):
            return A.exists(coll.axis, lambda i: eq_value(coll.elem(i), x), "k")
        if isinstance(coll, Arr):
            if isinstance(x, Arr):
                raise Unsupported("array in array")
            return A.mem(coll, x)
        if isinstance(coll, str) and isinstance(x, str):
            return x in coll
        if isinstance(coll, range) and coll.step == 1:
            return b_and(s_cmp("<=", coll.start, x), s_cmp("<", x, coll.stop))
        raise Unsupported("membership in %r" % (coll,))

    def ex_Attribute(self, e, fr):
        obj = self.ev(e.value, fr)
        return self.getattr(obj, e.attr)

    def getattr(self, obj, name):
        if isinstance(obj, Ext):
            full = obj.path + "." + name
            if full in self.overrides and not callable(self.overrides[full]):
                return self.overrides[full]
            return self.np.ext_attr(obj, name)
        if isinstance(obj, ModRef):
            full = obj.name + "." + name
            base = os.path.join(REPO, *full.split("."))
            if os.path.exists(base + ".py"):
                return ModRef(full)
            g = self.module(obj.name).globals
            if name in g:
                return g[name]
            if os.path.isdir(base):
                return ModRef(full)
            raise Unsupported("attribute %s" % full)
        if isinstance(obj, Opaque):
            return Opaque(obj.tag + "." + name)
        if isinstance(obj, Instance):
            if name in obj.attrs:
                return obj.attrs[name]
            m = obj.cls.find(name)
            if isinstance(m, Closure):
                return bind_method(m, obj)
            if m is not None:
                return m
            raise PyRaise(AttributeError, name)
        if isinstance(obj, Super):
            m = obj.owner.find(name, True)
            if isinstance(m, Closure):
                return bind_method(m, obj.obj)
            if m is None and name == "__init__":
                return Builtin("init", lambda ip, args, kwargs: None)
            raise PyRaise(AttributeError, name)
        if isinstance(obj, ClassV):
            m = obj.find(name)
            if m is not None:
                return m
            raise PyRaise(AttributeError, name)
        if hasattr(obj, "vc_attr") and name not in getattr(obj, "__vc_methods__", ()):
            return obj.vc_attr(name)
        return self.np.attribute(self, obj, name)

    def ex_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and not e.keywords:
            g = fr
            while g is not None and getattr(g, "owner", None) is None:
                g = g.parent
            if g is None:
                raise Unsupported("super")
            return Super(g.owner, g.self)
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                v = self.iterate(v)
                if isinstance(v, SList):
                    args.append(StarArg(v))
                else:
                    args += list(v)
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if not isinstance(d, dict):
                    raise Unsupported("keyword unpacking")
                kwargs.update(d)
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kwargs)

    def ex_Subscript(self, e, fr):
        obj = self.ev(e.value, fr)
        key = self.ev(e.slice, fr)
        return self.item(obj, key)

    def ex_Slice(self, e, fr):
        def g(x):
            return None if x is None else self.ev(x, fr)
        return slice(g(e.lower), g(e.upper), g(e.step))

    def index_key(self, key):
        def one(k):
            if isinstance(k, slice):
                return slice(unbox(k.start), unbox(k.stop), unbox(k.step))
            if isinstance(k, SList):
                return self.np.to_array(self, k)
            return unbox(k)
        if isinstance(key, tuple):
            return tuple(one(k) for k in key)
        return one(key)

    def item(self, obj, key):
        if isinstance(obj, Acc):
            return self.acc_item(obj, key)
        if isinstance(obj, Arr):
            try:
                return A.getitem(obj, self.index_key(key))
            except A.PyIndexError:
                raise PyRaise(IndexError)
        if isinstance(obj, SDict):
            if obj.cur is not None and is_str(key) and str_term(key).eq(str_term(obj.key(obj.cur[0]))):
                return obj.cur[1]
            if not self.np.known_present(obj, key):
                if not ctx().truth(obj.has(key), "key present"):
                    raise PyRaise(KeyError)
            return obj.lookup(key)
        if isinstance(obj, dict):
            if isinstance(key, SymStr):
                ks = list(obj.keys())
                for k in ks:
                    if ctx().truth(s_eq(str_term(k), key.term), "key is %s" % k):
                        return obj[k]
                raise PyRaise(KeyError)
            if is_z3(key):
                raise Unsupported("symbolic key of a concrete dict")
            if key not in obj:
                raise PyRaise(KeyError, str(key))
            return obj[key]
        if isinstance(obj, (list, tuple)):
            if isinstance(key, slice):
                if any(is_z3(x) for x in (key.start, key.stop, key.step)):
                    raise Unsupported("symbolic slice of a list")
                r = obj[key]
                return PList(r) if isinstance(obj, list) else r
            key = unbox(key)
            if isinstance(key, int):
                if not -len(obj) <= key < len(obj):
                    raise PyRaise(IndexError)
                return obj[key]
            if is_z3(key):
                n = len(obj)
                ctx().safe("index in range", b_and(s_cmp("<=", -n, key), s_cmp("<", key, n)))
                conds = [b_or(s_eq(key, k), s_eq(key, k - n)) for k in range(n)]
                return merge_values(conds, list(obj))
        if isinstance(obj, SList):
            key = unbox(key)
            if isinstance(key, slice):
                if isinstance(obj.axis, A.Range) and key.step in (None, 1):
                    ln, fwd, _ = A.slice_map(key, obj.axis.n)
                    return SList(A.Range(ln), lambda i: obj.elem(fwd(i)), obj.kind)
                raise Unsupported("slice of a symbolic list")
            n = obj.length()
            if isinstance(key, int) and key < 0:
                key = s_add(n, key)
            if not ctx().truth(b_and(s_cmp("<=", 0, key), s_cmp("<", key, n)), "list index in range"):
                raise PyRaise(IndexError)
            return obj.elem(A.pos_to_index(obj.axis, key))
        if isinstance(obj, str) and isinstance(key, (int, slice)):
            return obj[key]
        if isinstance(obj, Opaque):
            return Opaque(obj.tag + "[]")
        return self.np.object_item(self, obj, key)

    def acc_item(self, obj, key):
        for op, v in reversed(obj.ops):
            if op == "store":
                k, val = v
                if is_str(k) and is_str(key) and str_term(k).eq(str_term(key)):
                    return val
        raise Unsupported("read of the loop carried variable %s" % obj.name)

    # comprehensions
    def ex_ListComp(self, e, fr):
        r = self.comp(e, fr)
        return PList(r) if isinstance(r, list) else r

    def ex_GeneratorExp(self, e, fr):
        r = self.comp(e, fr)
        return PList(r) if isinstance(r, list) else r

    def ex_SetComp(self, e, fr):
        r = self.comp(e, fr)
        if isinstance(r, SList):
            raise Unsupported("set of symbolic size")
        return PSet(r)

    def ex_DictComp(self, e, fr):
        from vc import loops
        if len(e.generators) != 1:
            raise Unsupported("nested dict comprehension")
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        ast.copy_location(pair, e)
        r = self.comp2(pair, e.generators, fr)
        if isinstance(r, SList):
            keys = A.forall([r.axis, r.axis], lambda i, j: b_implies(s_eq(str_term(r.elem(i)[0]), str_term(r.elem(j)[0])), b_and(*[s_eq(p, q) for p, q in zip(A.flat_idx(i), A.flat_idx(j))])))
            if not ctx().valid(keys):
                raise Unsupported("the keys of a dict may be equal")
            return SDict(r.axis, lambda i: r.elem(i)[0], lambda i: r.elem(i)[1])
        d = PDict()
        for k, v in r:
            if isinstance(k, SymStr):
                raise Unsupported("symbolic key")
            d[k] = v
        return d

    def comp(self, e, fr):
        return self.comp2(e.elt, e.generators, fr)

    def comp2(self, elt, gens, fr):
        from vc import loops
        sub = Frame(fr.module, Env(), fr)
        sub.qual = fr.qual
        g = gens[0]
        seq = self.iterate(self.ev(g.iter, fr))
        if isinstance(seq, SList):
            return loops.run_comp(self, elt, gens, seq, sub)
        out = []
        for v in seq:
            self.assign(g.target, v, sub)
            if not all(self.truth(self.ev(c, sub)) for c in g.ifs):
                continue
            if len(gens) > 1:
                r = self.comp2(elt, gens[1:], sub)
                if isinstance(r, SList):
                    raise Unsupported("nested symbolic comprehension")
                out += r
            else:
                out.append(self.ev(elt, sub))
        return out


def pure_bool(exprs):
    """evaluating the operands cannot fail and has no effect: names, comparisons, len, np.all ..."""
    for e in exprs:
        for n in ast.walk(e):
            if isinstance(n, (ast.Subscript, ast.Await, ast.NamedExpr)):
                return False
    return True


def sub_class(c, u):
    if c is u:
        return True
    if isinstance(c, ClassV):
        return any(sub_class(b, u) for b in c.bases)
    return isinstance(c, type) and isinstance(u, type) and issubclass(c, u)


def bind_method(m, obj):
    if "staticmethod" in getattr(m, "deco", []):
        return m
    if getattr(m, "deco", []):
        raise Unsupported("decorated method")
    b = Closure(m.node, m.module, m.env, m.qual)
    b.defaults, b.kwdefaults, b.bound, b.owner = m.defaults, m.kwdefaults, obj, getattr(m, "owner", None)
    return b


class Super:
    def __init__(self, owner, obj):
        self.owner, self.obj = owner, obj


class ExcValue:
    def __init__(self, cls, args):
        self.cls, self.args = cls, tuple(args)


class ModRef:
    def __init__(self, name):
        self.name = name


class StarArg:
    def __init__(self, v):
        self.v = v


class Frame:
    def __init__(self, module, env, parent):
        self.module, self.env = module, env
        self.parent = parent if isinstance(parent, Frame) and not getattr(parent, "is_module", False) else None
        self.globals_ = set()
        self.qual = ""
        self.handling = None
        self.is_module = False
        self.fqual = None


def _as_load(t):
    import copy
    t2 = copy.deepcopy(t)
    for n in ast.walk(t2):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t2


def unbox(k):
    """0-d arrays and constant terms as plain scalars"""
    if isinstance(k, Arr) and k.ndim == 0:
        k = k.fn()
    if isinstance(k, Fraction) and k.denominator == 1:
        raise PyRaise(IndexError, "float index")
    return pyval(k) if is_z3(k) else k


def eq_value(a, b):
    if a is b:
        return True
    if is_str(a) and is_str(b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return s_eq(str_term(a), str_term(b))
    if is_scalar(a) and is_scalar(b):
        return s_eq(a, b)
    if a is None or b is None:
        o = b if a is None else a
        if isinstance(o, SymStr) and o.opt:
            return s_eq(o.term, V.NONE)
        return a is b
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and type(a).__mro__[-2] is type(b).__mro__[-2]:
        if len(a) != len(b):
            return False
        return b_and(*[eq_value(u, v) for u, v in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return b_and(*[eq_value(a[k], b[k]) for k in a])
    if (is_str(a) and is_scalar(b)) or (is_scalar(a) and is_str(b)):
        return False
    if (is_str(a) or is_scalar(a)) != (is_str(b) or is_scalar(b)):
        if not isinstance(a, (Arr, Opaque, Acc)) and not isinstance(b, (Arr, Opaque, Acc)):
            return False
    raise Unsupported("equality of %r and %r" % (a, b))


def list_concat(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return PList(list(a) + list(b))

    def as_s(x):
        if isinstance(x, SList):
            return x.axis, x.elem
        items = list(x)
        return A.Range(len(items)), (lambda i: items[i] if isinstance(i, int) else merge_values([s_eq(i, k) for k in range(len(items))], items))
    (ax, fx), (ay, fy) = as_s(a), as_s(b)
    if isinstance(ax, A.Range) and ax.n == 0 and isinstance(ax.n, int):
        return SList(ay, fy)
    if isinstance(ay, A.Range) and isinstance(ay.n, int) and ay.n == 0:
        return SList(ax, fx)
    return SList(A.Cat([ax, ay]), lambda i: fx(i[1]) if i[0] == 0 else fy(i[1]))


def merge_values(conds, vals):
    """the value of the first condition which holds (the last one is the default)"""
    v = vals[-1]
    for c, u in zip(reversed(conds[:-1]), reversed(vals[:-1])):
        v = merge2(c, u, v)
    return v


def decided_merge(c, a, b):
    """a if c else b(), without a merge when the condition is known"""
    if not isinstance(c, bool):
        for g in (zbool(c), z3.Not(zbool(c))):
            if any(g.eq(f) for f in ctx().facts[-40:]):
                c = g.eq(zbool(c))
                break
    if isinstance(c, bool):
        return a if c else b()
    return merge2(c, a, b())


def merge2(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if is_str(a) and is_str(b):
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        return SymStr(z3.If(zbool(c), str_term(a), str_term(b)), any(getattr(x, "opt", False) for x in (a, b)))
    if isinstance(a, SymStr) and b is None or isinstance(b, SymStr) and a is None:
        return SymStr(z3.If(zbool(c), str_term(a), str_term(b)), True)
    if (is_scalar(a) or a.__class__ in SPECIAL) and (is_scalar(b) or b.__class__ in SPECIAL):
        return s_ite(c, a, b)
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
        return PDict({k: merge2(c, a[k], b[k]) for k in a})
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge2(c, u, v) for u, v in zip(a, b))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return PList([merge2(c, u, v) for u, v in zip(a, b)])
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim:
        if all(A.ax_same(p, q) for p, q in zip(a.axes, b.axes)):
            fa, fb = a.fn, b.fn
            r = Arr(a.axes, lambda *i: s_ite(c, fa(*i), fb(*i)), A.join_kind(a.kind, b.kind))
            if a.ndim == 1:
                r.mem_ = lambda x: s_ite(c, A.mem(a, x), A.mem(b, x))
            return r
        if a.ndim == 1:
            return A.guarded_cat([(c, a), (b_not(c), b)])
    if a is None and b is None:
        return None
    if isinstance(a, SList) and isinstance(b, SList) and A.ax_same(a.axis, b.axis):
        return SList(a.axis, lambda j: merge2(c, a.elem(j), b.elem(j)))
    raise Unsupported("merge of %r and %r" % (a, b))


def concretize(sl):
    """a symbolic list of a constant small length becomes a plain list"""
    ax = sl.axis
    if isinstance(ax, A.Range) and isinstance(ax.n, int) and ax.n <= 64:
        return [sl.elem(k) for k in range(ax.n)]
    return sl
