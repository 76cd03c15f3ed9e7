"""Loops over collections of symbolic length.

The body is executed once at a generic index (all its paths).  Variables which are carried from
one iteration to the next may only be used by accumulating operations (append, +, dict store at
the key of the iteration, ...); by induction the value after the loop is the fold of the
contributions of the iterations.  Anything else is Unsupported.
"""
import ast
import z3
from vc.core import *  # noqa
from vc import arr as A
from vc.arr import Arr
from vc.values import *  # noqa
from vc import values as V
from vc import interp as IN
from vc.interp import Acc, Frame, Env, ReturnEx, BreakEx, ContinueEx


def assigned_names(body):
    """names which are bound, and names which may be mutated, in the statements"""
    bound, mutated = set(), set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                bound.add(n.id)
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    mutated.add(b.id)
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                mutated.add(n.target.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "update", "add", "insert", "pop", "remove", "setdefault"):
                b = n.func.value
                if isinstance(b, ast.Name):
                    mutated.add(b.id)
    return bound, mutated


class PathResult:
    def __init__(self):
        self.hyps = []
        self.kind = "next"
        self.exc = None
        self.env = None
        self.accs = {}
        self.curs = {}
        self.value = None


def explore(run):
    """run a thunk along all its paths (in the current scope); returns the list of results"""
    c = ctx()
    saved = (c.decisions, c.pos, c.pending)
    todo = [[]]
    out = []
    try:
        while todo:
            if len(out) > 64:
                raise Unsupported("too many paths in a loop body")
            c.decisions, c.pos, c.pending = list(todo.pop()), 0, []
            with scope() as sc:
                r = PathResult()
                try:
                    run(r)
                except PathAbort:
                    todo += c.pending
                    continue
                except PyRaise as e:
                    r.kind, r.exc = "raise", e
                except BreakEx:
                    r.kind = "break"
                except ContinueEx:
                    r.kind = "next"
                except ReturnEx as e:
                    r.kind, r.value = "return", e.value
                r.hyps = sc.hyps()
                r.new = sc.new()
                out.append(r)
            todo += c.pending
    finally:
        c.decisions, c.pos, c.pending = saved
    return out


def counters(st, env):
    """numbers which every iteration increments once, by a constant"""
    r = {}
    if any(isinstance(n, (ast.Continue, ast.Break)) for b in st.body for n in ast.walk(b)):
        return r
    for b in st.body:
        if not (isinstance(b, ast.AugAssign) and isinstance(b.op, (ast.Add, ast.Sub)) and isinstance(b.target, ast.Name)
                and isinstance(b.value, ast.Constant) and type(b.value.value) is int):
            continue
        n = b.target.id
        used = [w for s in [st] for w in ast.walk(s) if isinstance(w, ast.Name) and w.id == n and isinstance(w.ctx, ast.Store)]
        read = [w for w in ast.walk(st) if isinstance(w, ast.Name) and w.id == n and isinstance(w.ctx, ast.Load)]
        v0 = env.get(n)
        if len(used) == 1 and read and (type(v0) is int or (is_z3(v0) and v0.sort() == z3.IntSort())):
            r[n] = b.value.value if isinstance(b.op, ast.Add) else -b.value.value
    return r


def run_for(ip, st, seq, fr):
    ax = seq.axis
    if isinstance(ax, A.Cat):
        for k, p in enumerate(ax.parts):
            sub = SList(p, (lambda k: lambda i: seq.elem((k, i)))(k), seq.kind)
            if hasattr(seq, "dict_of"):
                sub.dict_of = seq.dict_of
                sub.part = k
            sub2 = IN.concretize(sub)
            if isinstance(sub2, list):
                for v in sub2:
                    ip.assign(st.target, v, fr)
                    try:
                        ip.block(st.body, fr)
                    except ContinueEx:
                        pass
            else:
                run_for(ip, st, sub, fr)
        return
    if st.orelse:
        raise Unsupported("for-else over a symbolic collection")
    c = ctx()
    cs = A.cases(ax, "it")
    if len(cs) != 1:
        raise Unsupported("loop over a nested concatenation")
    i = cs[0]
    bound, mutated = assigned_names(st.body)
    tgt = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
    env0 = dict(fr.env)
    count = counters(st, env0) if isinstance(ax, A.Range) else {}
    markers = {}
    sdicts = {}
    iter_dict = getattr(seq, "dict_of", None)
    for n in sorted((bound | mutated) - tgt):
        if n in fr.globals_:
            raise Unsupported("global variable assigned in a loop")
        if n not in env0:
            continue
        v = env0[n]
        if n in count:
            continue
        if isinstance(v, SDict):
            sdicts[n] = v
        elif isinstance(v, Instance) or isinstance(v, Opaque):
            continue
        elif isinstance(v, Acc):
            markers[n] = v
        else:
            markers[n] = v

    def run(r):
        fr.env.clear()
        fr.env.update(env0)
        for n, v in markers.items():
            fr.env[n] = Acc(n, v)
        for n, k in count.items():
            fr.env[n] = s_add(env0[n], s_mul(k, i))
        old = {}
        dd = {id(d): d for d in list(sdicts.values()) + ([iter_dict] if iter_dict is not None else [])}
        for d in dd.values():
            old[id(d)] = (d.cur, d.val, d.key, d.axis)
        started = [d for d in dd.values() if A.ax_same(d.axis, ax) and d.cur is None]
        newd = []
        depth = len(c.loop_epochs)
        try:
            elem = None
            for d in started:
                if d is iter_dict or str_term(d.key(i)).eq(str_term((iter_dict or d).key(i))):
                    newd.append(d)
            for d in newd:
                if d.shared:
                    d.cur = (i, d.val(i))
                    d.start = d.cur[1]
            # the value of a mapping at the key of the iteration may be modified
            c.loop_epochs.append(next(c.epoch))
            for d in newd:
                if not d.shared:
                    d.cur = (i, d.val(i))
                    d.start = d.cur[1]
            if iter_dict is not None and iter_dict.cur is not None and iter_dict not in newd and seq.kind in ("items", "values"):
                # iterated by an outer loop already: its own value may have been modified
                if not iter_dict.shared:
                    if iter_dict.cur[1] is not getattr(iter_dict, "start", None):
                        raise Unsupported("second iteration over a modified dict")
                elem = (iter_dict.key(i), iter_dict.val(i)) if seq.kind == "items" else iter_dict.val(i)
            elif iter_dict is not None and seq.kind == "items":
                elem = (iter_dict.key(i), iter_dict.cur[1] if iter_dict.cur is not None else iter_dict.val(i))
            elif iter_dict is not None and seq.kind == "values":
                elem = iter_dict.cur[1] if iter_dict.cur is not None else iter_dict.val(i)
            else:
                elem = seq.elem(i)
            ip.assign(st.target, elem, fr)
            ip.block(st.body, fr)
        finally:
            del c.loop_epochs[depth:]
            r.env = dict(fr.env)
            for d in newd:
                r.curs[id(d)] = (d, d.cur[1])
            for d in dd.values():
                d.cur, d.val, d.key, d.axis = old[id(d)]

    with scope() as sc:
        A.assume_in(ax, i)
        res = explore(run)
        new = sc.new()
    fr.env.clear()
    fr.env.update(env0)
    vs = A.ivars_of(i)
    A.keep_facts(vs, new)
    with scope() as sc:
        A.assume_in(ax, i)
        rngh = list(sc.hyps())
    rng = z3.And(*rngh) if rngh else z3.BoolVal(True)
    for r in res:
        A.keep_facts(vs, [z3.Implies(rng, f) for f in r.new])
    raises = [r for r in res if r.kind == "raise"]
    normal = [r for r in res if r.kind == "next"]
    if any(r.kind == "break" for r in res):
        raise Unsupported("break in a symbolic loop")

    def exq(rs):
        g = z3.Or(*[z3.And(*([rng] + r.hyps)) for r in rs])
        return z3.Exists(vs, g) if vs else g
    rets = [r for r in res if r.kind == "return"]
    if rets:
        return _returning(ip, c, ax, i, vs, rng, raises, rets, normal, exq, st, env0, markers)
    if raises:
        if c.truth(exq(raises), "some iteration of the loop at line %d raises" % st.lineno):
            classes = {r.exc.cls for r in raises}
            for r in raises[:-1]:
                if len(classes) > 1 and c.truth(c.fresh("first_raise", "bool"), "raises %s first" % r.exc.cls.__name__):
                    raise r.exc
            raise raises[-1].exc
    if not normal:
        # no normal iteration: the loop body is never executed
        c.assume(z3.Not(z3.Exists(vs, rng)) if vs else z3.Not(rng), True)
        return
    if len(normal) == 1:
        guards = [[]]
        tms = [Template(ax, i, [])]
    else:
        guards = [r.hyps for r in normal]
        tms = [Template(ax, i, r.hyps) for r in normal]
    gterms = [True if not g else z3.And(*g) for g in guards]

    # carried variables
    for n, k in count.items():
        fr.env[n] = s_add(env0[n], s_mul(k, A.ax_len(ax)))
    for n, v0 in markers.items():
        ends = [r.env.get(n) for r in normal]
        accs = [isinstance(e, Acc) and e.name == n and e.init is v0 for e in ends]
        if not all(accs):
            fr.env[n] = Poison("variable %s after a symbolic loop" % n)
            continue
        ops = [e.ops for e in ends]
        if all(not o for o in ops):
            continue
        fr.env[n] = fold(ip, n, v0, ops, gterms, tms, ax, i)
    for n in bound - tgt:
        if n not in env0:
            fr.env[n] = Poison("variable %s after a symbolic loop" % n)
    for n in tgt:
        fr.env[n] = Poison("loop variable %s" % n)
    # dicts updated at the key of the iteration
    seen = {}
    for r in normal:
        for k, (d, v) in r.curs.items():
            seen[k] = d
    for k, d in seen.items():
        vals = [r.curs[k][1] for r in normal]
        V.check_mutable(d)
        v = IN.merge_values(gterms, vals) if len(vals) > 1 else vals[0]
        tm = Template(ax, i, [])
        d.val = (lambda tm, v: lambda j: tm.at(v, j))(tm, v)


def _returning(ip, c, ax, i, vs, rng, raises, rets, normal, exq, st, env0, markers):
    """`return` inside of the loop: supported when all returned values are the same constant"""
    vals = [r.value for r in rets]
    if any(not (isinstance(v, bool) or v is None) for v in vals) or len(set(vals)) != 1 or raises:
        raise Unsupported("return in a symbolic loop")
    for r in normal:
        for n, v0 in markers.items():
            e = r.env.get(n)
            if not (isinstance(e, Acc) and not e.ops):
                raise Unsupported("return in an accumulating loop")
    if c.truth(exq(rets), "some iteration of the loop at line %d returns" % st.lineno):
        raise ReturnEx(vals[0])


def fold(ip, n, v0, ops, guards, tms, ax, i):
    """value of a carried variable after the loop"""
    kinds = {o[0] for path in ops for o in path}
    if len(kinds) != 1:
        raise Unsupported("mixed accumulation of %s" % n)
    kind = kinds.pop()
    if isinstance(v0, Acc) and kind in ("cat", "append", "extend", "add") and not v0.ops:
        # carried by the outer loop too: what the inner loop adds
        root = v0
        while isinstance(root, Acc):
            root = root.init
        if kind == "cat":
            root = A.as_arr(root)
            base = Arr((A.Range(0),) + tuple(root.axes[1:]), root.fn, root.kind)
            return v0.add("cat", fold(ip, n, base, ops, guards, tms, ax, i))
        if kind == "add":
            if not is_scalar(root):
                raise Unsupported("nested accumulation of arrays")
            return v0.add("add", fold(ip, n, 0, ops, guards, tms, ax, i))
        return v0.add("extend", fold(ip, n, [], ops, guards, tms, ax, i))
    if kind == "cat1":
        if isinstance(v0, Acc):
            raise Unsupported("nested concatenation along the second axis")
        ops = [[("cat", ip.np.transpose(A.as_arr(val))) for _, val in path] for path in ops]
        return ip.np.transpose(fold(ip, n, ip.np.transpose(A.as_arr(v0)), ops, guards, tms, ax, i))
    if kind == "cat":
        parts = []
        for g, path, tm in zip(guards, ops, tms):
            for _, val in path:
                parts.append((g, val, tm))
        return fold_cat(v0, parts, ax, i)
    if kind in ("append", "extend"):
        items = []
        for g, path, tm in zip(guards, ops, tms):
            for _, val in path:
                items.append((g, val, tm))
        return fold_list(v0, items, kind, ax, i)
    if kind == "add":
        deltas = []
        for path in ops:
            d = 0
            for _, val in path:
                d = val if (isconst(d) and d == 0) else ip.binop(ast.Add(), d, val)
            deltas.append(d)
        return fold_add(ip, v0, deltas, guards, tms, ax, i)
    if kind == "store":
        if isinstance(v0, Acc):
            return fold_outer_store(v0, ops, ax, i)
        return fold_store(v0, ops, guards, tms, ax, i)
    if kind == "mstore":
        return fold_nested_store(v0, ops, ax, i)
    if kind in ("and", "or"):
        r = v0
        for g, path, tm in zip(guards, ops, tms):
            for _, val in path:
                f = (lambda g, val: lambda j: b_implies(tm.at(g, j), tm.at(val, j)) if kind == "and" else b_and(tm.at(g, j), tm.at(val, j)))(g, val)
                r = b_and(r, A.forall(ax, f)) if kind == "and" else b_or(r, A.exists(ax, f))
        return r
    raise Unsupported("accumulation %s" % kind)


def _guard_axis(ax2, g):
    if isinstance(g, bool) and g:
        return ax2
    return A.sub_axis(ax2, lambda j: g)


def _same_parts(parts, ax, i):
    """parts of exclusive paths which append arrays of the same length are one part"""
    c = ctx()
    if len(parts) < 2:
        return parts
    with scope():
        A.assume_in(ax, i)
        for k, (g, _, _) in enumerate(parts):
            for h, _, _ in parts[k + 1:]:
                if not c.valid(b_not(b_and(g, h))):
                    return parts

    def same_axes(v, w):
        with scope():
            A.assume_in(ax, i)
            return all(A.ax_same(p, q) for p, q in zip(v.axes, w.axes))
    out = []
    for g, v, tm in parts:
        for k, (h, w, tw) in enumerate(out):
            if v.kind == w.kind and len(v.axes) == len(w.axes) and same_axes(v, w):
                idx = [A.cases(p, "s")[0] for p in v.axes]
                if not eq_scalar(v.fn(*idx), w.fn(*idx)):
                    w = Arr(w.axes, (lambda g, v, w: lambda *q: s_ite(g, v.fn(*q), w.fn(*q)))(g, v, w), w.kind)
                out[k] = (b_or(h, g), w, tw)
                break
        else:
            out.append((g, v, tm))
    return out


def eq_scalar(x, y):
    r = s_eq(x, y)
    if isinstance(r, bool):
        return r
    return z3.is_true(z3.simplify(r))


def fold_cat(v0, parts, ax, i):
    """v0 followed by the guarded parts of every iteration"""
    v0 = A.as_arr(v0)
    parts = [(g, A.as_arr(v), tm) for g, v, tm in parts]
    nd = v0.ndim
    for g, v, tm in parts:
        if v.ndim != nd:
            raise Unsupported("concatenation of different dimensions")
    rest = parts[0][1].axes[1:] if nd > 1 else ()
    tm0 = Template(ax, i, [])
    parts = _same_parts(parts, ax, i)
    if len(parts) == 1 and not isinstance(parts[0][0], bool):
        # one guarded part: the iterations with the guard, in order
        g1, ax_all = parts[0][0], ax
        parts = [(True,) + tuple(parts[0][1:])]
        ax = A.sub_axis(ax_all, lambda i2: tm0.inst(lambda: g1, None, (), i2))
    gp = [(_guard_axis(v.axes[0], g), v) for g, v, tm in parts]
    if len(gp) == 1:
        inner_ax, inner_fn = gp[0][0], (lambda j, *r: gp[0][1].fn(j, *r))
    else:
        inner_ax = A.Cat([a for a, _ in gp])
        inner_fn = lambda j, *r: gp[j[0]][1].fn(j[1], *r)  # noqa
    one = isinstance(inner_ax, A.Range) and isinstance(inner_ax.n, int) and inner_ax.n == 1
    sig = ax if one else A.Sigma(ax, lambda i2: subst_axis(inner_ax, tm0, i2))
    for r_ax in rest:
        s2 = subst_axis(r_ax, tm0, A.cases(ax, "x")[0])
        with scope():
            A.assume_in(ax, i)
            if not A.ax_same(s2, r_ax):
                raise Unsupported("concatenation with varying shape")
    kind = v0.kind if not v0.is_empty() else parts[0][1].kind
    for g, v, tm in parts:
        kind = A.join_kind(kind, v.kind)
    kind = A.join_kind(kind, v0.kind)

    def sfn(idx, *r):
        i2, j = (idx, 0) if one else idx
        return tm0.inst(lambda jj, *rr: inner_fn(jj, *rr), None, (j,) + r, i2)

    def smem(x):
        def f(i2):
            conds = []
            for g, v, tm in parts:
                conds.append(tm0.inst(lambda y, g=g, v=v: b_and(g, A.mem(v, y)), None, (x,), i2))
            return b_or(*conds)
        return A.exists(ax, f, "k")
    if isinstance(v0.axes[0], A.Range) and isinstance(v0.axes[0].n, int) and v0.axes[0].n == 0:
        r = Arr((sig,) + tuple(rest), sfn, kind)
        if nd == 1:
            r.mem_ = smem
        return r
    cat = A.Cat([v0.axes[0], sig])
    r = Arr((cat,) + tuple(rest), lambda idx, *q: v0.fn(idx[1], *q) if idx[0] == 0 else sfn(idx[1], *q), kind)
    if nd == 1:
        r.mem_ = lambda x: b_or(A.mem(v0, x), smem(x))
    return r


def fold_list(v0, items, kind, ax, i):
    tm0 = Template(ax, i, [])
    if kind == "append":
        if len(items) == 1:
            g, v, tm = items[0]
            base = ax if (isinstance(g, bool) and g) else A.Sub(ax, lambda i2: tm0.inst(lambda: g, None, (), i2))
            new = SList(base, lambda i2: tm0.at(v, i2))
        else:
            inner = A.Cat([_guard_axis(A.Range(1), g) for g, v, tm in items])
            new = SList(A.Sigma(ax, lambda i2: subst_axis(inner, tm0, i2)), lambda idx: tm0.at(items[idx[1][0]][1], idx[0]))
    else:
        if len(items) != 1 or not (isinstance(items[0][0], bool) and items[0][0]):
            raise Unsupported("guarded extension of a list")
        v = items[0][1]
        if isinstance(v, (list, tuple)):
            vv = list(v)
            new = SList(A.Sigma(ax, lambda i2: A.Range(len(vv))), lambda idx: tm0.at(IN.merge_values([s_eq(idx[1], k) for k in range(len(vv))], vv) if not isinstance(idx[1], int) else vv[idx[1]], idx[0]))
        elif isinstance(v, SList):
            new = SList(A.Sigma(ax, lambda i2: subst_axis(v.axis, tm0, i2)), lambda idx: subst_inner(v.elem, v.axis, tm0, idx[0], idx[1]))
        else:
            raise Unsupported("extension of a list")
    if isinstance(v0, list) and len(v0) == 0:
        return new
    return IN.list_concat(v0, new)


def fold_add(ip, v0, deltas, guards, tms, ax, i):
    tm0 = Template(ax, i, [])
    if all(is_scalar(d) for d in deltas) and (is_scalar(v0)):
        d = 0
        for g, u in zip(guards, deltas):
            d = s_add(d, s_ite(g, u, 0))
        s = A.sum_over([ax], lambda i2: tm0.inst(lambda: d, None, (), i2))
        return s_add(v0, s)
    arrs = [A.as_arr(d) for d in deltas]
    v = A.as_arr(v0)
    big = max(arrs + [v], key=lambda a: a.ndim)
    axes = big.axes
    for a in arrs + [v]:
        if a.ndim not in (0, big.ndim):
            raise Unsupported("accumulated shapes")
        if a.ndim:
            for p, q in zip(a.axes, axes):
                with scope():
                    A.assume_in(ax, i)
                    if not A.ax_same(p, q):
                        raise Unsupported("accumulated shapes differ")
    for q in axes:
        s2 = subst_axis(q, tm0, A.cases(ax, "x")[0])
        if not A.ax_same(s2, q):
            raise Unsupported("accumulated shape depends on the iteration")

    def val(*idx):
        d = 0
        for g, a in zip(guards, arrs):
            d = s_add(d, s_ite(g, a.fn(*idx) if a.ndim else a.fn(), 0))
        return d

    def fn(*idx):
        s = A.sum_over([ax], lambda i2: tm0.inst(val, None, idx, i2))
        return s_add(v.fn(*idx) if v.ndim else v.fn(), s)
    kind = v.kind
    for a in arrs:
        kind = A.join_kind(kind, a.kind)
    r = Arr(axes, fn, "int" if kind == "bool" else kind)
    r.sparse = all(a.sparse for a in arrs + [v] if a.ndim == 2)
    return r


def fold_store(v0, ops, guards, tms, ax, i):
    tm0 = Template(ax, i, [])
    if isinstance(v0, dict) or isinstance(v0, SDict):
        # every path stores once, at the same key
        entries = []
        for g, path in zip(guards, ops):
            d = {}
            for _, (k, val) in path:
                kt = str_term(k)
                d[kt.get_id()] = (k, val)
            if len(d) > 1:
                raise Unsupported("several keys stored in one iteration")
            entries.append((g, list(d.values())[0] if d else None))
        some = [(g, e) for g, e in entries if e is not None]
        k0 = some[0][1][0]
        if any(not str_term(e[0]).eq(str_term(k0)) for _, e in some):
            raise Unsupported("different keys stored")
        val = IN.merge_values([g for g, _ in some], [e[1] for _, e in some])
        base = ax
        if len(some) < len(entries):
            gs = b_or(*[g for g, _ in some])
            base = A.Sub(ax, lambda i2: tm0.inst(lambda: gs, None, (), i2))
        # distinct keys are required for a dict indexed by the iterations
        kt = str_term(k0)
        vs = A.ivars_of(i)
        fresh = A.cases(ax, "k")[0]
        kt2 = tm0.at(SymStr(kt), fresh).term
        with scope():
            A.assume_in(ax, i)
            A.assume_in(ax, fresh)
            same = b_and(*[s_eq(u, w) for u, w in zip(A.flat_idx(i), A.flat_idx(fresh))])
            if not ctx().valid(b_implies(s_eq(kt, kt2), same)):
                raise Unsupported("the keys of the stored items may coincide")
        r = SDict(base, lambda i2: tm0.at(SymStr(kt), i2), lambda i2: tm0.at(val, i2))
        if isinstance(v0, SDict):
            raise Unsupported("store into an existing symbolic dict")
        if v0:
            raise Unsupported("store into a non empty dict")
        return r
    if isinstance(v0, Arr):
        return fold_arr_store(v0, ops, guards, ax, i, tm0)
    raise Unsupported("store into %r" % (v0,))


def fold_outer_store(v0, ops, ax, i):
    """array store in an inner loop: left to the outer loop"""
    if len(ops) != 1 or len(ops[0]) != 1 or not isinstance(v0.init, Arr):
        raise Unsupported("store into %r" % (v0,))
    key, val = ops[0][0][1]
    return v0.add("mstore", (key, val, ax, i))


def fold_nested_store(v0, ops, ax, i):
    """A[i, j] = v (in any order) in two nested loops"""
    if len(ops) != 1 or len(ops[0]) != 1 or not isinstance(v0, Arr):
        raise Unsupported("array stores in nested loops")
    key, val, ax2, j = ops[0][0][1]
    key = A._norm_key(key, v0.ndim)
    if v0.ndim != 2 or not is_z3(i) or not is_z3(j) or not is_scalar(val):
        raise Unsupported("array stores in nested loops")
    where = []
    for t in (i, j):
        p = [k for k, u in enumerate(key) if is_z3(u) and u.eq(t)]
        if len(p) != 1:
            raise Unsupported("array store pattern in nested loops")
        where.append(p[0])
    tm0 = Template(ax, i, [])
    sig = A.Sigma(ax, lambda i2: subst_axis(ax2, tm0, i2))
    tm = Template(sig, (i, j), [])
    for t, p in zip((i, j), where):
        n = A.ax_len(v0.axes[p])
        ctx().safe("index in range", A.forall(sig, lambda u: b_and(s_cmp("<=", 0, u[0] if t is i else u[1]), s_cmp("<", u[0] if t is i else u[1], n))))
    old = v0.fn

    def fn(*idx):
        u = tuple(A.index_to_pos(v0.axes[p], idx[p]) for p in where)
        return s_ite(A.in_axis(sig, u), tm.inst(lambda: val, None, (), u), old(*idx))
    return Arr(v0.axes, fn, v0.kind)


def fold_arr_store(v0, ops, guards, ax, i, tm0):
    """A[.., i, ..] = v in every iteration"""
    if len(ops) != 1 or len(ops[0]) != 1 or not isinstance(i, z3.ExprRef):
        raise Unsupported("array stores in a loop")
    key, val = ops[0][0][1]
    if isinstance(key, Arr) and key.kind == "bool" and is_scalar(val) and key.ndim == v0.ndim == 1 and isinstance(ax, A.Range):
        return fold_mask_store(v0, key, val, ax, i, tm0)
    key = A._norm_key(key, v0.ndim)
    pos = [k for k, u in enumerate(key) if is_z3(u) and u.eq(i)]
    if len(pos) != 1 or any(not (k == pos[0] or A._is_full(u) or (isinstance(u, int) and u >= 0)) for k, u in enumerate(key)):
        raise Unsupported("array store pattern in a loop")
    p = pos[0]
    n = A.ax_len(v0.axes[p])
    ctx().safe("index in range", A.forall(ax, lambda j: b_and(s_cmp("<=", 0, j), s_cmp("<", j, n))))
    val = A.as_arr(val)
    fixed = {k: u for k, u in enumerate(key) if isinstance(u, int)}
    free = [k for k in range(v0.ndim) if k != p and k not in fixed]
    tgt_axes = [v0.axes[k] for k in free]
    if val.ndim > len(tgt_axes):
        raise Unsupported("stored shape")
    with scope():
        A.assume_in(ax, i)
        if val.ndim:
            _, fns = A.bcast([Arr(tgt_axes, lambda *q: 0), val])
            vf = fns[1]
        else:
            vf = lambda *q: val.fn()  # noqa
    old = v0.fn

    def fn(*idx):
        j = A.index_to_pos(v0.axes[p], idx[p])
        cond = A.in_axis(ax, j)
        for k, u in fixed.items():
            cond = b_and(cond, s_eq(A.index_to_pos(v0.axes[k], idx[k]), u))
        if cond is False:
            return old(*idx)
        new = tm0.inst(vf, None, tuple(idx[k] for k in free), j)
        return s_ite(cond, new, old(*idx))
    return Arr(v0.axes, fn, v0.kind)


def fold_mask_store(v0, mask, val, ax, i, tm0):
    """A[mask] = v in every iteration: the last iteration with the element counts"""
    c = ctx()
    if not A.ax_same(mask.axes[0], v0.axes[0]):
        raise Unsupported("mask of another array")
    lf = z3.Function(c.fresh_name("last"), z3.IntSort(), z3.IntSort())
    last = lambda u: lf(zint(u))  # noqa
    x = c.ivar("x")

    def at(j, u):
        return tm0.inst(mask.fn, mask.axes, (u,), j)
    with scope():
        A.assume_in(mask.axes[0], x)
        fact = A.forall(ax, lambda j: b_implies(at(j, x), b_and(A.in_axis(ax, last(x)), at(last(x), x), s_cmp("<=", j, last(x)))))
    c.assume(z3.ForAll([x], z3.Implies(zbool(A.in_axis(mask.axes[0], x)), zbool(fact)), patterns=[lf(x)]))
    old = v0.fn

    def fn(u):
        j = last(u)
        return s_ite(b_and(A.in_axis(ax, j), at(j, u)), tm0.at(val, j), old(u))
    return Arr(v0.axes, fn, v0.kind)


def run_comp(ip, elt, gens, seq, sub):
    g = gens[0]
    c = ctx()
    ax = seq.axis
    if isinstance(ax, A.Cat):
        raise Unsupported("comprehension over a concatenation")
    i = A.cases(ax, "it")[0]
    env0 = dict(sub.env)
    iter_dict = getattr(seq, "dict_of", None)

    def run(r):
        sub.env.clear()
        sub.env.update(env0)
        ip.assign(g.target, seq.elem(i), sub)
        c.loop_epochs.append(next(c.epoch))
        try:
            cond = True
            for t in g.ifs:
                v = ip.ev(t, sub)
                if not is_bool(v):
                    v = ip.truth(v)
                cond = b_and(cond, v)
            if isinstance(cond, bool) and not cond:
                r.kind = "skip"
                return
            with scope() as inner:
                c.hyp(cond)
                if len(gens) > 1:
                    r.value = ip.comp2(elt, gens[1:], sub)
                    r.nested = True
                else:
                    r.value = ip.ev(elt, sub)
                found = inner.new()
            for f in found:
                c.assume(f)
            r.cond = cond
        finally:
            c.loop_epochs.pop()
    with scope() as sc:
        A.assume_in(ax, i)
        res = explore(run)
        new = sc.new()
        rngh = sc.hyps()
    sub.env.clear()
    sub.env.update(env0)
    vs = A.ivars_of(i)
    A.keep_facts(vs, new)
    with scope() as sc:
        A.assume_in(ax, i)
        rngh = sc.hyps()
    rng = z3.And(*rngh) if rngh else z3.BoolVal(True)
    for r in res:
        A.keep_facts(vs, [z3.Implies(rng, f) for f in r.new])
    raises = [r for r in res if r.kind == "raise"]
    normal = [r for r in res if r.kind == "next"]
    if raises:
        gq = z3.Or(*[z3.And(*([rng] + r.hyps)) for r in raises])
        if c.truth(z3.Exists(vs, gq) if vs else gq, "some element of the comprehension raises"):
            raise raises[-1].exc
    if len(normal) != 1 or any(r.kind == "skip" for r in res):
        if not normal or any(r.kind == "skip" for r in res) or any(not is_scalar(r.value) and not is_str(r.value) and not isinstance(r.value, Arr) for r in normal):
            raise Unsupported("branching comprehension")
        if any(not (isinstance(r.cond, bool) and r.cond) for r in normal):
            raise Unsupported("branching comprehension")
        val = IN.merge_values([z3.And(*r.hyps) if r.hyps else True for r in normal], [r.value for r in normal])
        tm = Template(ax, i, [])
        return SList(ax, lambda j: tm.at(val, j))
    r = normal[0]
    tm = Template(ax, i, [])
    if getattr(r, "nested", False):
        v = r.value
        if isinstance(v, SList):
            return SList(A.Sigma(ax, lambda j: subst_axis(v.axis, tm, j)), lambda idx: subst_inner(v.elem, v.axis, tm, idx[0], idx[1]))
        vv = list(v)
        return SList(A.Sigma(ax, lambda j: A.Range(len(vv))), lambda idx: tm.at(vv[idx[1]], idx[0]))
    base = ax
    if not (isinstance(r.cond, bool) and r.cond):
        base = A.Sub(ax, lambda j: tm.inst(lambda: r.cond, None, (), j))
    return SList(base, lambda j: tm.at(r.value, j))


def by_invariant(ip, st, seq, fr, handled, before, check):
    """for loop with an invariant: the body is executed once at a generic index.

    handled: carried variables (their state at the index is set by before), before(i): assumes the
    invariant at i, check(i): proves it at i+1 (called at the end of every path of the body).  The
    caller proves it at the start, and sets the state at the end.  Everything else which the body
    assigns is unknown afterwards.
    """
    if st.orelse:
        raise Unsupported("for-else over a symbolic collection")
    c = ctx()
    ax = seq.axis
    cs = A.cases(ax, "it")
    if len(cs) != 1:
        raise Unsupported("loop over a concatenation")
    i = cs[0]
    bound, mutated = assigned_names(st.body)
    tgt = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
    env0 = dict(fr.env)
    for n in (bound | mutated) - tgt - set(handled):
        if n in env0 and not isinstance(env0[n], (Instance, Opaque, Poison)):
            raise Unsupported("variable %s is not covered by the invariant of the loop" % n)

    def run(r):
        fr.env.clear()
        fr.env.update(env0)
        c.loop_epochs.append(next(c.epoch))
        try:
            before(i)
            ip.assign(st.target, seq.elem(i), fr)
            try:
                ip.block(st.body, fr)
            except ContinueEx:
                pass
            check(i)
        finally:
            c.loop_epochs.pop()
    with scope() as sc:
        A.assume_in(ax, i)
        res = explore(run)
        new = sc.new()
    fr.env.clear()
    fr.env.update(env0)
    vs = A.ivars_of(i)
    with scope() as sc:
        A.assume_in(ax, i)
        rngh = list(sc.hyps())
    rng = z3.And(*rngh) if rngh else z3.BoolVal(True)
    A.keep_facts(vs, new)
    for r in res:
        A.keep_facts(vs, [z3.Implies(rng, f) for f in r.new])
    if any(r.kind in ("break", "return") for r in res):
        raise Unsupported("the loop is left early")
    raises = [r for r in res if r.kind == "raise"]
    for n in (bound | tgt) - set(handled):
        fr.env[n] = Poison("variable %s after a symbolic loop" % n)
    if raises:
        g = z3.Or(*[z3.And(*([rng] + r.hyps)) for r in raises])
        if c.truth(z3.Exists(vs, g) if vs else g, "some iteration of the loop at line %d raises" % st.lineno):
            if len({r.exc.cls for r in raises}) > 1:
                raise Unsupported("different exceptions in a loop")
            raise raises[-1].exc
    return i


def while_by_invariant(ip, st, fr, havoc, again):
    """while loop: one arbitrary iteration, followed by the code after the loop or by the next iteration.

    havoc(name, value): the variable at the start of an arbitrary iteration (the caller assumes the
    invariant about it, and has proved it for the first iteration); again(env): proves the invariant
    at the start of the next iteration, then the path ends.
    """
    from vc.prove import Skip
    if st.orelse:
        raise Unsupported("while-else")
    if not ip.truth(ip.ev(st.test, fr), "the loop at line %d is entered" % st.lineno):
        return
    bound, mutated = assigned_names(st.body)
    for n in sorted(bound | mutated):
        if n in fr.env:
            if n in mutated and n not in bound and isinstance(fr.env[n], (Instance, Opaque)):
                continue
            fr.env[n] = havoc(n, fr.env[n])
    if not ip.truth(ip.ev(st.test, fr), "another iteration of the loop at line %d" % st.lineno):
        raise Skip()
    try:
        ip.block(st.body, fr)
    except BreakEx:
        return
    except ContinueEx:
        pass
    if ip.truth(ip.ev(st.test, fr), "the loop at line %d goes on" % st.lineno):
        again(fr.env)
        raise Skip()
