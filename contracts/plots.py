"""viewer and plotter: selection of the plots"""
from contracts.common import *  # noqa
from contracts.wiring import Tok, T, key
from vc import loops
from vc.values import str_term

OPT = "pypeec.lib_check.check_data_options"
FMT = "pypeec.lib_check.check_data_format"
FIELDS = ("title", "layout", "data_window", "data_plot", "data_options")


def seq(a, b):
    return s_eq(str_term(a), str_term(b))


class Invalid(Exception):
    """error of jsonschema"""


class Bad:
    """a value of another type"""

    def __init__(self, kind):
        self.kind = kind

    def vc_iter(self, ip):
        raise PyRaise(TypeError, "iteration")


def json_type(x):
    if x is None:
        return "null"
    if isinstance(x, Bad):
        return x.kind
    if isinstance(x, (SymStr, str)):
        return "string"
    if isinstance(x, (SList, list, tuple)):
        return "array"
    if isinstance(x, (SDict, dict)):
        return "object"
    raise Unsupported("type of %r" % (x,))


def validate(v, x, schema):
    """the keywords of the JSON schemas which the option checks use"""
    known = {"type", "enum", "minLength", "items", "required"}
    if not isinstance(schema, dict) or set(schema) - known:
        raise Unsupported("schema keyword")

    def reject(what):
        raise PyRaise(Invalid, what)
    kind = json_type(x)
    if "type" in schema:
        ts = schema["type"]
        if kind not in ([ts] if isinstance(ts, str) else list(ts)):
            reject("type")
    if "enum" in schema:
        if kind == "string":
            if not v.branch(b_or(*[seq(x, u) for u in schema["enum"] if isinstance(u, str)]), "value is listed"):
                reject("enum")
        elif kind != "null" or None not in schema["enum"]:
            reject("enum")
    if "minLength" in schema and kind == "string" and schema["minLength"] > 0:
        if schema["minLength"] != 1:
            raise Unsupported("length of a string")
        if v.branch(seq(x, ""), "empty"):
            reject("minLength")
    if "items" in schema and kind == "array":
        if isinstance(x, SList):
            # strings, or at least one item of another type
            items = [Bad("number")] if getattr(x, "bad", False) else [SymStr(0)]
        else:
            items = list(x)
        for u in items:
            if set(schema["items"]) != {"type"}:
                raise Unsupported("schema of the items")
            validate(v, u, schema["items"])
    if "required" in schema and kind == "object":
        if not isinstance(x, dict):
            raise Unsupported("required fields")
        for k in schema["required"]:
            if k not in x:
                reject("required")


class Names:
    """named settings (viewer or plotter data, or sweeps) and a request"""

    def __init__(self, v, what, entry, cases=("none", "list", "bad")):
        self.v, self.what = v, what
        self.n = v.int("n_" + what, lo=0)
        f = v.fun("key_" + what, 1)
        self.keyf = f
        self.entry = entry
        v.assume(A.forall([Range(self.n), Range(self.n)], lambda i, j: b_implies(s_eq(f(i), f(j)), s_eq(i, j))))
        self.dict = SDict(Range(self.n), lambda i: SymStr(f(i)), lambda i: entry(SymStr(f(i))), what)
        self.axis0, self.val0 = self.dict.axis, self.dict.val
        self.case = cases[-1]
        for c in cases[:-1]:
            if v.branch(v.bool("request of %s is %s" % (what, c)), "%s: %s" % (what, c)):
                self.case = c
                break
        self.m = self.n
        self.get = lambda k: SymStr(f(k))
        if self.case == "none":
            self.request = None
        elif self.case == "list":
            self.m = v.int("m_" + what, lo=0)
            g = v.fun("request_" + what, 1)
            # a name is not requested twice
            v.assume(A.forall([Range(self.m), Range(self.m)], lambda i, j: b_implies(s_eq(g(i), g(j)), s_eq(i, j))))
            self.get = lambda k: SymStr(g(k))
            self.request = SList(Range(self.m), lambda k: SymStr(g(k)))
        else:
            if v.branch(v.bool("request of %s is a list with another type" % what), "%s: bad list" % what):
                self.request = SList(Range(v.int("m_" + what, lo=1)), lambda k: Bad("number"))
                self.request.bad = True
            elif v.branch(v.bool("request of %s is a string" % what), "%s: a string" % what):
                self.request = SymStr(v.int("string_" + what))
            else:
                self.request = Bad("number")

    def known(self):
        """all of the requested names exist"""
        if self.case != "list":
            return self.case == "none"
        return A.forall([Range(self.m)], lambda k: A.exists(Range(self.n), lambda i: s_eq(self.keyf(i), str_term(self.get(k))), "i"))


class Gui:
    __vc_methods__ = ("open_pyvista", "open_matplotlib", "show")

    def __init__(self, log):
        self.log = log

    def open_pyvista(self, tag, title, window):
        self.log("open", "pyvista", tag, title, window)
        return Tok("pl")

    def open_matplotlib(self, tag, title, window):
        self.log("open", "matplotlib", tag, title, window)
        return Tok("fig")

    def show(self):
        self.log("show")


class Screen:
    """events of a run, with the loops in which they happen"""

    def __init__(self, v, check):
        self.v = v
        self.events = []
        self.where = []
        self.check = check
        v.ip.loops["*"] = self.loop

    def log(self, name, *args):
        if len(self.v.c.loop_epochs) != len(self.where):
            raise Unsupported("a plot in an unknown loop")
        self.events.append((name,) + args)

    def loop(self, ip, st, seq, fr):
        import ast
        calls = [n for n in ast.walk(ast.Module(st.body, [])) if isinstance(n, ast.Call)]
        if not calls or all(isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "LOGGER" for n in calls) or any(isinstance(n, ast.Raise) for b in st.body for n in ast.walk(b)):
            return False
        outer = self.events
        where = self.where
        try:
            def before(i):
                self.where = where + [(seq, i)]
                self.events = []

            def check(i):
                self.check(len(self.where), self.where, self.events)
            loops.by_invariant(ip, st, seq, fr, set(), before, check)
        finally:
            self.where = where
            self.events = outer
        outer.append(("loop", seq))
        return True


def kinds(events):
    return [e[0] for e in events]


def wire(v, qual):
    name = qual.split(":")[1]
    v.override(qual, lambda *a, **k: T(name, *a, *k.values()))


def settings(v, what, frameworks):
    """the settings of a named plot are functions of its name"""
    fs = {x: v.fun("%s_%s" % (what, x), 1) for x in FIELDS}
    fw = v.fun(what + "_framework", 1)

    def entry(tag):
        if len(frameworks) == 1:
            f = frameworks[0]
        else:
            f = SymStr(fw(tag.term))
            v.c.assume(b_or(*[seq(f, u) for u in frameworks]))
        return PDict(dict({x: SymStr(g(tag.term)) for x, g in fs.items()}, framework=f))
    return entry, {x: (lambda g: lambda tag: SymStr(g(tag.term)))(g) for x, g in fs.items()}, lambda tag: SymStr(fw(tag.term))


def same(a, b):
    """equality of two arguments"""
    if isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str)):
        return seq(a, b)
    return key(a) == key(b)


GEOM = ("n", "d", "c", "domain_def", "graph_def", "pts_cloud", "reference")


class Options:
    """the checks which a run makes first, and the window manager"""

    def __init__(self, v, check, fmt):
        self.v = v
        self.sc = sc = Screen(v, check)
        v.override("jsonschema.validate", lambda instance, schema: validate(v, instance, schema))
        ok, opt = v.bool("the settings are valid"), v.bool("the options are valid")
        self.good = b_and(ok, opt)
        self.args = (Tok("mode"), Tok("folder"), Tok("name"))

        def checked(cond, what):
            def f(*a):
                sc.log("check", what, *a)
                if not v.branch(cond, what):
                    raise PyRaise(Invalid, what)
            return f
        v.override(FMT + ":" + fmt, checked(ok, "settings"))
        v.override(OPT + ":check_plot_options", checked(opt, "options"))

        def gui(*a):
            sc.log("gui", *a)
            return Gui(sc.log)
        v.override("pypeec.lib_plot.manage_plotgui:PlotGui", gui)

    def draws(self, mod, fn):
        v, sc = self.v, self.sc

        def draw(*a, **k):
            f = v.ip.module("pypeec.lib_plot." + mod).globals[fn]
            env = {}
            v.ip.bind(f, list(a), dict(k), env)
            sc.log("draw", mod, *[env[p.arg] for p in f.node.args.args])
        v.override("pypeec.lib_plot.%s:%s" % (mod, fn), draw)


def only(v, clause):
    """check the obligations of one clause"""
    prove = v.prove
    v.prove = lambda c, f, *a: prove(c, f, *a) if clause in c else None


def viewer_run(v):
    entry, field, _ = settings(v, "plot", ["pyvista"])
    pl = Names(v, "plot", entry)
    geom = PDict({k: Tok(k) for k in GEOM})
    voxel = PDict({"date": Tok("date"), "duration": Tok("duration"), "seconds": Tok("seconds"), "status": v.bool("status"), "data_geom": geom})
    for q in ("parse_viewer:get_voxel", "parse_voxel:get_grid", "parse_voxel:get_voxel", "parse_voxel:get_point", "parse_voxel:get_reference", "parse_viewer:set_data"):
        wire(v, "pypeec.lib_plot." + q)
    idx = T("get_voxel", geom["domain_def"])
    grid = T("get_grid", geom["n"], geom["d"], geom["c"])
    vox0 = T("get_voxel", grid, idx)
    drawn = [Tok("pl"), grid, T("set_data", vox0, idx, geom["domain_def"], geom["graph_def"]), T("get_point", geom["pts_cloud"]), T("get_reference", geom["reference"], vox0)]

    def check(level, where, events):
        if level != 1:
            raise Unsupported("nested loop of plots")
        (seq, i), = where
        v.prove("all of the requested plots and no others", s_eq(A.ax_len(seq.axis), pl.m))
        v.prove("each plot is opened once and drawn once", kinds(events) == ["open", "draw"])
        if kinds(events) != ["open", "draw"]:
            return
        tag = pl.get(A.index_to_pos(seq.axis, i))
        o, d = events[0][1:], events[1][2:]
        v.prove("in the requested order", b_and(o[0] == "pyvista", same(o[1], tag)))
        v.prove("with its own settings", b_and(same(o[2], field["title"](tag)), same(o[3], field["data_window"](tag)), *[same(a, field[x](tag)) for a, x in zip(d[5:], ("layout", "data_plot", "data_options"))]))
        v.prove("on the grids of the voxel data", len(d) == 8 and [key(a) for a in d[:5]] == [key(a) for a in drawn])
    o = Options(v, check, "check_data_viewer")
    o.draws("manage_pyvista", "get_plot_viewer")
    mode, folder, name = o.args
    v.call("pypeec.run.viewer", "run", voxel, pl.dict, tag_plot=pl.request, plot_mode=mode, folder=folder, name=name)
    finish(v, o, [pl], 1)


INIT = ("n", "d", "c", "idx_vc", "idx_vm", "idx_src_c", "idx_src_v", "pts_cloud")


def plotter_run(v):
    entry, field, framework = settings(v, "plot", ["pyvista", "matplotlib"])
    fs = {x: v.fun("sweep_" + x, 1) for x in ("res", "conv")}
    pl = Names(v, "plot", entry)
    sw = Names(v, "sweep", lambda tag: PDict(dict({x: SymStr(g(tag.term)) for x, g in fs.items()}, var=PDict())))
    init = PDict({k: Tok(k) for k in INIT})
    sol = PDict({"date": Tok("date"), "duration": Tok("duration"), "seconds": Tok("seconds"), "status": v.bool("status"), "data_init": init, "data_sweep": sw.dict})
    for q in ("parse_plotter:get_voxel", "parse_voxel:get_grid", "parse_voxel:get_voxel", "parse_voxel:get_point", "parse_plotter:set_voxel_material"):
        wire(v, "pypeec.lib_plot." + q)
    idx = T("get_voxel", init["idx_vc"], init["idx_vm"])
    grid = T("get_grid", init["n"], init["d"], init["c"])
    drawn = [Tok("pl"), grid, T("set_voxel_material", T("get_voxel", grid, idx), idx, init["idx_vc"], init["idx_vm"], init["idx_src_c"], init["idx_src_v"]), T("get_point", init["pts_cloud"])]

    def check(level, where, events):
        if level == 1:
            v.prove("all of the requested sweeps and no others", s_eq(A.ax_len(where[0][0].axis), sw.m))
            v.prove("the plots of a sweep are made once", kinds(events) == ["loop"])
            return
        if level != 2:
            raise Unsupported("nested loop of plots")
        seq, i = where[1]
        v.prove("all of the requested plots and no others", s_eq(A.ax_len(seq.axis), pl.m))
        v.prove("each plot is opened once and drawn once", kinds(events) == ["open", "draw"])
        if kinds(events) != ["open", "draw"]:
            return
        tag = pl.get(A.index_to_pos(seq.axis, i))
        sweep = sw.get(A.index_to_pos(where[0][0].axis, where[0][1]))
        o, d = events[0][1:], events[1][2:]
        v.prove("the title names the sweep and the plot", same(o[1], concat_str([sweep, "_", tag])))
        v.prove("in the requested order, with its own settings", b_and(same(o[2], field["title"](tag)), same(o[3], field["data_window"](tag)), same(o[0], framework(tag)),
                *[same(a, field[x](tag)) for a, x in zip(d[-3:], ("layout", "data_plot", "data_options"))]))
        if events[1][1] == "manage_pyvista":
            v.prove("on the grids of the solution", o[0] == "pyvista" and len(d) == 7 and [key(a) for a in d[:4]] == [key(a) for a in drawn])
        else:
            v.prove("on the solver data of the sweep", b_and(o[0] == "matplotlib", len(d) == 6, key(d[0]) == key(Tok("fig")), same(d[1], SymStr(fs["res"](sweep.term))), same(d[2], SymStr(fs["conv"](sweep.term)))))
    o = Options(v, check, "check_data_plotter")
    o.draws("manage_pyvista", "get_plot_plotter")
    o.draws("manage_matplotlib", "get_plot_plotter")
    mode, folder, name = o.args
    v.call("pypeec.run.plotter", "run", sol, pl.dict, tag_sweep=sw.request, tag_plot=pl.request, plot_mode=mode, folder=folder, name=name)
    finish(v, o, [pl, sw], 1)


def finish(v, o, names, loops_):
    sc, gui = o.sc, o.args
    good = b_and(o.good, *[n.known() for n in names])
    ks = [k for k in kinds(sc.events) if k != "check"]
    if v.raised is not None:
        v.prove("only invalid requests are rejected", b_not(good))
        v.prove("a rejected request shows nothing", not ks)
    else:
        v.prove("invalid requests are rejected", good)
        v.prove("the window manager is created first, and shown at the end", ks == ["gui"] + ["loop"] * loops_ + ["show"])
        g = [e for e in sc.events if e[0] == "gui"]
        v.prove("with the given mode, folder and name", len(g) == 1 and len(g[0]) == 4 and all(key(a) == key(b) for a, b in zip(g[0][1:], gui)))
        c = [e for e in sc.events if e[0] == "check" and e[1] == "options"]
        v.prove("the options are checked", bool(c) and all(key(a) == key(b) for a, b in zip(c[0][2:], gui)))
    for n in names:
        d = n.dict
        v.prove("the data of the caller are not modified", not d.extra and d.cur is None and d.axis is n.axis0 and d.val is n.val0)
