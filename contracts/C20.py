"""Entry points fail loudly, keep inputs intact and write only complete results."""
from contracts.common import *  # noqa
from contracts.wiring import Tok, T, key
from contracts import plots as P

MAIN = "pypeec.main"
SCRIPT = "pypeec.script"
RUN = "pypeec.run."
ASSUMED = ["scisave: load_config and load_data return the content of the file and do not change it, write_data writes the data to the file (or raises)",
           "copy.deepcopy returns an equal and independent copy",
           "argparse: parse_args raises SystemExit or returns the selected command and the values of its options (defaults where they are omitted), a file is given for every required option",
           "the resources of the package (logo, version) can be read",
           "the check functions do not change the data which they check, and the functions which parse the data for the plots do not change their arguments"]


class Fault(Exception):
    pass


FAULTS = (Fault, ValueError, KeyError, OSError, TypeError)


class World:
    """the external steps of a workflow: each one may fail with any error"""

    def __init__(self, v):
        self.v, self.log, self.fault = v, [], None

    def step(self, name, args, result):
        v = self.v
        k = len(self.log)
        self.log.append((name, tuple(args)))
        for cls in FAULTS:
            if v.branch(v.bool("step %d (%s) fails with %s" % (k, name, cls.__name__)), "%s fails" % name):
                e = PyRaise(cls, "failure of step %d" % k)
                if self.fault is None:
                    self.fault = e
                raise e
        return result

    def named(self, name):
        return [a for n, a in self.log if n == name]

    def loud(self, clause="the error of the first step which fails reaches the caller"):
        v = self.v
        if self.fault is None:
            v.prove("no error without a failing step", v.raised is None)
        else:
            v.prove(clause, v.raised is not None and v.raised.cls is self.fault.cls and self.fault.msg in v.raised.msg)

    def files(self):
        v = self.v
        for fn in ("load_config", "load_data"):
            v.override("scisave." + fn, (lambda fn: lambda f: self.step(fn, (f,), T(fn, f)))(fn))
        v.override("scisave.write_data", lambda f, d: self.step("write_data", (f, d), None))

    def tool(self, name):
        def run(*a, **k):
            return self.step("run", (name, a, tuple(sorted(k.items()))), T("result", *a))
        self.v.override(RUN + name + ":run", run)


TOOLS = {"mesher": (["load_config"], [], True), "viewer": (["load_data", "load_config"], ["tag_plot", "plot_mode", "folder", "name"], False),
         "solver": (["load_data", "load_config", "load_config"], [], True), "plotter": (["load_data", "load_config"], ["tag_sweep", "tag_plot", "plot_mode", "folder", "name"], False)}
BOTH = {"mesher": 1, "viewer": 2, "solver": 3, "plotter": 2}


def same_args(got, want):
    return [key(x) for x in got] == [key(x) for x in want]


def bound(v, name, a, k):
    """arguments of a call of the run function by their names"""
    f = v.ip.function(RUN + name, "run")
    env = {}
    v.ip.bind(f, list(a), dict(k), env)
    return [env[p.arg] for p in f.node.args.args]


def expected(v, name, data, kw):
    return bound(v, name, data, kw)


def data_spec(name):
    def run(v):
        w = World(v)
        w.tool(name)
        w.files()
        data = [Tok("data%d" % k) for k in range(BOTH[name])]
        kw = {k: Tok("option " + k) for k in TOOLS[name][1]}
        r = v.call(MAIN, "run_%s_data" % name, *data, **kw)
        w.loud()
        runs = w.named("run")
        v.prove("the tool runs once", len(runs) == 1 and runs[0][0] == name)
        v.prove("the tool runs on the given data and options", len(runs) == 1 and same_args(bound(v, name, runs[0][1], runs[0][2]), expected(v, name, data, kw)))
        v.prove("no file is read or written", len(w.log) == len(runs))
        if v.raised is None and TOOLS[name][2]:
            v.prove("the result of the tool is returned", key(r) == key(T("result", *runs[0][1])))
    spec("main.run_%s_data" % name, [MAIN + ":run_%s_data" % name])(run)


def file_spec(name):
    def run(v):
        w = World(v)
        w.tool(name)
        w.files()
        loads, options, writes = TOOLS[name]
        files = [Tok("file%d" % k) for k in range(len(loads) + writes)]
        kw = {k: Tok("option " + k) for k in options}
        v.call(MAIN, "run_%s_file" % name, *files, **kw)
        w.loud()
        names = [n for n, _ in w.log]
        runs = w.named("run")
        v.prove("the input files are loaded by their kind", all(same_args(a, [files[k]]) and n == loads[k] for n, a in w.log if n.startswith("load") for k in [u for u in range(len(loads)) if key(files[u]) == key(a[0])]) and
                all(any(key(a[0]) == key(f) for f in files[:len(loads)]) for n, a in w.log if n.startswith("load")))
        v.prove("the tool runs at most once", len(runs) <= 1 and all(u[0] == name for u in runs))
        if runs:
            data = [T(fn, f) for fn, f in zip(loads, files)]
            v.prove("the tool runs on the content of the files, with the options", same_args(bound(v, name, runs[0][1], runs[0][2]), expected(v, name, data, kw)))
        out = w.named("write_data")
        v.prove("at most one file is written, after all other steps", len(out) <= (1 if writes else 0) and (not out or names[-1] == "write_data"))
        if out:
            v.prove("the result file holds the result of the tool", len(runs) == 1 and same_args(out[0], [files[-1], T("result", *runs[0][1])]))
        if w.fault is None:
            v.prove("the whole workflow is done", len(runs) == 1 and len(out) == (1 if writes else 0))
        elif names[-1] != "write_data":
            v.prove("nothing is written after a failure", not out)
    spec("main.run_%s_file" % name, [MAIN + ":run_%s_file" % name, MAIN + ":run_%s_data" % name])(run)


for _name in TOOLS:
    data_spec(_name)
    file_spec(_name)


# ------------------------------------------------------------------ in memory inputs
class Input(Tok):
    """data of the caller"""


def guard(v, w, mod, name, result=None):
    """a function which must not get the data of the caller"""
    def f(*a, **k):
        w.touched += [u for u in list(a) + list(k.values()) if isinstance(u, Input)]
        r = T(name, *[key(u) for u in a], *[key(u) for u in k.values()])
        return w.step(name, (), result(r) if result else r)
    v.override(mod + ":" + name, f)


def copied(v, fields):
    def f(x):
        if not isinstance(x, Input):
            raise Unsupported("copy of other data")
        return PDict({"%s.%s" % (x.name, k): Tok("%s.%s" % (x.name, k)) for k in fields}) if fields else Tok("copy of " + x.name)
    v.override("copy.deepcopy", f)


@spec("run.mesher.run: inputs", [RUN + "mesher:run"])
def mesher_inputs(v):
    w = World(v)
    w.touched = []
    copied(v, None)
    v.override("scilogger.get_timestamp", lambda: Tok("time"))
    guard(v, w, "pypeec.lib_check.check_data_format", "check_data_geometry")
    for fn in ("_run_mesher", "_run_resample_graph", "_get_data"):
        guard(v, w, RUN + "mesher", fn)
    r = v.call(RUN + "mesher", "run", Input("geometry"))
    w.loud()
    v.prove("the steps work on a copy of the data", not w.touched)
    names = [n for n, _ in w.log]
    v.prove("the data are checked first", names[:1] == ["check_data_geometry"])
    if v.raised is None:
        v.prove("all the steps are done once", names == ["check_data_geometry", "_run_mesher", "_run_resample_graph", "_get_data"])
        x = T("_run_mesher", key(Tok("copy of geometry")))
        v.prove("the result is assembled from the steps", key(r) == key(T("_get_data", key(T("_run_resample_graph", key(x[0]), key(x[1]), key(Tok("copy of geometry")))), key(Tok("time")))))


@spec("run.solver.run: inputs", [RUN + "solver:run"])
def solver_inputs(v):
    w = World(v)
    w.touched = []
    copied(v, ("a", "b"))
    v.override("scilogger.get_timestamp", lambda: Tok("time"))
    geom = PDict({"geom.a": Tok("geom.a")})
    guard(v, w, "pypeec.lib_check.check_data_options", "check_data_voxel", lambda r: (v.bool("voxel_status"), geom))
    guard(v, w, "pypeec.lib_check.check_data_format", "check_data_problem")
    guard(v, w, "pypeec.lib_check.check_data_format", "check_data_tolerance")
    guard(v, w, RUN + "solver", "_run_solver_init", lambda r: tuple(Tok("init%d" % k) for k in range(4)))
    guard(v, w, "pypeec.lib_solver.sweep_joblib", "get_run_sweep")
    guard(v, w, RUN + "solver", "_get_data")
    v.call(RUN + "solver", "run", Input("voxel"), Input("problem"), Input("tolerance"))
    w.loud()
    v.prove("the steps work on copies of the data", not w.touched)
    names = [n for n, _ in w.log]
    checks = ["check_data_voxel", "check_data_problem", "check_data_tolerance"]
    v.prove("the data are checked first", all(n in checks for n in names[:3]) and len(set(names[:3])) == len(names[:3]) and not any(n in checks for n in names[3:]))
    if v.raised is None:
        v.prove("all the steps are done once", names[3:] == ["_run_solver_init", "get_run_sweep", "_get_data"])


@spec("run.viewer.run: inputs", [RUN + "viewer:run"])
def viewer_inputs(v):
    P.only(v, "not modified")
    P.viewer_run(v)


@spec("run.plotter.run: inputs", [RUN + "plotter:run"], max_paths=600)
def plotter_inputs(v):
    P.only(v, "not modified")
    P.plotter_run(v)


# ------------------------------------------------------------------ command line
class Model:
    """parser and its sub-parsers: the options which are declared, by their long names"""
    __vc_methods__ = ("add_argument", "add_subparsers", "add_parser", "parse_args", "add_mutually_exclusive_group", "add_argument_group")

    def __init__(self, v, names=(), top=None):
        self.v, self.names, self.top = v, names, top
        self.options, self.parsers = [], []

    def add_argument(self, *flags, **k):
        dest = k.get("dest")
        if dest is None:
            long = [f for f in flags if f.startswith("--")] or [f for f in flags if not f.startswith("-")]
            dest = long[0].lstrip("-").replace("-", "_")
        self.options.append((tuple(flags), dest, k))

    def add_subparsers(self, **k):
        self.sub = k.get("dest")
        return self

    def add_parser(self, name, **k):
        p = Model(self.v, (name,) + tuple(k.get("aliases", ())), self)
        self.parsers.append(p)
        return p

    def add_mutually_exclusive_group(self, **k):
        return self

    def add_argument_group(self, *a, **k):
        return self

    def parse_args(self, argv=None):
        v = self.v
        v.given = argv
        if v.branch(v.bool("the arguments are not valid"), "exit of the parser"):
            v.code = v.int("code")
            raise PyRaise(SystemExit, "", Exit(v.code))
        out = {}
        pick = None
        for p in self.parsers:
            for n in p.names:
                if pick is None and v.branch(v.bool("command is " + n), n):
                    pick, out[self.sub] = p, n
        if pick is None:
            # a command is required
            raise Skip()
        v.command = out[self.sub]
        v.sent = {}
        for flags, dest, k in self.options + pick.options:
            if k.get("action") == "store_true":
                out[dest] = v.branch(v.bool("flag " + dest), dest)
            elif k.get("action") in ("version", "help"):
                continue
            elif "action" in k:
                raise Unsupported("action of an option")
            else:
                name = next((f for f in flags if f.startswith("--")), dest)
                if k.get("required") or not any(f.startswith("-") for f in flags) or v.branch(v.bool("given " + name), "given " + name):
                    out[dest] = v.sent[name] = Tok("value of " + name)
                else:
                    out[dest] = v.sent[name] = k.get("default")
                    v.sent["omitted " + name] = True
        return Args(out)


class Exit:
    def __init__(self, code):
        self.code = code

    def vc_attr(self, name):
        if name != "code":
            raise Unsupported("attribute of the exit")
        return self.code


class Args:
    def __init__(self, d):
        self.d = d

    def vc_attr(self, name):
        if name not in self.d:
            raise PyRaise(AttributeError, name)
        return self.d[name]


CALLS = {
    "mesher": ("run_mesher_file", {"file_geometry": "--geometry", "file_voxel": "--voxel"}),
    "viewer": ("run_viewer_file", {"file_voxel": "--voxel", "file_viewer": "--viewer", "tag_plot": "--tag_plot", "plot_mode": "--plot_mode", "folder": "--folder"}),
    "solver": ("run_solver_file", {"file_voxel": "--voxel", "file_problem": "--problem", "file_tolerance": "--tolerance", "file_solution": "--solution"}),
    "plotter": ("run_plotter_file", {"file_solution": "--solution", "file_plotter": "--plotter", "tag_sweep": "--tag_sweep", "tag_plot": "--tag_plot", "plot_mode": "--plot_mode", "folder": "--folder"}),
}
SHORT = {"me": "mesher", "vi": "viewer", "so": "solver", "pl": "plotter"}


@spec("script.run_arguments", [SCRIPT + ":" + x for x in ("run_arguments", "_get_parser", "_get_arg_mesher", "_get_arg_viewer", "_get_arg_solver", "_get_arg_plotter", "_get_arg_extract", "_run_extract")], max_paths=3000)
def arguments(v):
    w = World(v)
    v.override("argparse.ArgumentParser", lambda **k: Model(v))
    v.override(SCRIPT + ":_run_display_logo", lambda: None)
    v.override("importlib.resources.open_text", lambda p, n: Text())
    v.override("importlib.resources.path", lambda p, n: T("resource", p, n))
    v.override("shutil.unpack_archive", lambda f, p: w.step("unpack", (f, p), None))
    for name, (fn, _) in CALLS.items():
        def f(*a, _fn=fn, **k):
            g = v.ip.function(MAIN, _fn)
            env = {}
            v.ip.bind(g, list(a), dict(k), env)
            kw = g.node.args.kwarg
            flat = {x: y for x, y in env.items() if not kw or x != kw.arg}
            if kw:
                flat.update(env[kw.arg])
            return w.step(_fn, tuple(sorted(flat.items())), None)
        v.override(MAIN + ":" + fn, f)
    argv = Tok("argv")
    v.command = None
    r = v.call(SCRIPT, "run_arguments", argv)
    v.prove("no error", v.raised is None)
    v.prove("the given arguments are parsed", v.given is argv)
    if v.command is None:
        v.prove("invalid arguments: exit code of the parser", s_eq(r, v.code))
        v.prove("invalid arguments: nothing is run", not w.log)
        return
    v.prove("exit code 0 exactly after a success", r == (0 if w.fault is None else 1) and not isinstance(r, bool))
    cmd = SHORT.get(v.command, v.command)
    if cmd in CALLS:
        fn, opts = CALLS[cmd]
        v.prove("exactly the tool of the command runs, once", [n for n, _ in w.log] == [fn])
        if [n for n, _ in w.log] == [fn]:
            got = dict(w.log[0][1])
            v.prove("with exactly the given arguments", set(got) == set(opts) and all(key(got[k]) == key(v.sent.get(o)) for k, o in opts.items()))
        for o in ("--tag_plot", "--tag_sweep", "--plot_mode"):
            if "omitted " + o in v.sent:
                v.prove("an omitted selection shows everything", v.sent[o] is None)
    elif cmd in ("examples", "documentation"):
        v.prove("exactly the archive of the command is extracted, once", [n for n, _ in w.log] == ["unpack"] and same_args(w.log[0][1], [T("resource", "pypeec.data", cmd + ".zip"), Tok("value of path_extract")]))
    else:
        v.prove("the command is known", False)


class Text:
    __vc_methods__ = ("read",)

    def read(self):
        return SymStr(0)


@spec("script.run_script", [SCRIPT + ":run_script"])
def script(v):
    code = v.int("code")
    seen = []
    v.override(SCRIPT + ":run_arguments", lambda a: (seen.append(a), code)[1])
    v.override("sys.argv", ["pypeec", "a", "b"])

    def leave(c=None):
        raise PyRaise(SystemExit, "", Exit(c))
    v.override("sys.exit", leave)
    v.call(SCRIPT, "run_script")
    v.prove("the script exits", v.raised is not None and v.raised.cls is SystemExit)
    if v.raised is None or not isinstance(v.raised.value, Exit):
        return
    v.prove("with the code of the command", s_eq(v.raised.value.code, code))
    v.prove("on the command line arguments", len(seen) == 1 and list(seen[0]) == ["a", "b"])
