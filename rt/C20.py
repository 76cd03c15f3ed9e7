import os
import io
import sys
import json
import shutil
import tempfile
import contextlib
from rt.common import *  # noqa
from rt import gen, plot, prob


class Boom(Exception):
    pass


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="pypeec_c20_")
    try:
        yield d
    finally:
        shutil.rmtree(d)


@contextlib.contextmanager
def patched(*items):
    """replace attributes (object, name, value) for the duration of a call"""
    old = []
    try:
        for obj, name, val in items:
            old.append((obj, name, getattr(obj, name)))
            setattr(obj, name, val)
        yield
    finally:
        for obj, name, val in reversed(old):
            setattr(obj, name, val)


def plain(x):
    """JSON image of input data"""
    return json.loads(json.dumps(x, default=lambda v: v.tolist()))


def put(path, data):
    with open(path, "w") as f:
        json.dump(data, f, default=lambda v: v.tolist())
    return path


def no_time(data):
    return {k: v for k, v in data.items() if k not in ("date", "duration", "seconds")}


def wall(data):
    """without the measured times and the (randomised) estimates of the condition numbers"""
    out = no_time(data)
    if "data_sweep" in out:
        out["data_sweep"] = {t: {k: v for k, v in x.items() if k != "condition_status"} for t, x in out["data_sweep"].items()}
    return out


def console():
    return io.TextIOWrapper(io.BytesIO(), encoding="utf-8")


def small(c, n_cloud=1):
    while True:
        case = prob.random_problem(c, nmax=2, n_cloud=n_cloud)
        if case["n"][0] * case["n"][1] * case["n"][2] <= 8:
            return case


def pick_ext(c):
    return c.pick([".pck", ".pkl", ".json", ".gz"])


def ok_equal(a, b, path=""):
    """equal data, also when arrays went through a JSON file"""
    if isinstance(a, dict):
        need(isinstance(b, dict) and list(a) == list(b), "fields differ at " + path, list(a), list(b) if isinstance(b, dict) else b)
        for k in a:
            ok_equal(a[k], b[k], path + "/" + str(k))
    elif isinstance(a, (list, tuple)):
        need(isinstance(b, (list, tuple)) and len(a) == len(b), "length differs at " + path)
        for k, (x, y) in enumerate(zip(a, b)):
            ok_equal(x, y, path + "/" + str(k))
    elif isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        need(a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"), "values differ at " + path, a, b)
    elif isinstance(a, float) and a != a:
        need(b != b, "values differ at " + path)
    else:
        need(a == b, "values differ at " + path, a, b)


@contract("main.run_mesher_file/run_mesher_data", "file and memory variants agree, inputs unchanged, runs repeatable", 25)
def mesher_ok(c):
    import scisave
    n, d, ctr = gen.grid(c, 3)
    dom = gen.domains(c, n[0] * n[1] * n[2], empty=False)
    if not all(dom.values()):
        dom = {"a": [0]}
    g = gen.data_geometry(n, d, ctr, dom, cloud=[[9.0, 9.0, 9.0]], reduce=c.p(), resample=c.p(), factor=(1, 2, 1), check_cloud=c.p(),
                          rules=[{"domain_resolve": [list(dom)[0]], "domain_keep": [list(dom)[-1]]}] if len(dom) > 1 else [], use_rules=True)
    c.note(geometry=g)
    with scratch() as tmp:
        fg = put(os.path.join(tmp, "g.json"), g)
        out = os.path.join(tmp, "v" + pick_ext(c))
        before = open(fg).read()
        r = call("main", "run_mesher_file", fg, out)
        need(open(fg).read() == before, "input file modified")
        need(sorted(os.listdir(tmp)) == sorted(["g.json", os.path.basename(out)]), "unexpected files", os.listdir(tmp))
        res = scisave.load_data(out)
        mem = plain(g)
        if c.p():
            mem["data_voxelize"]["param"]["n"] = np.array(n, dtype=np.int64)
            mem["data_voxelize"]["domain_index"] = {k: np.array(v, dtype=np.int64) for k, v in dom.items()}
        old = freeze(mem)
        a = call("main", "run_mesher_data", mem)
        need(equal_data(old, mem), "input modified by the run")
        b = call("main", "run_mesher_data", mem)
        need(equal_data(old, mem), "input modified by the run")
        ok_equal(wall(a), wall(b))
        ok_equal(wall(a), wall(res))
        need(list(a) == list(res), "fields of the result file", list(a), list(res))


@contract("main.run_solver_file/run_solver_data", "file and memory variants agree, inputs unchanged, runs repeatable", 25)
def solver_ok(c):
    import scisave
    case = small(c)
    tol = prob.tolerance(solver_options__coupling=c.pick(["direct", "direct", "segregated"]))
    pro = prob.problem(case)
    c.note(problem=case["note"])
    with scratch() as tmp:
        fg = put(os.path.join(tmp, "g.json"), prob.geometry(case))
        fp = put(os.path.join(tmp, "p.json"), pro)
        ft = put(os.path.join(tmp, "t.json"), tol)
        fv, fs = os.path.join(tmp, "v.pck"), os.path.join(tmp, "s" + pick_ext(c))
        call("main", "run_mesher_file", fg, fv)
        keep = {f: open(f, "rb").read() for f in (fp, ft, fv)}
        call("main", "run_solver_file", fv, fp, ft, fs)
        need(all(open(f, "rb").read() == t for f, t in keep.items()), "input file modified")
        res = scisave.load_data(fs)
        vox = scisave.load_data(fv)
        mem = (vox, plain(pro), plain(tol))
        old = freeze(mem)
        a = call("main", "run_solver_data", *mem)
        need(equal_data(old, mem), "input modified by the run")
        b = call("main", "run_solver_data", *mem)
        need(equal_data(old, mem), "input modified by the run")
        ok_equal(wall(a), wall(b))
        ok_equal(wall(a), wall(res))


TOOLS = {
    "run_mesher_data": ("mesher", 1), "run_viewer_data": ("viewer", 2), "run_solver_data": ("solver", 3), "run_plotter_data": ("plotter", 2),
}


@contract("main.run_*_data", "arguments and result are passed through, the same error reaches the caller", 80)
def data_variants(c):
    import importlib
    name = c.pick(list(TOOLS))
    mod, k = TOOLS[name]
    others = [m for m in ("mesher", "viewer", "solver", "plotter") if m != mod]
    args = [object() for _ in range(k)]
    kw = {}
    if mod in ("viewer", "plotter"):
        kw = {t: object() for t in ("tag_plot", "plot_mode", "folder", "name") if c.p()}
        if mod == "plotter" and c.p():
            kw["tag_sweep"] = object()
    fail = c.p()
    err = c.pick([Boom, ValueError, RuntimeError, KeyError, OSError, AssertionError])("x")
    back = object()
    seen = []

    def tool(m):
        def f(*a, **b):
            seen.append((m, a, b))
            if fail:
                raise err
            return back
        return f
    c.note(function=name, fail=repr(err) if fail else None, options=sorted(kw))
    mods = {m: importlib.import_module("pypeec.run." + m) for m in [mod] + others}
    with patched(*[(mods[m], "run", tool(m)) for m in mods]):
        f = fn("main", name)
        try:
            r = f(*args, **kw)
        except Exception as e:
            need(fail, "unexpected error", e)
            need(e is err, "another error reaches the caller", e, err)
        else:
            need(not fail, "the failure was swallowed")
            if mod in ("mesher", "solver"):
                need(r is back, "result of the computation")
    need(len(seen) == 1 and seen[0][0] == mod, "exactly the own tool runs once", seen)
    need(len(seen[0][1]) + len(seen[0][2]) == k + len(kw) and all(x is y for x, y in zip(seen[0][1], args)), "arguments")
    need(all(seen[0][2].get(t) is v for t, v in kw.items()), "options")


def files(c, tmp, ext_in, names):
    """write marker input files; returns the paths and the loaded contents"""
    import scisave
    out = {}
    for t, kind in names.items():
        p = os.path.join(tmp, t + (".pck" if kind == "data" else c.pick([".json", ".yaml"])))
        data = {"marker": t, "value": c.i(0, 1000), "list": [1, 2.5, None]}
        if kind == "data":
            scisave.write_data(p, data)
        elif p.endswith(".json"):
            put(p, data)
        else:
            with open(p, "w") as f:
                f.write(json.dumps(data))
        out[t] = (p, data)
    return out


FILE = {
    "run_mesher_file": ("mesher", [("geometry", "cfg")], True),
    "run_viewer_file": ("viewer", [("voxel", "data"), ("viewer", "cfg")], False),
    "run_solver_file": ("solver", [("voxel", "data"), ("problem", "cfg"), ("tolerance", "cfg")], True),
    "run_plotter_file": ("plotter", [("solution", "data"), ("plotter", "cfg")], False),
}


@contract("main.run_*_file", "every failure reaches the caller and leaves no result file behind", 250)
def file_variants(c):
    import importlib
    import scisave
    name = c.pick(list(FILE))
    mod, ins, has_out = FILE[name]
    kind = c.pick(["ok", "ok", "missing", "broken", "compute", "save", "save_ext"] if has_out else ["ok", "missing", "broken", "compute"])
    with scratch() as tmp:
        fl = files(c, tmp, None, dict(ins))
        paths = [fl[t][0] for t, _ in ins]
        err = c.pick([Boom, ValueError, RuntimeError, KeyError, OSError])("x")
        victim = c.i(0, len(ins) - 1)
        expect = None
        if kind == "missing":
            paths[victim] = os.path.join(tmp, "absent", os.path.basename(paths[victim]))
            expect = OSError
        if kind == "broken":
            with open(paths[victim], "w") as f:
                f.write("{ : not / valid [")
            expect = Exception
        out, prior = None, None
        if has_out:
            out = os.path.join(tmp, "out" + c.pick([".pck", ".json"]))
            if kind == "save":
                out = os.path.join(tmp, "nowhere", "out.pck")
                expect = OSError
            if kind == "save_ext":
                out = os.path.join(tmp, "out.unknown")
                expect = ValueError
            if kind != "save" and c.p():
                prior = b"previous content"
                with open(out, "wb") as f:
                    f.write(prior)
        seen = []
        result = {"marker": "result", "value": c.i(0, 1000), "array": np.arange(3.0)}

        def tool(*a, **b):
            seen.append((a, b))
            if has_out and kind != "save":
                need((open(out, "rb").read() if os.path.exists(out) else None) == prior, "the result file is touched before the computation has succeeded")
            if kind == "compute":
                raise err
            return result
        kw = {}
        if not has_out:
            kw = {t: c.pick(["a", None, ["x"]]) for t in ("tag_plot", "plot_mode", "folder", "name") if c.p()}
            if mod == "plotter" and c.p():
                kw["tag_sweep"] = ["u"]
        c.note(function=name, kind=kind, victim=ins[victim][0], out=out and os.path.basename(out), prior=prior is not None, options=kw)
        m = importlib.import_module("pypeec.run." + mod)
        f = fn("main", name)
        with patched((m, "run", tool)):
            try:
                f(*(paths + ([out] if has_out else [])), **kw)
            except Fail:
                raise
            except Exception as e:
                need(kind != "ok", "unexpected error", e)
                if kind == "compute":
                    need(e is err, "another error reaches the caller", e, err)
                else:
                    need(isinstance(e, expect), "another error reaches the caller", e)
            else:
                need(kind == "ok", "the failure was swallowed")
        if kind in ("missing", "broken"):
            need(not seen, "computed without the input data")
        else:
            need(len(seen) == 1, "computed exactly once")
            need(equal_data(list(seen[0][0]), [fl[t][1] for t, _ in ins]), "the tool gets the content of the files", seen[0][0])
            need(seen[0][1] == kw, "options", seen[0][1], kw)
        if has_out:
            if kind == "ok":
                ok_equal(result, scisave.load_data(out))
            elif kind in ("missing", "broken", "compute"):
                need(os.path.exists(out) == (prior is not None), "a result file was written although the run failed")
                need(prior is None or open(out, "rb").read() == prior, "the result file was changed although the run failed")


OPT = {
    "mesher": (["mesher", "me"], "run_mesher_file", [("file_geometry", ["-ge", "--geometry"]), ("file_voxel", ["-vo", "--voxel"])], False, False),
    "viewer": (["viewer", "vi"], "run_viewer_file", [("file_voxel", ["-vo", "--voxel"]), ("file_viewer", ["-vi", "--viewer"])], True, False),
    "solver": (["solver", "so"], "run_solver_file", [("file_voxel", ["-vo", "--voxel"]), ("file_problem", ["-pr", "--problem"]), ("file_tolerance", ["-to", "--tolerance"]), ("file_solution", ["-so", "--solution"])], False, False),
    "plotter": (["plotter", "pl"], "run_plotter_file", [("file_solution", ["-so", "--solution"]), ("file_plotter", ["-pl", "--plotter"])], True, True),
}
RUNS = ["run_mesher_file", "run_viewer_file", "run_solver_file", "run_plotter_file", "run_mesher_data", "run_viewer_data", "run_solver_data", "run_plotter_data"]


@contract("script.run_arguments/run_script", "each command runs its own tool with its arguments; exit status 0 or 1", 250)
def command(c):
    import pypeec
    import pypeec.main
    import pypeec.script
    import inspect as ins
    cmd = c.pick(list(OPT))
    alias, target, args, has_plot, has_sweep = OPT[cmd]
    names = [t for t, _ in args]
    vals = {t: c.pick(["%s.pck", "dir/%s.json", "%s with space.yaml"]) % t for t in names}
    parts = [[c.pick(o), vals[t]] for t, o in args]
    exp = {}
    if has_plot:
        exp = {"tag_plot": None, "plot_mode": None, "folder": "."}
        if c.p():
            exp["tag_plot"] = ["t%d" % k for k in range(c.i(1, 3))]
            parts.append([c.pick(["-tp", "--tag_plot"])] + exp["tag_plot"])
        if c.p():
            exp["plot_mode"] = c.pick(["qt", "nb", "save", "debug"])
            parts.append([c.pick(["-pm", "--plot_mode"]), exp["plot_mode"]])
        if c.p():
            exp["folder"] = "some/folder"
            parts.append([c.pick(["-f", "--folder"]), exp["folder"]])
    if has_sweep:
        exp["tag_sweep"] = None
        if c.p():
            exp["tag_sweep"] = ["s%d" % k for k in range(c.i(1, 3))]
            parts.append([c.pick(["-ts", "--tag_sweep"])] + exp["tag_sweep"])
    kind = c.pick(["ok", "ok", "fail", "missing"])
    drop = c.i(0, len(args) - 1)
    if kind == "missing":
        parts.pop(drop)
    argv = c.pick([["-q"], ["--quiet"], []]) + [c.pick(alias)] + [x for k in c.rng.permutation(len(parts)) for x in parts[k]]
    err = c.pick([Boom, ValueError, RuntimeError, OSError, KeyError])("x")
    c.note(argv=argv, kind=kind)
    seen = []

    def stand_in(t):
        def f(*a, **b):
            seen.append((t, a, b))
            if kind == "fail":
                raise err
        return f
    items = []
    real = {t: getattr(pypeec.main, t) for t in RUNS}
    for t in RUNS:
        f = stand_in(t)
        items += [(m, t, f) for m in (pypeec, pypeec.main) if hasattr(m, t)]
        if hasattr(pypeec.script, t):
            items.append((pypeec.script, t, f))
    script = c.p(0.4)
    buf = console()
    with patched(*items), contextlib.redirect_stderr(buf), contextlib.redirect_stdout(buf):
        if script:
            fn("script", "run_script")
            old = sys.argv
            try:
                sys.argv = ["pypeec"] + argv
                try:
                    pypeec.script.run_script()
                    raise Fail("the command does not set an exit status")
                except SystemExit as e:
                    status = e.code
            finally:
                sys.argv = old
        else:
            status = call("script", "run_arguments", argv)
    if kind == "missing":
        need(not seen, "a tool runs although an argument is missing")
        need(status not in (0, None), "exit status of an incomplete command", status)
        return
    need(len(seen) == 1 and seen[0][0] == target, "exactly the own tool runs once", [s[0] for s in seen])
    ba = ins.signature(real[target]).bind(*seen[0][1], **seen[0][2])
    got = {}
    for k, v in ba.arguments.items():
        got.update(v) if k == "kwargs" else got.update({k: v})
    need(got == dict(vals, **exp), "arguments of the tool", got, dict(vals, **exp))
    need(status == (1 if kind == "fail" else 0) if status is not None else kind != "fail", "exit status", status, kind)


@contract("script.run_arguments", "invalid commands fail without running anything", 60)
def bad_command(c):
    import pypeec
    import pypeec.main
    seen = []
    argv = c.pick([[], ["unknown"], ["-q"], ["mesh", "-ge", "a", "-vo", "b"], ["mesher", "-ge", "a"], ["viewer", "-vo", "a", "-vi", "b", "-pm", "screen"],
                   ["mesher", "-ge", "a", "-vo", "b", "--extra", "x"], ["solver", "--file", "a", "-pr", "b", "-to", "c", "-so", "d"], ["plotter", "-so", "a", "-pl", "b", "-tp"], ["examples"],
                   ["documentation"], ["mesher", "mesher", "-ge", "a", "-vo", "b"]])
    c.note(argv=argv)
    items = [(m, t, lambda *a, **k: seen.append(a)) for t in RUNS for m in (pypeec, pypeec.main) if hasattr(m, t)]
    buf = console()
    with patched(*items), contextlib.redirect_stderr(buf), contextlib.redirect_stdout(buf):
        status = call("script", "run_arguments", argv)
    need(not seen, "a tool runs for an invalid command")
    need(status not in (0, None), "exit status", status)


@contract("script.run_arguments", "the extraction commands unpack their own archive into the given path", 30)
def extract(c):
    import shutil as sh
    import pypeec
    import pathlib
    import importlib.resources as ir
    seen = []
    cmd = c.pick(["examples", "documentation"])
    fail = c.p(0.4)

    @contextlib.contextmanager
    def path(pkg, name):
        yield pathlib.Path("/nonexistent") / pkg / name

    def unpack(file, dst=None, *a, **k):
        seen.append((os.path.basename(str(file)), dst))
        if fail:
            raise sh.ReadError("x")
    c.note(command=cmd, fail=fail)
    buf = console()
    with patched((sh, "unpack_archive", unpack), (ir, "path", path)), contextlib.redirect_stderr(buf), contextlib.redirect_stdout(buf):
        status = call("script", "run_arguments", ["-q", cmd, "some/where"])
    need(seen == [(cmd + ".zip", "some/where")], "archive and path", seen)
    need((status == 1) if fail else (status in (0, None)), "exit status", status)


@contract("script.run_arguments", "complete workflow on the command line", 8)
def workflow(c):
    import scisave
    case = small(c)
    c.note(problem=case["note"])
    with scratch() as tmp:
        p = lambda t: os.path.join(tmp, t)  # noqa
        put(p("g.json"), prob.geometry(case))
        put(p("p.json"), prob.problem(case))
        put(p("t.json"), prob.tolerance())
        put(p("vi.json"), {"a": plot.one(c, "domain"), "b": plot.one(c, "mesh")})
        put(p("pl.json"), {"a": plot.one(c, "material"), "b": plot.one(c, "residuum")})
        buf = console()
        with plot.recorder() as rec, contextlib.redirect_stderr(buf), contextlib.redirect_stdout(buf):
            s = [call("script", "run_arguments", ["-q", "me", "-ge", p("g.json"), "-vo", p("v.pck")]),
                 call("script", "run_arguments", ["-q", "vi", "-vo", p("v.pck"), "-vi", p("vi.json"), "-pm", "save", "-f", tmp, "-tp", "b"]),
                 call("script", "run_arguments", ["-q", "so", "-vo", p("v.pck"), "-pr", p("p.json"), "-to", p("t.json"), "-so", p("s.pck")]),
                 call("script", "run_arguments", ["-q", "pl", "-so", p("s.pck"), "-pl", p("pl.json"), "-pm", "save", "-f", tmp])]
            bad = [call("script", "run_arguments", ["-q", "me", "-ge", p("p.json"), "-vo", p("x.pck")]),
                   call("script", "run_arguments", ["-q", "vi", "-vo", p("v.pck"), "-vi", p("vi.json"), "-pm", "save", "-f", tmp, "-tp", "c"]),
                   call("script", "run_arguments", ["-q", "so", "-vo", p("s.pck"), "-pr", p("p.json"), "-to", p("t.json"), "-so", p("x.pck")]),
                   call("script", "run_arguments", ["-q", "pl", "-so", p("v.pck"), "-pl", p("pl.json"), "-pm", "save", "-f", tmp])]
        need(all(x in (0, None) for x in s), "exit status of the workflow", s)
        need(bad == [1, 1, 1, 1], "exit status of failing commands", bad)
        need(not os.path.exists(p("x.pck")), "result file of a failing command")
        need([x.saved for x in rec.scenes] == [[p("pypeec_b.png")], [p("pypeec_sim_a.png")]], "plots", [x.saved for x in rec.scenes])
        need([f["file"] for f in rec.figs] == [p("pypeec_sim_b.png")], "figures")
        mem = call("main", "run_solver_data", call("main", "run_mesher_data", prob.geometry(case)), prob.problem(case), prob.tolerance())
        ok_equal(wall(mem), wall(scisave.load_data(p("s.pck"))))


@contract("manage_plotgui.PlotGui.show", "a failing event loop reaches the caller", 4)
def qt(c):
    import matplotlib.pyplot as plt
    import signal
    PG = fn("lib_plot.manage_plotgui", "PlotGui")
    g = PG.__new__(PG)
    code = c.pick([0, 1, 7]) if c.k else 3
    import types
    win = types.SimpleNamespace(close=lambda: None, show=lambda: None)
    g.plot_mode, g.folder, g.name = "qt", ".", "x"
    g.pl_list, g.fig_list = [("t", types.SimpleNamespace(app_window=win))], []
    g.app = types.SimpleNamespace(exec=lambda: code, quit=lambda: None)
    c.note(exit_code=code)
    old = signal.getsignal(signal.SIGINT)
    try:
        with patched((plt, "show", lambda *a, **k: None)):
            try:
                g.show()
            except AttributeError as e:
                raise Skip(str(e))
            except Exception:
                need(code != 0, "unexpected error")
            else:
                need(code == 0, "the failure was swallowed")
    finally:
        signal.signal(signal.SIGINT, old)
