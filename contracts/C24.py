"""Only requested plots are shown and invalid requests are rejected."""
from contracts.common import *  # noqa
from contracts import plots as P

ASSUMED = ["jsonschema.validate rejects exactly the values which violate the keywords type, enum, minLength, items and required of the schema",
           "a name is requested at most once (a name which is requested twice is checked at run time only)",
           "the framework of a plot is pyvista or matplotlib (schema of the settings)"]


@spec("run.viewer.run", ["pypeec.run.viewer:run", "pypeec.run.viewer:_get_grid_voxel", "pypeec.run.viewer:_get_plot", P.OPT + ":check_tag_list", P.OPT + ":check_data_voxel"])
def viewer(v):
    P.viewer_run(v)


@spec("run.plotter.run", ["pypeec.run.plotter:" + x for x in ("run", "_get_sweep", "_get_grid_voxel", "_get_plot")] + [P.OPT + ":check_tag_list", P.OPT + ":check_data_solution"], max_paths=600)
def plotter(v):
    P.plotter_run(v)


@spec("check_plot_options", [P.OPT + ":check_plot_options"])
def options(v):
    v.override("jsonschema.validate", lambda instance, schema: P.validate(v, instance, schema))

    def value(name):
        if v.branch(v.bool(name + " is None"), name + " is None"):
            return None, True
        if v.branch(v.bool(name + " is a string"), name + " is a string"):
            x = SymStr(v.int(name))
            return x, (b_or(*[P.seq(x, u) for u in ("qt", "nb", "save", "debug")]) if name == "plot_mode" else b_not(P.seq(x, "")))
        return P.Bad("number"), False
    vals = [value(k) for k in ("plot_mode", "folder", "name")]
    v.call(P.OPT, "check_plot_options", *[x for x, _ in vals])
    good = b_and(*[g for _, g in vals])
    if v.raised is None:
        v.prove("an unknown plot mode, an empty folder or file name and other types are rejected", good)
    else:
        v.prove("known plot modes, folders and file names are accepted", b_not(good))
