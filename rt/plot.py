"""Plot requests and a recorder at the PyVista / Matplotlib boundary."""
import os
import types
import contextlib
import numpy as np
from rt.common import *  # noqa

COLORS = ["red", "green", "blue", "black", "gray", "white", "orange", "cyan"]


def window(c):
    sz = lambda: c.pick([None, [c.i(50, 300), c.i(50, 300)]])  # noqa
    return {"show_menu": c.p(), "image_size": sz(), "window_size": sz(), "notebook_size": sz()}


def opt_pyvista(c, extra=True):
    f = lambda: round(c.f(0.1, 3), 3)  # noqa
    a = lambda: c.pick([None, round(c.f(1, 80), 2)])  # noqa
    return {
        "plot_clip": {"clip_plot": extra and c.p(0.3), "clip_invert": c.p(), "clip_axis": c.pick("xyz"), "clip_value": f()},
        "plot_theme": {"text_color": c.pick(COLORS), "title_font": c.i(5, 20), "colorbar_font": c.i(5, 20), "colorbar_size": c.i(2, 6), "colorbar_plot": c.p(),
                       "background_color": c.pick(COLORS), "axis_add": c.p(), "axis_size": c.i(1, 4)},
        "plot_view": {"grid_plot": extra and c.p(), "grid_thickness": f(), "grid_color": c.pick(COLORS), "grid_opacity": 0.5, "geom_plot": extra and c.p(),
                      "geom_thickness": f(), "geom_color": c.pick(COLORS), "geom_opacity": 0.3, "point_plot": extra and c.p(), "point_color": c.pick(COLORS),
                      "point_size": f(), "point_opacity": 0.7, "camera_roll": a(), "camera_azimuth": a(), "camera_elevation": a()},
    }


def opt_matplotlib(c):
    return {"style": "default", "legend": "best", "font": c.i(6, 18)}


def one(c, layout, var=None, extra=True):
    """a valid plot description with random settings"""
    t = "t%d" % c.i(0, 10 ** 6)
    f = lambda: round(c.f(0.1, 3), 3)  # noqa
    if layout in ("domain", "graph"):
        p = {"title": t, "colormap": c.pick(["jet", "viridis"]), "opacity": f()}
    elif layout == "mesh":
        p = {"title": t, "color_voxel": c.pick(COLORS), "color_reference": c.pick(COLORS), "opacity_voxel": f(), "opacity_reference": f()}
    elif layout == "material":
        p = {"title": t}
        for k in ("electric", "magnetic", "electromagnetic", "current_source", "voltage_source"):
            p["color_" + k] = c.pick(COLORS)
    elif layout == "convergence":
        p = {"color_active": c.pick(COLORS), "color_reactive": c.pick(COLORS), "marker": f(), "width": f()}
    elif layout == "residuum":
        p = {"bar_color": c.pick(COLORS), "edge_color": c.pick(COLORS), "tol_bins": f(), "n_bins": c.i(3, 20)}
    else:
        lim = lambda q: None if c.p(q) else sorted([round(c.f(-1, 1), 3), round(c.f(0, 3), 3)])  # noqa
        p = {"title": t, "legend": "l" + t, "var": var, "log": c.p(), "color_lim": lim(0.5), "filter_lim": lim(0.5), "clamp_lim": lim(0.5), "scale": round(c.f(-2, 3), 3)}
        if layout.startswith("norm"):
            p.update(point_size=f())
        elif layout.startswith("phasor"):
            p.update(point_size=f(), phase=round(c.f(-4, 4), 3))
        else:
            p.update(phase=round(c.f(-4, 4), 3), arrow_threshold=c.pick([0.0, 0.2, 0.9]), arrow_scale=f())
    fw = "matplotlib" if layout in ("convergence", "residuum") else "pyvista"
    return {"framework": fw, "layout": layout, "title": "w" + t, "data_window": window(c),
            "data_options": opt_pyvista(c, extra) if fw == "pyvista" else opt_matplotlib(c), "data_plot": p}


class Scene:
    """what was given to one PyVista plotter"""

    def __init__(self, args, kw):
        self.init = (args, kw)
        self.mesh = []
        self.text = []
        self.background = None
        self.axes = None
        self.camera = types.SimpleNamespace(roll=None, azimuth=None, elevation=None)
        self.saved = []


class Shown:
    def __init__(self):
        self.scenes = []
        self.figs = []       # (file name, figure title, labels, colors)

    @property
    def anything(self):
        return bool(self.scenes or self.figs)


@contextlib.contextmanager
def recorder():
    """replace the rendering methods of PyVista and the figure output of Matplotlib by recorders"""
    import pyvista
    import matplotlib
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    matplotlib.use("Agg")
    out = Shown()
    scene = {}

    def init(self, *a, **k):
        s = Scene(a, k)
        scene[id(self)] = (s, self)
        out.scenes.append(s)

    def of(self):
        return scene[id(self)][0]

    def add_mesh(self, obj, *a, **k):
        of(self).mesh.append(("mesh", obj.copy(deep=True), k))

    def add_clip(self, obj, *a, **k):
        of(self).mesh.append(("clip", obj.copy(deep=True), k))

    def add_text(self, text, *a, **k):
        of(self).text.append((text, k))

    def set_background(self, color, *a, **k):
        of(self).background = color

    def add_axes(self, *a, **k):
        of(self).axes = k

    def screenshot(self, filename=None, *a, **k):
        of(self).saved.append(str(filename))

    def nothing(self, *a, **k):
        return None

    def savefig(self, fname, *a, **k):
        ax = self.axes[0] if self.axes else None
        out.figs.append({"file": str(fname), "title": ax.get_title() if ax else None, "xlabel": ax.get_xlabel() if ax else None,
                         "lines": [(ln.get_label(), ln.get_color(), ln.get_linewidth(), ln.get_markersize(), np.array(ln.get_ydata())) for ln in ax.lines] if ax else [],
                         "bars": [(p.get_x(), p.get_width(), p.get_height()) for p in ax.patches] if ax else [], "size": tuple(self.get_size_inches() * self.dpi)})
    new = {"__init__": init, "add_mesh": add_mesh, "add_mesh_clip_plane": add_clip, "add_text": add_text, "set_background": set_background, "add_axes": add_axes,
           "screenshot": screenshot, "close": nothing, "show": nothing, "camera": property(lambda self: of(self).camera), "__del__": nothing}
    P = pyvista.Plotter
    P._initialized = False       # for the destructor of the recorded plotters
    old = {k: P.__dict__[k] for k in new if k in P.__dict__}
    oldf = Figure.savefig
    try:
        for k, v in new.items():
            setattr(P, k, v)
        Figure.savefig = savefig
        yield out
    finally:
        for k in new:
            if k in old:
                setattr(P, k, old[k])
            else:
                delattr(P, k)
        Figure.savefig = oldf
        plt.close("all")


def cell_numbers(obj, n, d, c):
    """voxel numbers of the cells of a grid from their positions; the cells must be the voxels of the grid"""
    b = np.array([obj.get_cell(k).bounds for k in range(obj.n_cells)]).reshape(-1, 3, 2)
    lo = np.array([c[a] - n[a] * d[a] / 2 for a in range(3)])
    q = (b[:, :, 0] - lo) / np.array(d)
    p = np.rint(q).astype(int)
    need(np.all(np.abs(q - p) < 1e-6), "cells are not at voxel positions")
    need(np.all(np.abs(b[:, :, 1] - b[:, :, 0] - np.array(d)) < 1e-6 * max(d)), "cells do not have the voxel size")
    need(np.all((p >= 0) & (p < np.array(n))), "cells outside the grid")
    return p[:, 0] + n[0] * p[:, 1] + n[0] * n[1] * p[:, 2]
