import tempfile
import os
import shutil
from rt.common import *  # noqa
from rt import gen

PALETTE = [(0, 0, 0, 255), (255, 0, 0, 255), (0, 255, 0, 255), (0, 0, 255, 255), (255, 255, 255, 255), (255, 0, 0, 128),
           (1, 0, 0, 255), (0, 0, 0, 0)]


def _images(c, folder, nx, ny, m):
    from PIL import Image
    out = []
    for k in range(m):
        pal = c.rng.integers(0, len(PALETTE), size=(ny, nx))
        mode = c.pick(["RGBA", "RGBA", "RGB", "P"])
        if mode != "RGBA":
            pal = pal % 5
        rgba = np.array(PALETTE, dtype=np.uint8)[pal]
        path = os.path.join(folder, "img_%d.png" % k)
        img = Image.fromarray(rgba, "RGBA")
        if mode != "RGBA":
            img = img.convert("RGB")
        if mode == "P":
            img = img.quantize(8)
        img.save(path)
        out.append((path, pal))
    return out


def _spec(nx, ny, colors, stack):
    """domain -> set of voxels; row 0 is the bottom of the image"""
    out = {t: [] for t in colors}
    nz = 0
    for n_layer, imgs in stack:
        for t, cols in colors.items():
            for iz in range(n_layer):
                lay = []
                for x in range(nx):
                    for y in range(ny):
                        if any(PALETTE[pal[ny - 1 - y, x]] == tuple(col) for _, pal in imgs for col in cols):
                            lay.append(x + nx * y + nx * ny * (nz + iz))
                out[t].append(lay)
        nz += n_layer
    return nz, out


def _case(c, folder):
    nx, ny = c.i(1, 5), c.i(1, 5)
    imgs = _images(c, folder, nx, ny, 4)
    colors = {}
    for t in "zab"[:c.i(1, 3)]:
        colors[t] = [list(PALETTE[int(j)]) for j in c.rng.integers(0, len(PALETTE), size=c.i(1, 3))]
    stack = []
    for _ in range(c.i(1, 3)):
        stack.append((c.i(1, 3), [imgs[int(j)] for j in c.rng.integers(0, 4, size=c.i(1, 2))]))
    return nx, ny, colors, stack


@contract("mesher_png.get_mesh", "voxel sets of the colours, stacked layers", 60)
def exact(c):
    folder = tempfile.mkdtemp(prefix="vrt_")
    try:
        nx, ny, colors, stack = _case(c, folder)
        d, ctr = [c.f(.1, 2) for _ in range(3)], [c.f(-1, 1) for _ in range(3)]
        c.note(size=[nx, ny], colors=colors, stack=[(n, [p.tolist() for _, p in im]) for n, im in stack], palette=PALETTE)
        ls = [{"n_layer": n, "filename_list": [f for f, _ in im]} for n, im in stack]
        r = call("lib_mesher.mesher_png", "get_mesh", {"d": d, "c": ctr, "size": [nx, ny]}, colors, ls)
        nz, spec = _spec(nx, ny, colors, stack)
        same(r[0], [nx, ny, nz], "grid size")
        same(r[1], d, "voxel size")
        same(r[2], ctr, "centre")
        need(list(r[3]) == list(colors), "domain names", list(r[3]))
        for t in colors:
            flat = sorted(v for lay in spec[t] for v in lay)
            same(np.sort(r[3][t]), np.array(flat, dtype=np.int64), "voxels of domain " + t)
    finally:
        shutil.rmtree(folder)


@contract("run.mesher.run", "layered images end to end", 12)
def whole(c):
    folder = tempfile.mkdtemp(prefix="vrt_")
    try:
        nx, ny, colors, stack = _case(c, folder)
        # distinct colours per domain so that no conflict occurs
        cols = c.rng.permutation(len(PALETTE))
        colors = {t: [list(PALETTE[int(cols[j])])] for j, t in enumerate(colors)}
        stack = [(n, im[:1]) for n, im in stack]
        nz, spec = _spec(nx, ny, colors, stack)
        c.note(size=[nx, ny], colors=colors, stack=[(n, [p.tolist() for _, p in im]) for n, im in stack])
        g = gen.data_geometry([1, 1, 1], [1., 1., 1.], [0., 0., 0.], {})
        g["mesh_type"] = "png"
        g["data_voxelize"] = {"param": {"d": [1., 2., 3.], "c": [0., 1., 2.], "size": [nx, ny]}, "domain_color": colors,
                              "layer_stack": [{"n_layer": n, "filename_list": [f for f, _ in im]} for n, im in stack]}
        r = call("run.mesher", "run", g)["data_geom"]
        same(r["n"], [nx, ny, nz], "grid size")
        for t in colors:
            same(np.sort(r["domain_def"][t]), np.array(sorted(v for lay in spec[t] for v in lay), dtype=np.int64), "voxels of domain " + t)
    finally:
        shutil.rmtree(folder)


@contract("mesher_png.get_mesh", "bad images and colours are rejected", 40)
def reject(c):
    folder = tempfile.mkdtemp(prefix="vrt_")
    try:
        nx, ny, colors, stack = _case(c, folder)
        ls = [{"n_layer": n, "filename_list": [f for f, _ in im]} for n, im in stack]
        kind = c.pick(["missing", "text", "jpeg", "size", "swap", "color3", "color5", "color1"])
        size = [nx, ny]
        k = c.i(0, len(ls) - 1)
        if kind == "missing":
            ls[k]["filename_list"].append(os.path.join(folder, "nope.png"))
        elif kind == "text":
            p = os.path.join(folder, "text.png")
            open(p, "w").write("not an image")
            ls[k]["filename_list"].append(p)
        elif kind == "jpeg":
            from PIL import Image
            p = os.path.join(folder, "fake.png")
            Image.fromarray(np.zeros((ny, nx, 3), np.uint8)).save(p, format="JPEG")
            ls[k]["filename_list"].append(p)
        elif kind == "size":
            size = [nx + c.i(0, 1), ny + 1]
        elif kind == "swap":
            from PIL import Image
            p = os.path.join(folder, "swap.png")
            Image.fromarray(np.zeros((ny, nx + 1, 4), np.uint8), "RGBA").save(p)
            ls[k]["filename_list"].append(p)
        else:
            t = c.pick(list(colors))
            colors[t] = [{"color3": [255, 0, 0], "color5": [255, 0, 0, 255, 0], "color1": [255]}[kind]]
        c.note(kind=kind, size=size, colors=colors)
        raises("lib_mesher.mesher_png", "get_mesh", {"d": [1., 1., 1.], "c": [0., 0., 0.], "size": size}, colors, ls)
    finally:
        shutil.rmtree(folder)
