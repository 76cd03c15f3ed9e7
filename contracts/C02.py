"""Layered images are stacked into the exact voxel set of their colours."""
from contracts.common import *  # noqa
from contracts.wiring import dispatch_spec
from vc import loops
from vc.values import PyRaise

M = "pypeec.lib_mesher.mesher_png"
ASSUMED = ["PIL: the RGBA conversion of an opened image is a matrix of height, width and four channels, the first row is the top of the image",
           "the channels of the colours are between 0 and 255 (checked by the format of the input)"]


def plane(v):
    return v.int("nx", lo=1), v.int("ny", lo=1)


# ------------------------------------------------------------------ images
class Image:
    """an opened image: any size, any content; number i of the list"""
    __vc_methods__ = ("convert",)

    def __init__(self, i, size, pixel):
        self.i, self.size, self.pixel = i, size, pixel
        self.rgba = False

    def convert(self, mode):
        if mode != "RGBA":
            raise Unsupported("conversion of an image")
        r = Image(self.i, self.size, self.pixel)
        r.rgba = True
        return r

    def vc_array(self):
        if not self.rgba:
            raise Unsupported("matrix of an image of an unknown kind")
        w, h = self.size
        i = self.i
        return Arr((Range(h(i)), Range(w(i)), Range(4)), lambda r, c, k: self.pixel(i, r, c, k), "int")


@spec("mesher_png._get_load_image", [M + ":_get_load_image"])
def load(v):
    n = v.int("n_file", lo=0)
    name = v.fun("file", 1)
    w, h, pixel, bad = v.fun("width", 1), v.fun("height", 1), v.fun("pixel", 4), v.fun("unreadable", 1, "bool")
    v.assume(A.forall(Range(n), lambda i: b_and(s_cmp(">=", w(name(i)), 1), s_cmp(">=", h(name(i)), 1))))

    def pil_open(path, formats=None):
        f = str_term(path)
        if formats is None or list(formats) != ["png"]:
            raise Unsupported("kinds of images")
        if v.c.truth(bad(f), "the file is not readable"):
            raise PyRaise(OSError, "image")
        return Image(f, (w, h), pixel)
    v.override("PIL.Image.open", pil_open)
    r = v.call(M, "_get_load_image", SList(Range(n), lambda i: SymStr(name(i))))
    some = A.exists(Range(n), lambda i: bad(name(i)))
    if v.raised:
        v.prove("an error is raised only for an unreadable image", some)
        return
    v.prove("an unreadable image is rejected", b_not(some))
    v.prove("one matrix per image", s_eq(A.ax_len(r.axis), n))
    for i in v.each(Range(n)):
        a = r.elem(A.pos_to_index(r.axis, i))
        f = name(i)
        v.prove("size of the matrix", b_and(a.ndim == 3, *[s_eq(A.ax_len(x), y) for x, y in zip(a.axes, (w(f), h(f), 4))]))
        for x, y in v.each([Range(w(f)), Range(h(f))]):
            for k in range(4):
                v.prove("column x and row y from the bottom of the image", s_eq(a.fn(x, y, k), pixel(f, s_sub(s_sub(h(f), 1), y), x, k)))


@spec("mesher_png._get_idx_image", [M + ":_get_idx_image"])
def match(v):
    (nx, ny), a, b, k = plane(v), v.int("w", lo=1), v.int("h", lo=1), v.int("channels", lo=1)
    px = v.fun("pixel", 3)
    img = v.array("img", (a, b, k), "int", px)
    m = v.int("n_color", lo=0)
    col = v.fun("color", 1)
    v.assume(A.forall(Range(m), lambda i: b_and(s_cmp("<=", 0, col(i)), s_cmp("<=", col(i), 255))))
    fits = b_and(s_eq(a, nx), s_eq(b, ny), s_eq(k, 4), s_eq(m, 4))
    r = v.call(M, "_get_idx_image", PList([nx, ny]), img, SList(Range(m), col))
    if v.raised:
        v.prove("an error is raised only for another size or another number of channels", b_not(fits))
        return
    v.prove("images of another size and colours without four components are rejected", fits)
    ax = r.axes[0]
    v.prove("a selection of the pixels", r.ndim == 1 and isinstance(ax, A.Sub) and isinstance(ax.base, A.Prod) and ax.base.order == "F")
    if not (isinstance(ax, A.Sub) and isinstance(ax.base, A.Prod)):
        return
    v.prove("of the whole image", b_and(*[s_eq(A.ax_len(x), y) for x, y in zip(ax.base.axs, (nx, ny))]))
    for x, y in v.each([Range(nx), Range(ny)]):
        u = (x, y)
        same = b_and(*[s_eq(px(x, y, j), col(j)) for j in range(4)])
        v.prove("a pixel is selected exactly if all of its channels are equal to the colour", s_eq(zbool(ax.mask(u)), zbool(same)))
        v.prove("number of a pixel", s_eq(r.fn(u), s_add(x, s_mul(nx, y))))


def radix(v, nx, ny, z1, u1, z2, u2):
    """a voxel number has one height and one pixel"""
    m = s_mul(nx, ny)
    w1, w2 = s_add(s_mul(z1, m), u1), s_add(s_mul(z2, m), u2)
    v.lemma("a voxel number has one height and one pixel", b_implies(s_eq(w1, w2), b_and(s_eq(z1, z2), s_eq(u1, u2))))


@spec("mesher_png._get_idx_voxel", [M + ":_get_idx_voxel"])
def voxels(v):
    nx, ny = plane(v)
    nz, layers, m = v.int("nz", lo=0), v.int("n_layer", lo=0), v.int("n_pixel", lo=0)
    img, f, where, has = selection(v, "idx_img", m, s_mul(nx, ny))
    r = v.call(M, "_get_idx_voxel", PList([nx, ny]), nz, layers, img)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    ax = r.axes[0]
    v.prove("integer indices", r.kind == "int")
    c = v.c
    # every pixel at every height is there
    for z, j in v.each([Range(layers), Range(m)]):
        want = s_add(s_mul(s_mul(s_add(nz, z), nx), ny), f(j))
        v.prove("every pixel is repeated at every height of the run", A.mem(r, want))
    # every entry is a pixel at a height of the run
    for p in v.each(ax):
        x = r.fn(p)
        v.prove("every voxel is a pixel at a height of the run", A.exists([Range(layers), Range(m)], lambda z, j: s_eq(x, s_add(s_mul(s_mul(s_add(nz, z), nx), ny), f(j)))))
    for p, q in v.each([ax, ax]):
        if isinstance(p, tuple):
            radix(v, nx, ny, s_add(nz, p[0]), f(p[1]), s_add(nz, q[0]), f(q[1]))
            v.prove("no voxel is listed twice", b_implies(s_eq(r.fn(p), r.fn(q)), b_and(s_eq(p[0], q[0]), s_eq(p[1], q[1]))))
        else:
            v.prove("no voxel is listed twice", b_implies(s_eq(r.fn(p), r.fn(q)), s_eq(p, q)))


def same_size(x, n):
    return len(x) == 2 and all(a is b or (is_z3(a) and a.eq(b)) for a, b in zip(x, n))


class Pick:
    """element of a list, known by its number"""

    def __init__(self, i):
        self.i = i


@spec("mesher_png._get_domain", [M + ":_get_domain"])
def domain(v):
    """with the contracts of _get_idx_image (matching pixels, in order) and of _get_idx_voxel (pixels at all heights)"""
    nx, ny = plane(v)
    nz, layers = v.int("nz", lo=0), v.int("n_layer", lo=0)
    nc, ni = v.int("n_color", lo=0), v.int("n_image", lo=0)
    hit, bad = v.fun("hit", 3, "bool"), v.fun("unfit", 2, "bool")
    seen, sizes = [], []
    size = PList([nx, ny])

    def match(s, img, color):
        sizes.append(s)
        if not isinstance(img, Pick) or not isinstance(color, Pick):
            raise Unsupported("use of the images")
        a, b = color.i, img.i
        if v.c.truth(bad(a, b), "the image or the colour does not fit"):
            raise PyRaise(RuntimeError, "image")
        # the numbers of the pixels which match, in ascending order
        return Arr((A.Sub(Range(s_mul(nx, ny)), lambda u: hit(a, b, u)),), lambda u: u, "int", lambda u: b_and(s_cmp("<=", 0, u), s_cmp("<", u, s_mul(nx, ny)), hit(a, b, u)))

    def lift(s, z, n, idx):
        seen.append((s, z, n, idx))
        return "result"
    v.override(M + ":_get_idx_image", match)
    v.override(M + ":_get_idx_voxel", lift)
    r = v.call(M, "_get_domain", size, nz, layers, SList(Range(nc), Pick), SList(Range(ni), Pick))
    some = A.exists([Range(nc), Range(ni)], lambda a, b: bad(a, b))
    if v.raised:
        v.prove("an error is raised only for an image or a colour which does not fit", some)
        return
    v.prove("an image or a colour which does not fit is rejected", b_not(some))
    v.prove("the pixels are lifted once", len(seen) == 1 and r == "result")
    s, z, n, idx = seen[0]
    v.prove("the pixels of the plane are compared", all(same_size(x, (nx, ny)) for x in sizes))
    v.prove("at the heights of the run", b_and(s_eq(z, nz), s_eq(n, layers), same_size(s, (nx, ny))))
    for u in v.each(Range(s_mul(nx, ny))):
        want = A.exists([Range(nc), Range(ni)], lambda a, b: hit(a, b, u))
        got = A.mem(idx, u)
        v.prove("the pixels which have a colour in some image", s_eq(zbool(got), zbool(want)))
    for j in v.each(idx.axes[0]):
        v.prove("only pixels of the plane", b_and(s_cmp("<=", 0, idx.fn(j)), s_cmp("<", idx.fn(j), s_mul(nx, ny))))
    for j, k in v.each([idx.axes[0]] * 2):
        v.prove("every pixel once", b_implies(s_eq(idx.fn(j), idx.fn(k)), s_eq(j, k)))


class Stack:
    """domains with any colours, and their voxels before the layer"""

    def __init__(self, v):
        self.v = v
        self.n = v.int("n_domain", lo=0)
        self.axis = Range(self.n)
        self.key = v.fun("key_domain", 1)
        v.assume(A.forall([self.axis, self.axis], lambda i, j: b_implies(s_eq(self.key(i), self.key(j)), s_eq(i, j))))
        self.colors = SDict(self.axis, lambda i: SymStr(self.key(i)), Pick, "domain_color")

    def arrays(self, n, at, name):
        """mapping from the names to arrays of n(i) entries"""
        return SDict(self.axis, lambda i: SymStr(self.key(i)), lambda i: Arr((Range(n(i)),), lambda j: at(i, j), "int"), name)


@spec("mesher_png._get_layer", [M + ":_get_layer"])
def layer(v):
    """with the contracts of _get_load_image and of _get_domain"""
    nx, ny = plane(v)
    nz, layers = v.int("nz", lo=0), v.int("n_layer", lo=0)
    st = Stack(v)
    old_n, old, new_n, new = v.fun("old_len", 1), v.fun("old", 2), v.fun("new_len", 1), v.fun("new", 2)
    v.assume(A.forall(st.axis, lambda i: b_and(s_cmp(">=", old_n(i), 0), s_cmp(">=", new_n(i), 0))))
    size, files, images = PList([nx, ny]), Opaque("files"), Opaque("images")
    loads, args = [], []

    def load(f):
        loads.append(f)
        return images

    def dom(s, z, n, color, imgs):
        args.append((s, z, n, imgs))
        if not isinstance(color, Pick):
            raise Unsupported("use of the colours")
        i = color.i
        return Arr((Range(new_n(i)),), lambda j: new(i, j), "int")
    v.override(M + ":_get_load_image", load)
    v.override(M + ":_get_domain", dom)
    r = v.call(M, "_get_layer", size, nz, st.colors, st.arrays(old_n, old, "domain_def"), layers, files)
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("the images of the entry are loaded", len(loads) == 1 and loads[0] is files)
    v.prove("the domains are found at the heights of the run, in the images of the entry", len(args) > 0 and all(same_size(a[0], (nx, ny)) and a[3] is images and same_size(a[1:3], (nz, layers)) for a in args))
    v.prove("the next entry starts above the run", s_eq(r[0], s_add(nz, layers)))
    v.prove("one entry per domain", isinstance(r[1], SDict) and A.ax_same(r[1].axis, st.axis) and not r[1].extra)
    for i in v.each(st.axis):
        v.prove("names in order", s_eq(str_term(r[1].key(i)), st.key(i)))
        rows(v, "voxels of the domain", r[1].val(i), [(old_n(i), lambda j: old(i, j), "the voxels of the entries below"), (new_n(i), lambda j: new(i, j), "the voxels of the entry")])


@spec("mesher_png.get_mesh", [M + ":get_mesh"])
def stack(v):
    """with the contract of _get_layer: the entries are added one after another"""
    nx, ny = plane(v)
    d, c = size(v), point(v)
    n = v.int("n_entry", lo=0)
    count, files = v.fun("n_layer", 1), v.fun("files", 1)
    st = Stack(v)
    # ghost state: start of the entry k, and the voxels of the entries below the entry k
    start, below_n, below = v.fun("start", 1), v.fun("below_len", 2), v.fun("below", 3)
    new_n, new = v.fun("new_len", 3), v.fun("new", 4)
    v.assume(s_eq(start(0), 0))
    v.assume(A.forall(st.axis, lambda i: s_eq(below_n(0, i), 0)))
    v.assume(A.forall([Range(n), st.axis], lambda k, i: b_and(s_cmp(">=", below_n(k, i), 0), s_cmp(">=", new_n(k, start(k), i), 0))))
    v.assume(A.forall(Range(n), lambda k: s_eq(start(s_add(k, 1)), s_add(start(k), count(k)))))
    v.assume(A.forall([Range(n), st.axis], lambda k, i: s_eq(below_n(s_add(k, 1), i), s_add(below_n(k, i), new_n(k, start(k), i)))))
    # the voxels below the entry k: those below the entry k - 1, then those of the entry k - 1
    k, i, j = v.c.ivar("k"), v.c.ivar("i"), v.c.ivar("j")
    q = k - 1
    v.assume(z3.ForAll([k, i, j], z3.Implies(k > 0, below(k, i, j) == z3.If(j < below_n(q, i), below(q, i, j), new(q, start(q), i, j - below_n(q, i)))), patterns=[below(k, i, j)]))

    def state(k):
        return st.arrays(lambda i: below_n(k, i), lambda i, j: below(k, i, j), "domain_def")
    cur = {}

    def layer(s, z, color, dom, n_layer, f):
        k = cur["k"]
        cur["calls"] += 1
        v.prove("the entry is added to the plane, for the given domains", same_size(s, (nx, ny)) and color is st.colors)
        v.prove("the entry starts above the entries below", s_eq(z, start(k)))
        v.prove("the number of layers and the images of the entry", b_and(s_eq(n_layer, count(k)), s_eq(f.i, files(k))))
        check(k, dom, "the voxels of the entries below are handed over")
        old = cur["state"]
        r = st.arrays(lambda i: s_add(below_n(k, i), new_n(k, z, i)), lambda i, j: s_ite(s_cmp("<", j, below_n(k, i)), below(k, i, j), new(k, z, i, s_sub(j, below_n(k, i)))), "domain_def")
        cur["next"] = r
        return s_add(z, n_layer), r

    def check(k, dom, clause):
        v.prove(clause, isinstance(dom, SDict) and A.ax_same(dom.axis, st.axis) and not dom.extra)
        for i in v.each(st.axis):
            v.prove(clause, s_eq(str_term(dom.key(i)), st.key(i)))
            v.equal_arr(clause, dom.val(i), [Range(below_n(k, i))], lambda j: below(k, i, j))

    def handler(ip, s, seq, fr):
        if not A.ax_same(seq.axis, Range(n)):
            return False
        v.prove("the first entry starts at the bottom", s_eq(fr.env["nz"], start(0)))
        check(0, fr.env["domain_def"], "there are no voxels at the start")

        def before(k):
            cur.update(k=k, calls=0, state=state(k))
            fr.env["nz"], fr.env["domain_def"] = start(k), cur["state"]

        def after(k):
            v.prove("every entry is added once", cur["calls"] == 1 and fr.env["domain_def"] is cur["next"])
            v.prove("the next entry starts above the entry", s_eq(fr.env["nz"], start(s_add(k, 1))))
            check(s_add(k, 1), fr.env["domain_def"], "the voxels of the entry follow those of the entries below")
        loops.by_invariant(ip, s, seq, fr, {"nz", "domain_def"}, before, after)
        cur["end"] = state(n)
        fr.env["nz"], fr.env["domain_def"] = start(n), cur["end"]
        return True
    v.loop(M + ":get_mesh", handler)
    v.override(M + ":_get_layer", layer)
    param = PDict({"d": PList(d), "c": PList(c), "size": PList([nx, ny])})
    r = v.call(M, "get_mesh", param, st.colors, SList(Range(n), lambda k: PDict({"n_layer": count(k), "filename_list": Pick(files(k))})))
    v.prove("no error", v.raised is None)
    if v.raised:
        return
    v.prove("every stack entry is added, in order", "end" in cur)
    if "end" not in cur:
        return
    v.prove("the grid is the plane with the height of all of the entries", b_and(len(r[0]) == 3, *[s_eq(a, b) for a, b in zip(r[0], (nx, ny, start(n)))]))
    for k, (a, b) in enumerate([(r[1], d), (r[2], c)]):
        v.prove("voxel size and centre are the given ones", b_and(*[s_eq(x, y) for x, y in zip(a, b)]))
    v.prove("the voxels of all of the entries", r[3] is cur["end"])
    v.prove("no reference geometry", r[4] is None)
    # the voxels at the end are those of the entries, and all of them
    i = v.c.ivar("i")
    v.c.hyp(A.in_axis(st.axis, i))

    e, j = v.c.ivar("e"), v.c.ivar("j")

    def found(k, x):
        return A.exists(Range(k), lambda e: A.exists(Range(new_n(e, start(e), i)), lambda j: s_eq(new(e, start(e), i, j), x)))
    v.c.hyp(s_cmp("<=", 0, j))
    v.induction("every voxel is a voxel of an entry", s_add(n, 1), lambda k: b_implies(s_cmp("<", j, below_n(k, i)), found(k, below(k, i, j))), lambda k: (s_sub(k, 1), k, j, s_sub(j, below_n(s_sub(k, 1), i))))
    v.c.hyp(b_and(A.in_axis(Range(n), e), A.in_axis(Range(new_n(e, start(e), i)), j)))
    at = s_add(below_n(e, i), j)
    v.induction("every voxel of an entry is there", s_add(n, 1), lambda k: b_implies(s_cmp("<", e, k), b_and(s_cmp("<", at, below_n(k, i)), s_eq(below(k, i, at), new(e, start(e), i, j)))), lambda k: (s_sub(k, 1), k, e))


dispatch_spec("png")
