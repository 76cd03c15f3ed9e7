from rt.common import *  # noqa
from rt import gen


def _desc(c, bad):
    n, d, ctr = gen.grid(c)
    nv = n[0] * n[1] * n[2]
    dom = gen.domains(c, nv, overlap=True)
    if bad == "dup":
        t = c.pick(list(dom))
        base = dom[t] or [c.i(0, nv - 1)]
        dom[t] = base + [c.pick(base)]
        dom[t] = [dom[t][j] for j in c.rng.permutation(len(dom[t]))]
    elif bad in ("neg", "high"):
        t = c.pick(list(dom))
        v = -c.i(1, 3) if bad == "neg" else nv + c.pick([0, 0, 1, nv])
        dom[t].insert(c.i(0, len(dom[t])), v)
    if c.p(0.3):
        dom = {t: np.array(v, dtype=np.int64) for t, v in dom.items()}
    return n, d, ctr, dom


@contract("mesher_voxel.get_mesh", "valid indices are taken over exactly, in order", 150)
def accept(c):
    n, d, ctr, dom = _desc(c, None)
    c.note(n=n, d=d, c=ctr, domain_index=dom)
    snap = freeze(dom)
    rn, rd, rc, rdom, ref = call("lib_mesher.mesher_voxel", "get_mesh", {"n": n, "d": d, "c": ctr}, dom)
    same(rn, n, "grid size")
    same(rd, d, "voxel size")
    same(rc, ctr, "grid centre")
    need(list(rdom) == list(snap), "domain names", list(rdom), list(snap))
    for t in snap:
        same(rdom[t], np.array(snap[t], dtype=np.int64), "indices of domain " + t)
        need(np.asarray(rdom[t]).dtype.kind == "i", "integer indices")
    need(equal_data(snap, dom), "input modified")


@contract("mesher_voxel.get_mesh", "duplicate or out of range indices are rejected", 150)
def reject(c):
    bad = c.pick(["dup", "neg", "high"])
    n, d, ctr, dom = _desc(c, bad)
    c.note(n=n, d=d, c=ctr, domain_index=dom, bad=bad)
    raises("lib_mesher.mesher_voxel", "get_mesh", {"n": n, "d": d, "c": ctr}, dom)


@contract("run.mesher.run", "an index geometry reaches the mesh unchanged", 25)
def whole(c):
    n, d, ctr = gen.grid(c)
    nv = n[0] * n[1] * n[2]
    dom = gen.domains(c, nv, empty=False) if nv >= 4 else {"a": [int(v) for v in c.subset(nv, 1)]}
    c.note(n=n, d=d, c=ctr, domain_index=dom)
    g = gen.data_geometry(n, d, ctr, dom)
    r = call("run.mesher", "run", g)["data_geom"]
    same(r["n"], n, "grid size")
    same(r["d"], d, "voxel size")
    same(r["c"], ctr, "grid centre")
    need(list(r["domain_def"]) == list(dom), "domain names")
    for t in dom:
        same(r["domain_def"][t], dom[t], "indices of domain " + t)


@contract("run.mesher.run", "an invalid index geometry yields an error", 25)
def whole_bad(c):
    bad = c.pick(["dup", "neg", "high"])
    n, d, ctr, dom = _desc(c, bad)
    c.note(n=n, d=d, c=ctr, domain_index=dom, bad=bad)
    raises("run.mesher", "run", gen.data_geometry(n, d, ctr, {t: [int(x) for x in v] for t, v in dom.items()}))
