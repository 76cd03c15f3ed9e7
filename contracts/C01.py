"""Index-defined geometries are taken over exactly or rejected."""
from contracts.common import *  # noqa

M = "pypeec.lib_mesher.mesher_voxel"


@spec("mesher_voxel.get_mesh", [M + ":get_mesh"])
def get_mesh(v):
    n, d, c = grid(v), size(v), point(v)
    dom = Domains(v, lists=v.branch(v.bool("lists_given"), "index lists"))
    r = v.call(M, "get_mesh", {"n": PList(n), "d": PList(d), "c": PList(c)}, dom.dict)
    nv = prod(n)
    good = b_and(dom.all(lambda x: b_and(s_cmp("<=", 0, x), s_cmp("<", x, nv))), dom.unique())
    if v.raised:
        v.prove("an error is raised only for repeated or invalid indices", b_not(good))
        return
    v.prove("repeated and invalid indices are rejected", good)
    rn, rd, rc, rdom, ref = r
    for nm, a, b in (("grid size", rn, n), ("voxel size", rd, d), ("grid centre", rc, c)):
        v.prove("the %s is the given one" % nm, b_and(len(a) == 3, *[s_eq(x, y) for x, y in zip(a, b)]))
    same_domains(v, "domains", rdom, dom)


@spec("run.mesher._run_voxel", ["pypeec.run.mesher:_run_voxel", "pypeec.run.mesher:_run_mesher", M + ":get_mesh"])
def run_voxel(v):
    n, d, c = grid(v), size(v), point(v)
    dom = Domains(v)
    geom = {"mesh_type": "voxel", "data_voxelize": {"param": {"n": PList(n), "d": PList(d), "c": PList(c)}, "domain_index": dom.dict}}
    r = v.call("pypeec.run.mesher", "_run_mesher", geom)
    good = b_and(dom.all(lambda x: b_and(s_cmp("<=", 0, x), s_cmp("<", x, prod(n)))), dom.unique())
    if v.raised:
        v.prove("an error is raised only for repeated or invalid indices", b_not(good))
        return
    v.prove("repeated and invalid indices are rejected", good)
    ref, di = r
    for nm, a, b in (("n", di["n"], n), ("d", di["d"], d), ("c", di["c"], c)):
        v.prove("%s reaches the next step" % nm, b_and(len(a) == 3, *[s_eq(x, y) for x, y in zip(a, b)]))
    same_domains(v, "domains", di["domain_def"], dom)


from contracts.wiring import dispatch_spec  # noqa: E402
dispatch_spec("voxel")
