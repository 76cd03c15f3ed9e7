from rt.common import *  # noqa
from rt import gen

MODS = "lib_mesher.voxel_conflict"


def _dom(c, nv, k=None):
    return {t: np.array(v, dtype=np.int64) for t, v in gen.domains(c, nv, k=k or c.i(2, 5), overlap=True).items()}


def _conf(rules=(), use=False, rand=False):
    return {"resolve_rules": use, "resolve_random": rand, "conflict_rules": list(rules)}


def _spec_rules(dom, rules):
    dom = {t: list(map(int, v)) for t, v in dom.items()}
    for r in rules:
        for k in r["domain_keep"]:
            keep = set(dom[k])
            for t in r["domain_resolve"]:
                dom[t] = [v for v in dom[t] if v not in keep]
    return dom


def _unique(dom):
    v = [int(x) for a in dom.values() for x in a]
    return len(set(v)) == len(v)


def _rules(c, dom):
    tags = list(dom)
    rules = []
    for _ in range(c.i(1, 4)):
        perm = [tags[int(j)] for j in c.rng.permutation(len(tags))]
        a = c.i(1, len(tags) - 1)
        b = c.i(a + 1, len(tags))
        rules.append({"domain_resolve": perm[:a], "domain_keep": perm[a:b]})
    return rules


@contract("voxel_conflict.get_conflict", "rules remove exactly the kept voxels; error iff a voxel stays shared", 200)
def rules(c):
    nv = c.i(2, 12)
    dom = _dom(c, nv)
    rl = _rules(c, dom)
    c.note(domain_def=dom, rules=rl)
    spec = _spec_rules(dom, rl)
    if _unique(spec):
        out = call(MODS, "get_conflict", freeze(dom), _conf(rl, True))
        need(list(out) == list(dom), "domain names")
        for t in dom:
            same(np.sort(out[t]), np.array(sorted(spec[t]), dtype=np.int64), "domain " + t)
    else:
        c.nontrivial = True
        raises(MODS, "get_conflict", freeze(dom), _conf(rl, True))


@contract("voxel_conflict.get_conflict", "resolved overlaps of a full rule set", 100)
def full_rules(c):
    nv = c.i(2, 15)
    dom = _dom(c, nv)
    tags = [list(dom)[int(j)] for j in c.rng.permutation(len(dom))]
    rl = [{"domain_keep": [tags[i]], "domain_resolve": tags[i + 1:]} for i in range(len(tags) - 1)]
    if c.p():
        rl = [rl[int(j)] for j in c.rng.permutation(len(rl))]
    c.note(domain_def=dom, rules=rl)
    spec = _spec_rules(dom, rl)
    assert _unique(spec)
    out = call(MODS, "get_conflict", freeze(dom), _conf(rl, True, c.p(0.3)))
    for t in dom:
        same(np.sort(out[t]), np.array(sorted(spec[t]), dtype=np.int64), "domain " + t)


@contract("voxel_conflict.get_conflict", "random resolution gives each used voxel to exactly one former owner", 150)
def rand(c):
    nv = c.i(2, 15)
    dom = _dom(c, nv)
    c.note(domain_def=dom)
    out = call(MODS, "get_conflict", freeze(dom), _conf((), False, True))
    need(list(out) == list(dom), "domain names")
    for v in range(nv):
        had = [t for t in dom if v in set(map(int, dom[t]))]
        has = [t for t in dom for x in out[t] if int(x) == v]
        if had:
            need(len(has) == 1 and has[0] in had, "voxel %d owned by %s, before %s" % (v, has, had))
        else:
            need(not has, "new voxel %d" % v)


@contract("voxel_conflict.get_conflict", "without resolution: unchanged or rejected", 150)
def off(c):
    nv = c.i(2, 12)
    if c.p():
        dom = {t: np.array(v, dtype=np.int64) for t, v in gen.domains(c, nv).items()}
    else:
        dom = _dom(c, nv)
    if c.p(0.2):
        t = c.pick(list(dom))
        if len(dom[t]):
            dom[t] = np.append(dom[t], dom[t][c.i(0, len(dom[t]) - 1)])
    rl = _rules(c, dom) if len(dom) > 1 else []
    c.note(domain_def=dom)
    if _unique(dom):
        out = call(MODS, "get_conflict", freeze(dom), _conf(rl))
        need(list(out) == list(dom), "domain names")
        for t in dom:
            same(out[t], dom[t], "domain " + t)
    else:
        raises(MODS, "get_conflict", freeze(dom), _conf(rl))


@contract("voxel_conflict.get_conflict", "unknown domains in rules are rejected", 40)
def unknown(c):
    nv = c.i(4, 12)
    dom = {t: np.array(v, dtype=np.int64) for t, v in gen.domains(c, nv, k=3).items()}
    rl = _rules(c, dom)
    r = c.pick(rl)
    r[c.pick(["domain_keep", "domain_resolve"])].insert(0, "unknown")
    c.note(domain_def=dom, rules=rl)
    raises(MODS, "get_conflict", dom, _conf(rl, True))


@contract("run.mesher.run", "no shared voxel survives the mesher", 40)
def whole(c):
    n, d, ctr = gen.grid(c, 3)
    nv = n[0] * n[1] * n[2]
    dom = {t: [int(x) for x in v] for t, v in gen.domains(c, nv, k=c.i(2, 4), overlap=True, empty=False).items()}
    mode = c.pick(["off", "rules", "random", "both"])
    rl = _rules(c, dom)
    c.note(n=n, domain_index=dom, mode=mode, rules=rl)
    use = mode in ("rules", "both")
    rnd = mode in ("random", "both")
    spec = _spec_rules(dom, rl) if use else dom
    g = gen.data_geometry(n, d, ctr, dom, rules=rl, use_rules=use, rand=rnd)
    if rnd or _unique(spec):
        r = call("run.mesher", "run", g)["data_geom"]["domain_def"]
        need(_unique(r), "shared voxel in the mesh")
        need(set(int(x) for a in r.values() for x in a) == set(x for a in spec.values() for x in a), "used voxels")
        for t in dom:
            need(set(map(int, r[t])) <= set(spec[t]), "voxel in a wrong domain")
    else:
        raises("run.mesher", "run", g)


@contract("run.mesher.run", "overlaps created after meshing are detected on the resampled grid", 15)
def whole_resampled(c):
    n, d, ctr = gen.grid(c, 3)
    nv = n[0] * n[1] * n[2]
    v = c.i(0, nv - 1)
    dom = {"a": [v], "b": sorted(set([v, c.i(0, nv - 1)]))}
    f = [c.i(1, 2), c.i(1, 2), c.i(1, 2)]
    c.note(n=n, domain_index=dom, factor=f)
    raises("run.mesher", "run", gen.data_geometry(n, d, ctr, dom, resample=True, reduce=c.p(), factor=f))
