from rt.common import *  # noqa
from rt import gen

MODS = "lib_mesher.voxel_integrity"


def _dom(c, n, k=None):
    nv = n[0] * n[1] * n[2]
    return {t: np.array(v, dtype=np.int64) for t, v in gen.domains(c, nv, k=k or c.i(1, 5)).items()}


def _groups(c, dom):
    tags = list(dom)
    if c.p(0.4):
        m = c.i(1, min(4, len(tags)))
        return [[tags[int(j)]] for j in c.rng.permutation(len(tags))[:m]]
    return [[c.pick(tags) for _ in range(c.i(1, 2))] for _ in range(c.i(1, 4))]


def _gset(dom, groups):
    out = []
    for g in groups:
        s = set(int(v) for t in g for v in dom[t])
        if s:
            out.append(s)
    return out


def _ok_connected(n, dom, rule, comps):
    gs = _gset(dom, rule["domain_group"])
    if rule["connected"]:
        return any(all(cmp & g for g in gs) for cmp in comps)
    return all(sum(1 for g in gs if cmp & g) <= 1 for cmp in comps)


def _touch(n, a, b):
    return bool(a & b) or any(gen.neighbours(n, u, v) for u in a for v in b)


def _ok_adjacent(n, dom, rule):
    gs = _gset(dom, rule["domain_group"])
    m = [[_touch(n, a, b) for b in gs] for a in gs]
    if rule["connected"]:
        return any(all(r) for r in m)
    return not any(m[i][j] for i in range(len(gs)) for j in range(len(gs)) if i != j)


def _grid(c, m=4):
    n, d, ctr = gen.grid(c, m)
    if c.p(0.3):
        n = [c.i(3, 9), 1, 1]
        n = [n[int(j)] for j in c.rng.permutation(3)]
    return n, d, ctr


@contract("voxel_integrity.get_integrity", "components are the face-connected classes of the used voxels", 120)
def comps(c):
    n, d, ctr = _grid(c)
    dom = _dom(c, n)
    c.note(n=n, domain_def=dom)
    used = [int(v) for a in dom.values() for v in a]
    c.nontrivial = len(used) > 1
    g = call(MODS, "get_integrity", n, freeze(dom), {"domain_connected": {}, "domain_adjacent": {}})
    got = [tuple(sorted(int(v) for v in a)) for a in g]
    need(sorted(got) == sorted(tuple(sorted(s)) for s in gen.components(n, used)), "components", got)


def _slabs(c):
    """domains which are slabs (or columns) along one axis"""
    ax = c.i(0, 2)
    n = [c.i(1, 2) for _ in range(3)]
    n[ax] = c.i(2, 5)
    nv = n[0] * n[1] * n[2]
    crd = gen.coord(n, np.arange(nv))
    names = ["s%d" % j for j in c.rng.permutation(n[ax])]
    gap = c.i(0, n[ax]) if c.p(0.3) else -1
    dom = {}
    for k in c.rng.permutation(n[ax]):
        v = [w for w in range(nv) if crd[w][ax] == k]
        if k == gap:
            v = []
        dom[names[k]] = np.array(v, dtype=np.int64)
    return n, dom


def _rule_case(c, kind, connected):
    if c.p(0.4):
        n, dom = _slabs(c)
    else:
        n, d, ctr = _grid(c, 3)
        dom = _dom(c, n, c.i(2, 5))
    used = [int(v) for a in dom.values() for v in a]
    if not used:
        dom[list(dom)[0]] = np.array([0])
        used = [0]
    rules = {"r%d" % k: {"domain_group": _groups(c, dom), "connected": connected if c.p(0.8) else not connected} for k in range(c.i(1, 2))}
    c.note(n=n, domain_def=dom, kind=kind, rules=rules)
    comps = gen.components(n, used)
    if kind == "connected":
        ok = all(_ok_connected(n, dom, r, comps) for r in rules.values())
        dat = {"domain_connected": rules, "domain_adjacent": {}}
    else:
        ok = all(_ok_adjacent(n, dom, r) for r in rules.values() if _gset(dom, r["domain_group"]) or not r["connected"])
        if any(r["connected"] and not _gset(dom, r["domain_group"]) for r in rules.values()):
            return      # only empty groups: nothing is specified
        dat = {"domain_connected": {}, "domain_adjacent": rules}
    if ok:
        call(MODS, "get_integrity", n, freeze(dom), dat)
    else:
        raises(MODS, "get_integrity", n, freeze(dom), dat)


@contract("voxel_integrity.get_integrity", "required connection rules", 150)
def req_conn(c):
    _rule_case(c, "connected", True)


@contract("voxel_integrity.get_integrity", "forbidden connection rules", 150)
def forb_conn(c):
    _rule_case(c, "connected", False)


@contract("voxel_integrity.get_integrity", "required adjacency rules", 150)
def req_adj(c):
    _rule_case(c, "adjacent", True)


@contract("voxel_integrity.get_integrity", "forbidden adjacency rules", 150)
def forb_adj(c):
    _rule_case(c, "adjacent", False)


@contract("voxel_integrity.get_integrity", "unknown domains are rejected", 40)
def unknown(c):
    n, d, ctr = _grid(c, 3)
    dom = _dom(c, n)
    g = _groups(c, dom)
    c.pick(g).append("unknown")
    kind = c.pick(["domain_connected", "domain_adjacent"])
    dat = {"domain_connected": {}, "domain_adjacent": {}}
    dat[kind] = {"r": {"domain_group": g, "connected": c.p()}}
    c.note(n=n, domain_def=dom, data=dat)
    raises(MODS, "get_integrity", n, dom, dat)


@contract("run.mesher.run", "components and rules of the returned mesh", 40)
def whole(c):
    n, d, ctr = _grid(c, 3)
    dom = {t: [int(x) for x in v] for t, v in _dom(c, n, c.i(2, 4)).items()}
    if not any(dom.values()):
        dom[list(dom)[0]] = [0]
    conn = {"r": {"domain_group": _groups(c, dom), "connected": c.p()}}
    adj = {"r": {"domain_group": _groups(c, dom), "connected": c.p()}}
    red = c.p(0.3)
    c.note(n=n, domain_index=dom, connected=conn, adjacent=adj, reduce=red)
    if not _gset(dom, adj["r"]["domain_group"]) or not _gset(dom, conn["r"]["domain_group"]):
        return
    comps = gen.components(n, [v for a in dom.values() for v in a])
    ok = _ok_connected(n, dom, conn["r"], comps) and _ok_adjacent(n, dom, adj["r"])
    g = gen.data_geometry(n, d, ctr, dom, connected=conn, adjacent=adj, reduce=red)
    if not ok:
        raises("run.mesher", "run", g)
        return
    r = call("run.mesher", "run", g)["data_geom"]
    used = [int(v) for a in r["domain_def"].values() for v in a]
    need(sorted(tuple(sorted(map(int, a))) for a in r["graph_def"]) == sorted(tuple(sorted(s)) for s in gen.components(r["n"], used)), "components of the mesh")
