"""Independent reference for the field problem (written from the documentation, no code of /repo).

Every quantity is evaluated from its definition: the interaction coefficients by Gauss quadrature of
the potential of a uniformly charged box, the faces by enumeration, the equations as one dense system.
"""
import numpy as np
from rt import gen

MU0 = 1.25663706127e-06          # CODATA 2022 (scipy.constants.mu_0, relative tolerance used: 1e-7)
_G = {}


def gauss(q):
    if q not in _G:
        _G[q] = np.polynomial.legendre.leggauss(q)
    return _G[q]


def box_potential(x, y, z, hx, hy, hz):
    """integral of 1/distance over the box |u|<hx, |v|<hy, |w|<hz seen from the points (x,y,z)"""
    out = np.zeros(np.shape(x))
    for sx in (+1, -1):
        for sy in (+1, -1):
            for sz in (+1, -1):
                X, Y, Z = x + sx * hx, y + sy * hy, z + sz * hz
                r = np.sqrt(X * X + Y * Y + Z * Z)
                with np.errstate(all="ignore"):
                    # x + r is evaluated without cancellation
                    lx = np.log(np.where(X >= 0, X + r, (Y * Y + Z * Z) / (r - X)))
                    ly = np.log(np.where(Y >= 0, Y + r, (X * X + Z * Z) / (r - Y)))
                    lz = np.log(np.where(Z >= 0, Z + r, (X * X + Y * Y) / (r - Z)))
                    t = np.nan_to_num(Y * Z * lx, posinf=0, neginf=0, nan=0) + np.nan_to_num(X * Z * ly, posinf=0, neginf=0, nan=0) + np.nan_to_num(X * Y * lz, posinf=0, neginf=0, nan=0)
                    t = t - np.nan_to_num(X * X * np.arctan(Y * Z / (X * r)) / 2, nan=0)
                    t = t - np.nan_to_num(Y * Y * np.arctan(X * Z / (Y * r)) / 2, nan=0)
                    t = t - np.nan_to_num(Z * Z * np.arctan(X * Y / (Z * r)) / 2, nan=0)
                out = out + sx * sy * sz * t
    return out


def green6(d, idx, q=12):
    """1/(4 pi) times the sixfold integral of 1/distance over two voxels with index difference idx"""
    g, w = gauss(q)
    dx, dy, dz = d
    x, y, z = np.meshgrid(idx[0] * dx + g * dx / 2, idx[1] * dy + g * dy / 2, idx[2] * dz + g * dz / 2, indexing="ij")
    W = w[:, None, None] * w[None, :, None] * w[None, None, :] * dx * dy * dz / 8
    return float(np.sum(W * box_potential(x, y, z, dx / 2, dy / 2, dz / 2)) / (4 * np.pi))


def green5(d, pos, axis, q=16):
    """1/(4 pi) times the integral over a voxel (at the origin) and a face normal to the axis (centre pos, in cells)"""
    g, w = gauss(q)
    p = []
    W = 1.0
    for a in range(3):
        if a == axis:
            p.append(np.array([pos[a] * d[a]]))
        else:
            p.append(pos[a] * d[a] + g * d[a] / 2)
            sh = [1, 1, 1]
            sh[a] = q
            W = W * w.reshape(sh) * d[a] / 2
    x, y, z = np.meshgrid(*p, indexing="ij")
    return float(np.sum(W * box_potential(x, y, z, d[0] / 2, d[1] / 2, d[2] / 2)) / (4 * np.pi))


def areas(d):
    return [d[1] * d[2], d[0] * d[2], d[0] * d[1]]


class Coeff:
    """cache of the coefficients of one grid"""

    def __init__(self, d):
        self.d = tuple(d)
        self.m = {}
        self.k = {}

    def mutual(self, diff):
        key = tuple(abs(int(v)) for v in diff)
        if key not in self.m:
            self.m[key] = green6(self.d, key)
        return self.m[key]

    def couple(self, a, b, diff):
        """interaction of a direction-a element with a direction-b element (a != b); diff = out - in"""
        if a == b:
            return 0.0
        c = 3 - a - b
        key = (c,) + tuple(abs(int(v)) for v in diff)
        if key not in self.k:
            p = np.array(key[1:], dtype=float)
            e = np.zeros(3)
            e[c] = 0.5
            self.k[key] = 0.0 if key[1 + c] == 0 else green5(self.d, p - e, c) - green5(self.d, p + e, c)
        A = areas(self.d)
        eps = 1 if (a, b) in ((0, 1), (1, 2), (2, 0)) else -1
        sgn = 1 if diff[c] >= 0 else -1
        return eps * sgn * self.k[key] / (A[a] * A[b])


def system(case):
    """dense equations of the documented problem; returns the pieces and the solution"""
    n, d, ctr = case["n"], case["d"], case["c"]
    dx, dy, dz = d
    vol = dx * dy * dz
    A = areas(d)
    ln = [dx, dy, dz]
    f = case["freq"]
    s = 2j * np.pi * f
    sp = spec_geometry(case)
    ic, im = sp["idx_vc"], sp["idx_vm"]
    fc, fm = gen.faces(n, ic), gen.faces(n, im)
    rc, rm = spec_resistivity(case)
    co = case.setdefault("coeff", Coeff(d))
    pc = {v: k for k, v in enumerate(ic)}
    pm = {v: k for k, v in enumerate(im)}
    xyz = {v: np.array(p) for v, p in zip(list(ic) + list(im), gen.coord(n, list(ic) + list(im)))}

    def inc(faces, pos):
        M = np.zeros((len(pos), len(faces)))
        for k, (a, lo, hi) in enumerate(faces):
            M[pos[lo], k] = 1
            M[pos[hi], k] = -1
        return M
    Ac, Am = inc(fc, pc), inc(fm, pm)
    Rc = np.array([(rc[pc[lo], a] + rc[pc[hi], a]) / 2 * ln[a] / A[a] for a, lo, hi in fc], dtype=complex).reshape(-1)
    Rm = np.array([(rm[pm[lo], a] + rm[pm[hi], a]) / 2 * ln[a] / A[a] for a, lo, hi in fm], dtype=complex).reshape(-1)
    L = np.zeros((len(fc), len(fc)))
    for i, (a, lo, _) in enumerate(fc):
        for j, (b, lo2, _) in enumerate(fc):
            if a == b:
                L[i, j] = MU0 * co.mutual(xyz[lo] - xyz[lo2]) / A[a] ** 2
    P = np.array([[co.mutual(xyz[v] - xyz[w]) / (MU0 * vol ** 2) for w in im] for v in im], dtype=float).reshape(len(im), len(im))
    K = np.zeros((len(fc), len(fm)))
    for i, (a, lo, hi) in enumerate(fc):
        for j, (b, lo2, hi2) in enumerate(fm):
            if a != b:
                K[i, j] = sum(co.couple(a, b, xyz[v] - xyz[w]) for v in (lo, hi) for w in (lo2, hi2)) / 4
    src = spec_sources(case)          # list of (voxel, kind, value, element, source name), current sources first
    nfc, nvc, nsr, nfm, nvm = len(fc), len(ic), len(src), len(fm), len(im)
    N = nfc + nvc + nsr + nfm + nvm
    o = np.cumsum([0, nfc, nvc, nsr, nfm, nvm])
    M = np.zeros((N, N), dtype=complex)
    b = np.zeros(N, dtype=complex)
    F, V, S, H, U = [slice(o[k], o[k + 1]) for k in range(5)]
    M[F, F] = np.diag(Rc) + s * L
    M[F, V] = -Ac.T
    M[F, H] = s * K
    M[V, F] = Ac
    for k, (v, kind, val, el, _) in enumerate(src):
        M[o[1] + pc[v], o[2] + k] = -1
        if kind == "current":
            M[o[2] + k, o[2] + k] = 1
            M[o[2] + k, o[1] + pc[v]] = el
        else:
            M[o[2] + k, o[1] + pc[v]] = 1
            M[o[2] + k, o[2] + k] = el
        b[o[2] + k] = val
    M[H, H] = np.diag(Rm)
    M[H, U] = -Am.T
    M[H, F] = -K.T
    M[U, U] = np.eye(nvm)
    M[U, H] = P @ Am
    return {"M": M, "b": b, "slices": (F, V, S, H, U), "fc": fc, "fm": fm, "ic": ic, "im": im, "Ac": Ac, "Am": Am, "Rc": Rc, "Rm": Rm,
            "L": L, "P": P, "K": K, "src": src, "n_c": nfc + nvc + nsr}


def spec_geometry(case):
    """voxels of the materials and sources, from the definition of the problem"""
    dom = case["domains"]

    def vox(lst):
        out = []
        for t in lst:
            out += [int(v) for v in dom[t]]
        return out
    out = {"idx_vc": [], "idx_vm": [], "idx_src_c": [], "idx_src_v": [], "material": {}, "source": {}}
    for t, m in case["material_def"].items():
        v = vox(m["domain_list"])
        out["material"][t] = v
        if m["material_type"] in ("electric", "electromagnetic"):
            out["idx_vc"] += v
        if m["material_type"] in ("magnetic", "electromagnetic"):
            out["idx_vm"] += v
    for t, m in case["source_def"].items():
        v = vox(m["domain_list"])
        out["source"][t] = v
        out["idx_src_c" if m["source_type"] == "current" else "idx_src_v"] += v
    return out


def expand_material(val, n, var_type, orientation):
    val = np.array(val, dtype=float)
    out = np.zeros((n, 3))
    for k in range(n):
        for a in range(3):
            if var_type == "lumped":
                out[k, a] = val if orientation == "isotropic" else val[a]
            else:
                out[k, a] = val[k] if orientation == "isotropic" else val[k][a]
    return out


def spec_resistivity(case, material_def=None, material_val=None):
    mdef = material_def or case["material_def"]
    mval = material_val or case["material_val"]
    sp = spec_geometry(case)
    rc, rm = [np.zeros((0, 3), complex)], [np.zeros((0, 3), complex)]
    for t, m in mdef.items():
        k = len(sp["material"][t])
        if m["material_type"] in ("electric", "electromagnetic"):
            e = [expand_material(mval[t][u], k, m["var_type"], m["orientation_type"]) for u in ("rho_re", "rho_im")]
            rc.append(e[0] + 1j * e[1])
        if m["material_type"] in ("magnetic", "electromagnetic"):
            e = [expand_material(mval[t][u], k, m["var_type"], m["orientation_type"]) for u in ("chi_re", "chi_im")]
            rm.append(1 / (MU0 * (e[0] - 1j * e[1])))
    return np.concatenate(rc), np.concatenate(rm)


def spec_sources(case):
    sp = spec_geometry(case)
    out = []
    for kind, A, B in (("current", "I", "Y"), ("voltage", "V", "Z")):
        for t, m in case["source_def"].items():
            if m["source_type"] != kind:
                continue
            v = sp["source"][t]
            x = case["source_val"][t]
            a = np.array(x[A + "_re"], dtype=float) + 1j * np.array(x[A + "_im"], dtype=float)
            b = np.array(x[B + "_re"], dtype=float) + 1j * np.array(x[B + "_im"], dtype=float)
            for k, w in enumerate(v):
                if m["var_type"] == "lumped":
                    if kind == "current":
                        out.append((w, kind, a / len(v), b / len(v), t))
                    else:
                        out.append((w, kind, a, b * len(v), t))
                else:
                    out.append((w, kind, a[k], b[k], t))
    return out


def solve(case):
    """reference solution and all derived quantities"""
    y = system(case)
    M, b = y["M"], y["b"]
    x = np.linalg.solve(M, b)
    F, V, S, H, U = y["slices"]
    y["x"] = x
    y.update(derived(case, y, x[F], x[V], x[S], x[H], x[U]))
    return y


def derived(case, y, If, Vc, Is, Im, Vm):
    d, f = case["d"], case["freq"]
    s = 2j * np.pi * f
    A = areas(d)
    vol = d[0] * d[1] * d[2]
    fl = 1.0 if f == 0 else 0.5
    fe = 0.5 if f == 0 else 0.25
    o = {}
    Pf = np.array([(fl * np.conj(i) * r * i).real for i, r in zip(If, y["Rc"])], dtype=float)
    Pm = np.array([(fl * np.conj(s * i) * r * i).real for i, r in zip(Im, y["Rm"])], dtype=float)
    o["Pf"], o["Pm"] = Pf, Pm
    o["W_electric"] = float(np.sum((fe * np.conj(If) * (y["L"] @ If)).real))
    o["W_magnetic"] = float(np.sum((fe * np.conj(If) * (y["K"] @ Im)).real)) if len(Im) and len(If) else 0.0
    o["Wf"] = (fe * np.conj(If) * (y["L"] @ If)).real
    o["Wm"] = (fe * np.conj(If) * (y["K"] @ Im)).real if len(Im) else np.zeros(len(If))

    def half(idx, faces, val):
        out = np.zeros(len(idx), dtype=np.asarray(val).dtype)
        pos = {v: k for k, v in enumerate(idx)}
        for (a, lo, hi), w in zip(faces, val):
            out[pos[lo]] += w / 2
            out[pos[hi]] += w / 2
        return out

    def vec(idx, faces, val):
        out = np.zeros((len(idx), 3), complex)
        pos = {v: k for k, v in enumerate(idx)}
        for (a, lo, hi), w in zip(faces, val):
            out[pos[lo], a] += w / 2 / A[a]
            out[pos[hi], a] += w / 2 / A[a]
        return out

    def div(idx, faces, val):
        out = np.zeros(len(idx), complex)
        pos = {v: k for k, v in enumerate(idx)}
        for (a, lo, hi), w in zip(faces, val):
            out[pos[lo]] += w
            out[pos[hi]] -= w
        return out
    o["half"], o["vec"], o["div"] = half, vec, div
    o["Pvc"] = half(y["ic"], y["fc"], Pf)
    o["Pvm"] = half(y["im"], y["fm"], Pm)
    o["var"] = {"V_c": Vc, "P_c": o["Pvc"] / vol, "S_c": div(y["ic"], y["fc"], If) / vol, "J_c": vec(y["ic"], y["fc"], If),
                "V_m": Vm, "P_m": o["Pvm"] / vol, "Q_m": div(y["im"], y["fm"], Im) / vol, "B_m": vec(y["im"], y["fm"], Im)}
    sp = spec_geometry(case)
    pc = {v: k for k, v in enumerate(y["ic"])}
    pm = {v: k for k, v in enumerate(y["im"])}
    o["material"] = {}
    for t, v in sp["material"].items():
        pe = sum(o["Pvc"][pc[w]] for w in v if w in pc)
        pg = sum(o["Pvm"][pm[w]] for w in v if w in pm)
        # a voxel belongs to one material only
        ty = case["material_def"][t]["material_type"]
        o["material"][t] = {"P_electric": pe if ty != "magnetic" else 0.0, "P_magnetic": pg if ty != "electric" else 0.0}
        o["material"][t]["P_total"] = o["material"][t]["P_electric"] + o["material"][t]["P_magnetic"]
    o["source"] = {}
    S_tot = 0
    for t, v in sp["source"].items():
        vv = [Vc[pc[w]] for w in v]
        ii = [Is[k] for w in v for k, q in enumerate(y["src"]) if q[0] == w and q[4] == t]
        S = sum(fl * p * np.conj(q) for p, q in zip(vv, ii))
        o["source"][t] = {"V": np.mean(vv) if vv else 0.0, "I": sum(ii), "S": S}
        S_tot += S
    o["S_total"] = S_tot
    return o


def biot_savart(pts, src, mom):
    out = np.zeros((len(pts), 3), complex)
    for k, p in enumerate(pts):
        for q, m in zip(src, mom):
            r = np.asarray(p) - np.asarray(q)
            l = np.sqrt(r @ r)
            out[k] += np.array([m[1] * r[2] - m[2] * r[1], m[2] * r[0] - m[0] * r[2], m[0] * r[1] - m[1] * r[0]]) / (4 * np.pi * l ** 3)
    return out


def charge_field(pts, src, qv):
    out = np.zeros((len(pts), 3), complex)
    for k, p in enumerate(pts):
        for x, w in zip(src, qv):
            r = np.asarray(x) - np.asarray(p)
            l = np.sqrt(r @ r)
            out[k] += w * r / (4 * np.pi * MU0 * l ** 3)
    return out
