"""The symmetry group of the discrete problem: reflections x -> -x and z -> -z, exchange of the axes, and, for periodic models, translation by
whole cells; acting on scenario inputs (Job) and on observed states (snapshots)."""
import copy
import numpy as np
from scipy.spatial import cKDTree

PW = {"mx": dict(W="E", E="W", NE="NW", NW="NE", SE="SW", SW="SE"), "mz": dict(N="S", S="N", NE="SE", SE="NE", NW="SW", SW="NW"),
      "tr": dict(W="S", S="W", E="N", N="E", NW="SE", SE="NW")}
ODD_F = {"mx": ("Txz", "Vx", "Fxz", "Fzx", "angle"), "mz": ("Txz", "Vz", "Fxz", "Fzx", "angle"), "tr": ()}
SWAP_F = {"Txx": "Tzz", "Tzz": "Txx", "Vx": "Vz", "Vz": "Vx", "Fxx": "Fzz", "Fzz": "Fxx", "Fxz": "Fzx", "Fzx": "Fxz"}


def tjob(j, t):
    """apply symmetry t to the input of a job"""
    m = j.model
    g = m.get
    if t == "mx":
        m.update(xmin=-m["xmax"], xmax=-m["xmin"], gx=-g("gx", 0.0))
        if "therm_perturb_x0" in m: m["therm_perturb_x0"] *= -1
        if g("shear_style") == 1 or (g("shear_style") == 2): m["bkg_strain_rate"] = -m["bkg_strain_rate"]
        if j.topo is not None: j.topo = list(j.topo)[::-1]
    elif t == "mz":
        m.update(zmin=-m["zmax"], zmax=-m["zmin"], gz=-g("gz", 0.0))
        if "therm_perturb_z0" in m: m["therm_perturb_z0"] *= -1
        if g("shear_style") == 1: m["bkg_strain_rate"] = -m["bkg_strain_rate"]
    elif t == "tr":
        def sw(a, b, d=0.0):
            if a in m or b in m: m[a], m[b] = g(b, d), g(a, d)
        sw("xmin", "zmin"); sw("xmax", "zmax"); sw("Nx", "Nz"); sw("Nx_part", "Nz_part"); sw("gx", "gz"); sw("therm_perturb_x0", "therm_perturb_z0"); sw("therm_perturb_rad_x", "therm_perturb_rad_z")
        m["bkg_strain_rate"] = -m["bkg_strain_rate"]
    fl = {}
    for n, s in j.fields.items():
        n2 = SWAP_F.get(n, n) if t == "tr" else n
        sg = -1.0 if n in ODD_F[t] else 1.0
        if s[0] == "lin":
            a, b, c = s[1:]
            v = dict(mx=(a, -b, c), mz=(a, b, -c), tr=(a, c, b))[t]
            if n == "angle" and t == "tr":
                v = (np.pi / 2 - v[0], -v[1], -v[2])
            fl[n2] = ("lin",) + tuple(sg * q for q in v)
        else:
            a = np.asarray(s[1], float)
            a = dict(mx=a[:, ::-1], mz=a[::-1], tr=a.T)[t] * sg
            fl[n2] = (s[0], a.tolist())
    j.fields = fl
    P = PW[t]
    for q in ("bct", "bcc", "bcp"):
        setattr(j, q, {P.get(k, k): v for k, v in getattr(j, q).items()})
    def bc(d, odd):
        o = {}
        for k, s in d.items():
            s = tuple(s) + (0.0,) * (4 - len(s))
            v = dict(mx=(s[1], -s[2], s[3]), mz=(s[1], s[2], -s[3]), tr=(s[1], s[3], s[2]))[t]
            o[P.get(k, k)] = (s[0],) + tuple((-1.0 if odd else 1.0) * q for q in v)
        return o
    vx, vz = bc(j.bcvx, t == "mx"), bc(j.bcvz, t == "mz")
    j.bcvx, j.bcvz = (vz, vx) if t == "tr" else (vx, vz)
    for p in j.phases:
        if "aniso_angle" in p:
            p["aniso_angle"] = 90.0 - p["aniso_angle"] if t == "tr" else 180.0 - p["aniso_angle"]
    return j


U, W = {"u_in"}, {"v_in"}
VERT = {"sxz", "exz", "wxz", "sxz0"}
ODD_M = {"sxz", "sxz_n", "sxz0", "exz", "exz_n", "d2_n", "d2_s"}
SWAP_M = {"exxd": "ezzd", "exxd_s": "ezzd_s", "sxxd": "szzd", "sxxd0": "szzd0"}
SWAP_M.update({v: k for k, v in SWAP_M.items()})
ODD_K = {"sxz", "Fxz", "Fzx"}


def tsnap(s, t, names):
    """the image of snapshot s under t, restricted to the observed names; marker arrays keep the order of s"""
    nx, nz = int(s["p.Nx"][0]), int(s["p.Nz"][0])
    o = dict(s)

    def grid(a, sh):
        a = a.reshape(sh)
        return (a[:, ::-1] if t == "mx" else a[::-1] if t == "mz" else a.T).ravel()
    for k in names:
        if k not in s or not k.startswith("m."):
            continue
        n = k[2:]
        sz = s[k].size
        if n in U or n == "BCu.type": sh = (nz + 1, nx)
        elif n in W or n == "BCv.type": sh = (nz, nx + 1)
        elif n in VERT or n.endswith("_s") or n == "BCg.type" or n.startswith("phase_perc_s"): sh = (nz, nx)
        elif n == "BCt_fine.type": continue
        else: sh = (nz - 1, nx - 1)
        a = s[k]
        if t == "tr":
            n2 = SWAP_M.get(n, {"u_in": "v_in", "v_in": "u_in", "BCu.type": "BCv.type", "BCv.type": "BCu.type"}.get(n, n))
            v = grid(a, sh)
            if n in ("wxz", "wxz_n", "d2_n", "d2_s"): v = -v
            o["m." + n2] = v
        else:
            v = grid(a, sh)
            if n in ODD_M or n in ("wxz", "wxz_n") or (t == "mx" and n in U) or (t == "mz" and n in W): v = -v
            o[k] = v
    K = {k[2:]: s[k] for k in s if k.startswith("k.")}
    if t in ("mx", "mz"):
        od = {"mx": {"x", "x0", "Vx"}, "mz": {"z", "z0", "Vz"}}[t] | ODD_K
        for n in od:
            if n in K: o["k." + n] = -K[n]
        if "nx" in K:
            o["k.nx"] = -K["nx"]
    else:
        for a, b in (("x", "z"), ("x0", "z0"), ("Vx", "Vz"), ("sxxd", "szzd"), ("Fxx", "Fzz"), ("Fxz", "Fzx"), ("nx", "nz")):
            if a in K and b in K: o["k." + a], o["k." + b] = K[b], K[a]
    if "k.nx" in o:      # a director has no sign
        pass
    if t == "mx":
        o["p.xmin"], o["p.xmax"] = -s["p.xmax"], -s["p.xmin"]
    if t == "mz":
        o["p.zmin"], o["p.zmax"] = -s["p.zmax"], -s["p.zmin"]
    if t == "tr":
        for a, b in (("xmin", "zmin"), ("xmax", "zmax"), ("dx", "dz")): o["p." + a], o["p." + b] = s["p." + b], s["p." + a]
    for k in s:
        if k.startswith("ts."):
            n = k[3:]
            if t in ("mx", "mz") and n in ("sxz_mean_time", "exz_mean_time"): o[k] = -s[k]
            if t == "tr" and n in ("sxxd_mean_time", "exxd_mean_time"):
                p = k.replace("xxd", "zzd")
                o[k], o[p] = s[p], s[k]
    if "t.height" in s and t == "mx":
        for k in ("t.height", "t.height_finer_c"):
            if k in s: o[k] = s[k][::-1]
        for k in ("t.vx",):
            if k in s: o[k] = -s[k][::-1]
        for k in ("t.vz",):
            if k in s: o[k] = s[k][::-1]
        if "tc.x" in s:
            for k in [k for k in s if k.startswith("tc.") and k != "tc.N"]:
                o[k] = -s[k] if k in ("tc.x", "tc.Vx", "tc.x0") else s[k]
    return o


def match(a, b, pre="k.", tol=1e-6):
    """reorder the markers of snapshot b so that they correspond to those of a (nearest position); returns (b', error text or None)"""
    if pre + "x" not in a:
        return b, None
    pa, pb = (np.c_[s[pre + "x"], s[pre + "z"]] for s in (a, b))
    la, lb = (s[pre + "phase"] != -1 if pre + "phase" in s else np.ones(len(s[pre + "x"]), bool) for s in (a, b))
    L = max(float(a["p.xmax"][0] - a["p.xmin"][0]), float(a["p.zmax"][0] - a["p.zmin"][0]))
    if la.sum() != lb.sum():
        return b, "%d markers instead of %d" % (lb.sum(), la.sum())
    ib = np.flatnonzero(lb)
    d, i = cKDTree(pb[lb]).query(pa[la])
    if len(d) and d.max() > tol * L:
        k = int(np.argmax(d))
        return b, "no marker at the image of a marker position (off by %.1e of the box)" % (d.max() / L)
    if len(set(i.tolist())) != len(i):
        return b, "markers do not correspond one to one"
    o = dict(b)
    n = len(pb)
    for k in b:
        if k.startswith(pre) and k != pre + "N" and b[k].size == n:
            o[k] = b[k][ib[i]]
    return o, None
