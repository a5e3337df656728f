"""The observable state of a model run: which arrays of a snapshot carry it, and the physical dimension of each (so that two runs in
different units can be compared, and round-off noise is judged against the right scale)."""
import numpy as np

# dimension group -> mesh fields
MESH = {
    "E": "div_u div_u_el div_u_pl div_u_r exxd ezzd exz exxd_s ezzd_s exz_n wxz wxz_n eII_el eII_pl eII_pwl eII_exp eII_lin eII_gbs eII_cst divth_n".split(),
    "S": "p_in p_corr sxxd szzd sxz sxz_n sxxd0 szzd0 sxz0 p0_n C_n C_s P_s OverS_n".split(),
    "eta": "eta_n eta_s eta_phys_n eta_phys_s".split(),
    "rho": "rho_n rho_s rho0_n".split(),
    "V": "u_in v_in".split(),
    "T": "T T0_n T_s".split(),
    "L": "d_n d0_n".split(),
    "1": "X_n X0_n phi_n strain_n strain_s fric_n fric_s dil_n dil_s aniso_factor_n aniso_factor_s d1_n d2_n d1_s d2_s FS_AR_n noise_n".split(),
    "W": "Wdiss Wel Wtot".split(),
}
PART = {
    "L": "x z x0 z0 d".split(),
    "V": "Vx Vz".split(),
    "S": "P sxxd szzd sxz P0 Pmax".split(),
    "T": "T T0 Tmax".split(),
    "1": "phi X strain strain_el strain_pl strain_pwl strain_exp strain_lin strain_gbs Fxx Fxz Fzx Fzz nx nz noise".split(),
    "rho": ["rho"],
    "E": ["divth"],
}
PINT = ["phase", "dual", "generation"]
MCHR = ["BCu.type", "BCv.type", "BCp.type", "BCg.type", "BCt.type", "BCt_fine.type"]
MODEL = {"L": "xmin xmax zmin zmax dx dz".split(), "t": "time dt dt0".split()}
TS = {"t": ["Time_time"], "1": ["Short_time"], "T": ["T_mean_time"], "S": "P_mean_time sxxd_mean_time szzd_mean_time sxz_mean_time Tii_mean_time".split(),
      "E": "exxd_mean_time ezzd_mean_time exz_mean_time Eii_mean_time".split()}


def dims(s):
    """SI value of one internal unit, per dimension group, from the snapshot's scaling record"""
    g = lambda k: float(s["s." + k][0])
    L, V, T, eta = g("L"), g("V"), g("T"), g("eta")
    t = L / V; E = 1.0 / t; S = eta / t
    rho = S / L ** 2 * t * t          # Pa s^2 m^-2 = kg m^-3
    return {"L": L, "V": V, "T": T, "eta": eta, "t": t, "E": E, "S": S, "rho": rho, "1": 1.0, "W": S * E, "G": L / t / t}


def observe(s, el=None, ts_si=False):
    """list of (name, group, array in SI) """
    el = int(s["p.elastic"][0]) if el is None else el
    d = dims(s)
    out = []
    for g, names in MESH.items():
        for n in names:
            k = "m." + n
            if k in s:
                out.append((k, g, s[k] * d[g]))
    for i in range(int(s["p.Nb_phases"][0])):
        for n in ("phase_perc_n%d" % i, "phase_perc_s%d" % i):
            if "m." + n in s:
                out.append(("m." + n, "1", s["m." + n]))
    for g, names in PART.items():
        for n in names:
            k = "k." + n
            if n in ("sxxd", "szzd", "sxz") and not el:
                continue
            if k in s:
                out.append((k, "p" + g, s[k] * d[g]))
    for g, names in MODEL.items():
        for n in names:
            out.append(("p." + n, g if g == "t" else "p" + g, s["p." + n] * d[g]))
    for g, names in TS.items():
        for n in names:
            if "ts." + n in s:
                out.append(("ts." + n, "ts" + g, s["ts." + n] * (1.0 if ts_si else d[g])))
    for pre in ("t.", "tc."):
        live = s["tc.phase"] != -1 if pre == "tc." and "tc.phase" in s else None    # surface markers out of the box wait for re-use
        for k in s:
            if k.startswith(pre):
                n = k[len(pre):]
                a = s[k]
                if live is not None and len(a) == len(live):
                    a = a[live]
                if a.dtype == np.int32:
                    out.append((k, "i", a.astype(float)))
                elif n in ("height", "height_finer_c", "x", "z"):
                    out.append((k, "pL", a * d["L"]))
                elif n in ("vx", "vz", "Vx", "Vz"):
                    out.append((k, "V", a * d["V"]))
    for n in PINT:
        if "k." + n in s:
            out.append(("k." + n, "i", s["k." + n].astype(float)))
    for n in MCHR:
        if "m." + n in s:
            out.append(("m." + n, "i", s["m." + n].astype(float)))
    return out


def compare(oa, ob, tol=1e-7, skip=(), slack=None):
    """compare two observation lists; returns [(name, relative difference)] of those that differ by more than tol, relative to the
    largest magnitude in the dimension group (rates against rates, stresses against stresses, ...)"""
    scale = {}
    for n, g, a in oa:
        m = float(np.max(np.abs(a[np.isfinite(a)]))) if a.size and np.isfinite(a).any() else 0.0
        scale[g] = max(scale.get(g, 0.0), m)
    db = {n: a for n, g, a in ob}
    bad = []
    for n, g, a in oa:
        if n in skip:
            continue
        b = db.get(n)
        if b is None or a.shape != b.shape:
            bad.append((n, float("inf"), "shape %s vs %s" % (a.shape, None if b is None else b.shape)))
            continue
        na, nb = np.isfinite(a), np.isfinite(b)
        if (na != nb).any():
            bad.append((n, float("inf"), "non-finite values differ"))
            continue
        if not a.size or not na.any():
            continue
        e = float(np.max(np.abs(a[na] - b[na])))
        if g == "i":
            if e > 0:
                bad.append((n, e, "discrete state differs at %d places" % int((a != b).sum())))
            continue
        # small scalars and O(1) quantities are judged on their own magnitude
        own = float(np.max(np.abs(a[na])))
        sc = own if g in ("eta", "1", "p1", "T", "rho") else scale[g]
        if g in ("1", "p1"):
            sc = max(own, 1e-12)
        t = tol * (slack or {}).get(n, 1.0)
        if e > t * sc and e > 0:
            bad.append((n, e / sc if sc else float("inf"), "max difference %.3e of %.3e" % (e, sc)))
    return bad
