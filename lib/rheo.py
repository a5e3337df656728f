"""Reference of the constitutive law: series creep mechanisms, elasticity, Mohr-Coulomb (visco)plasticity, transverse isotropy, phase mixing.
All quantities are those of the program's own units; nothing here follows the program's iterations."""
import numpy as np
from scipy.special import erfc

RGAS = 8.314510
ZEROC = 273.15


def conv(t, n):
    """from uniaxial (1) or simple-shear (2) experiments to invariants"""
    t = int(t)
    return 1.0 if t == 0 else 2.0 ** (1 / n) * 3.0 ** ((n - 1) / (2 * n)) / 6 if t == 1 else 2.0 ** (1 / n) / 4


def huet(m, p, X, R, T):
    """mixture of the dislocation creep of two phases (Huet et al., 2014); returns log C, n"""
    q = int(m["reac_phase"][p])
    n1, n2, A1, A2, Q1, Q2 = (float(m[k][i]) for k in ("npwl", "Apwl", "Qpwl") for i in (p, q))
    f1, f2 = 1 - X, X
    w1, w2 = f1 * (n2 + 1), f2 * (n1 + 1)
    w = w1 + w2
    n, Q = (w1 * n1 + w2 * n2) / w, (w1 * Q1 + w2 * Q2) / w
    lA = (w1 * np.log(A1) + w2 * np.log(A2)) / w - n * np.log(f1 * n1 / (n1 + 1) + f2 * n2 / (n2 + 1)) + w1 * n1 / w * np.log(n1 / (n1 + 1)) + w2 * n2 / w * np.log(n2 / (n2 + 1))
    t = int(m["tpwl"][p])
    F = np.ones_like(n) if t == 0 else 2.0 ** (1 / n) * 3.0 ** ((n - 1) / (2 * n)) / 6 if t == 1 else 2.0 ** (1 / n) / 4
    return lA - Q / (R * T) - n * np.log(2 * F * float(m["pref_pwl"][p])), n


def creep(m, p, T, P, d, phi, X, R, Tpei, opt):
    """active mechanisms of a phase: name -> (log C, n), strain rate = C * stress^n (n may vary in space)"""
    g = lambda k: float(m[k][p])
    r = {}
    one = np.ones_like(T)
    lg = lambda a: np.log(a) if a > 0 else 0.0
    def law(s, pref=1.0):
        n, A = g("n" + s), g("A" + s)
        F = conv(g("t" + s), n) if g(s[0:3] + "v") >= 0 else 1.0
        ld = np.where(d > 0, np.log(np.maximum(d, 1e-300)), 0.0)
        return np.log(A) - (g("Q" + s) + P * g("V" + s)) / (R * T) - g("m" + s) * ld + g("r" + s) * lg(g("f" + s)) + g("a" + s) * phi - n * np.log(2 * F * pref), n * one
    if g("cstv"):
        e = g("eta0") * one
        if opt["mix"] and g("phase_mix"):
            e2 = float(m["eta0"][int(g("phase_two"))])
            e1 = g("eta0")
            e = (X * e1 + (1 - X) * e2, 1 / (X / e1 + (1 - X) / e2), np.exp(X * np.log(e1) + (1 - X) * np.log(e2)))[opt["mixavg"]]
        r["cst"] = (-np.log(2 * e), one)
    if g("pwlv"):
        r["pwl"] = law("pwl", g("pref_pwl"))
    if g("linv"):
        r["lin"] = law("lin")
    if g("gbsv") and not opt["ani"]:
        r["gbs"] = law("gbs")
    if g("expv"):
        Q, S, E, ga, q = g("Qexp"), g("Sexp"), g("Eexp"), g("Gexp"), g("nexp")
        ST = Q / (R * T) * 2 * ga * (1 - ga)
        n = ST + q
        # strain rate = E exp(-Q/RT (1-g)^2) (sigma/(g S))^ST sigma^q in uniaxial compression
        lF = ((1 - ST - q) * np.log(2.0) - (ST + q + 1) * 0.5 * np.log(3.0)) / n
        lB = lF + (ST * np.log(ga * S) - np.log(E) + Q / (R * T) * (1 - ga) ** 2) / n
        on = T < Tpei
        r["exp"] = (np.where(on, -n * (np.log(2.0) + lB), -np.inf), np.where(on, n, 1.0))
    return r


def solve(E, terms):
    """stress at which the strain rates C*stress^n add up to E"""
    la = np.array([t[0] for t in terms]); n = np.array([t[1] for t in terms])
    lE = np.log(E)
    with np.errstate(all="ignore"):
        y = np.where(np.isfinite(la), (lE - la) / n, np.inf).min(axis=0)      # stiffest bound
        for _ in range(60):
            q = la + n * y
            mx = q.max(axis=0)
            w = np.exp(q - mx)
            s = w.sum(axis=0)
            f = mx + np.log(s) - lE
            dy = f / ((w * n).sum(axis=0) / s)
            y = y - dy
            if not np.nanmax(np.abs(dy)) > 1e-15:
                break
    return np.exp(y)


@np.errstate(all="ignore")
def node(m, p, q, opt):
    """one phase at many nodes. q: dict of arrays (E: effective strain-rate invariant, T P d phi X G fric coh dil K P0); returns a dict of arrays"""
    T = np.maximum(q["T"], ZEROC / opt["sT"])
    R, dt = opt["R"], opt["dt"]
    g = lambda k: float(m[k][p])
    E = np.maximum(q["E"], 1e-30 / opt["sE"]) if not opt["ani"] else q["E"]
    X = q["X"]
    if opt["prod"] and g("reac_soft") and not opt["ani"]:
        X = (q["X"] * g("tau_kin") + dt * (1 - 0.5 * erfc((q["P"] - g("Pr")) / g("dPr")))) / (dt + g("tau_kin"))
    # temperature limit of low-temperature plasticity uses the actual temperature
    mech = creep(m, p, T, q["P"], q["d"], q["phi"], q["X"], R, (1200 + ZEROC) / opt["sT"], opt)
    if "pwl" in mech and opt["prod"] and g("reac_soft") and not opt["ani"]:
        mech["pwl"] = huet(m, p, X, R, T)
    terms = dict(mech)
    if opt["el"]:
        terms["el"] = (-np.log(2 * q["G"] * dt), np.ones_like(T))
    Tii = solve(E, list(terms.values()))
    ve = Tii / (2 * E)
    r = dict(X=X, ve=ve)
    for k, (la, n) in mech.items():
        r["e_" + k] = np.exp(la + n * np.log(Tii))
    # yield
    gd, Pc, Tc, dp, tens = np.zeros_like(T), q["P"].copy(), Tii.copy(), np.zeros_like(T), np.zeros(T.shape, bool)
    sd = np.sin(q["dil"]) if opt["el"] else np.zeros_like(T)
    if g("plast"):
        c, sf, K = q["coh"] * np.cos(q["fric"]), np.sin(q["fric"]), q["K"]
        lim = g("Slim") < c + q["P"] * sf
        c, sf = np.where(lim, g("Slim"), c), np.where(lim, 0.0, sf)
        F = Tii - c - q["P"] * sf
        on = F > 1e-17
        ev, nv = g("eta_vp"), g("n_vp")
        b = ve + K * dt * sd * sf
        if opt["ani"] or nv == 1:
            gd = F / (b + ev)
        else:                                                   # b g + ev g^(1/n) = F, by Newton in log g on a concave function from the left
            with np.errstate(all="ignore"):
                h = np.log(np.minimum(F / b, (F / ev) ** nv)) - 1
                for _ in range(200):
                    a1, a2 = b * np.exp(h), ev * np.exp(h / nv)
                    st = (np.log(F) - np.log(a1 + a2)) / ((a1 + a2 / nv) / (a1 + a2))
                    h = h + st
                    if not np.nanmax(np.abs(np.where(on, st, 0))) > 1e-15:
                        break
                gd = np.exp(h)
        gd = np.where(on, gd, 0.0)
        Tc = Tii - ve * gd
        Pc = q["P"] + K * dt * sd * gd
        tens = on & (Tc < 0)
        tm = 1e5 / opt["sS"]
        gd = np.where(tens, (Tii - tm) / ve, gd)
        Tc = np.where(tens, tm, Tc)
        Pc = np.where(tens, q["P"], Pc)
        dp = np.where(tens, 0.0, gd * sd)
        r["over"] = gd * (ev * np.where(on, np.maximum(gd, 1e-300), 1.0) ** (1 / nv - 1) if not opt["ani"] else ev)
        r["over"] = np.where(tens, np.nan, r["over"])
        r["on"] = on
    else:
        r["over"], r["on"] = np.zeros_like(T), np.zeros(T.shape, bool)
    r.update(gdot=gd, P=Pc, T=Tc, div_pl=dp, tens=tens)
    r["bad"] = (np.abs(np.array([t[0] for t in terms.values()])).max(axis=0) > 550) | (r["on"] & (np.abs(Tii) > 1e7 * np.abs(Tc)))   # beyond what double precision can resolve
    r["bad"] |= r["on"] & (np.abs(Tii) < 1e-12)
    W = sum(2 * Tc * r["e_" + k] * Tc / Tii for k in mech) + Tc * gd
    r["W"] = W
    with np.errstate(all="ignore"):
        vep = np.where(r["on"], Tc / (2 * E), ve)
        phys = Tc ** 2 / W
    r["raw"] = vep
    vep = np.clip(vep, opt["emin"], opt["emax"])
    phys = np.clip(phys, opt["emin"], opt["emax"])
    r["eta"], r["phys"] = vep, phys
    return r


def amat(a, d1, d2):
    """transverse isotropy: T = 2 eta D E for E = (xx, zz, xz)"""
    o = np.ones_like(d1)
    return np.array([[o - a * d1, a * d1, -2 * a * d2], [a * d1, o - a * d1, 2 * a * d2], [-a * d2, a * d2, 2 * (a * (d1 - 0.5) + 0.5)]])
