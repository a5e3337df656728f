"""References of the equations of state, melting and strength of the phases; everything in the program's own units."""
import numpy as np
from scipy.special import erfc


def melt(model, P, T, phi0, tk, dt, sS, sT):
    """melt fraction of a phase: linear (model 1: strongly nonlinear) between solidus and liquidus, approached in the kinetic time"""
    model = int(model)
    if model <= 0:
        return np.zeros_like(T)
    p, t = P * sS / 1e6, T * sT                       # MPa, K
    with np.errstate(all="ignore"):
        if model == 1:
            s, l = 873.15 + 0 * p, 1473.15 + 0 * p
        elif model == 10:                             # dry continental crust
            s, l = np.where(p > 1600, 935 + 3.5e-3 * p + 6.2e-6 * p ** 2, 973 - 70400 / (p + 354) + 7.78e7 / (p + 354) ** 2), 1423 + 0.105 * p
        elif model == 11:                             # wet crust
            s, l = np.where(p > 1200, 831 + 0.06 * p, 889 - 17900 / (p + 54) + 20200 / (p + 54) ** 2), 1262 + 0.09 * p
        else:                                         # mantle
            s, l = np.where(p > 1e4, 2212 + 0.030819 * (p - 1e4), 1394 + 0.132899 * p - 5.014e-6 * p ** 2), 2073 + 0.114 * p
        s = np.minimum(s, l - 100)
        if model == 1:
            a = -0.1
            eq = np.expm1(a * (t - s)) / np.expm1(a * (l - s))
        else:
            a = 1e-7
            eq = np.expm1(a * (t - s)) / np.expm1(a * (l - s))
        w = 1 / (1 + tk / dt)
        phi = np.clip(w * eq + (1 - w) * phi0, 0, 1)
    return np.where((T > 1e-13) & (P > 1e-13), phi, 0.0)


LATENT = {1: 3.2e5, 10: 3.8e5, 11: 3.0e5, 40: 4.0e5, 41: 3.0e5}


def eos(m, p, T, P, X, phi, dv, table):
    """density of a phase"""
    g = lambda k: float(m[k][p])
    k = int(g("density_model"))
    r0, a, b = g("rho"), g("alp"), g("bet")
    if k == 0:
        return r0 + 0 * T
    if k == 1:
        return (r0 + X * g("drho")) * (1 - a * (T - g("T0"))) * (1 + b * (P - g("P0")))
    if k in (2, 4):
        return table(k, int(g("phase_diagram")) if k == 2 else 0, T, P)
    e = np.exp(b * P - a * T)
    if k == 3:
        return ((1 - X) * r0 + X * float(m["rho"][int(g("reac_phase"))]) if dv else r0) * e
    if k == 5:
        return (r0 + phi * g("drho")) * e
    raise KeyError(k)


def strength(m, p, e, smooth):
    """friction, dilation, cohesion of a phase after plastic strain e"""
    g = lambda k: float(m[k][p])
    out = []
    s0, s1 = g("pls_start"), g("pls_end")
    for n, f in (("phi", "phi_soft"), ("psi", "psi_soft"), ("C", "coh_soft")):
        v0, v1 = g(n), g(n + "_end")
        if g(f) != 1:
            w = np.ones_like(e)
        elif smooth:
            h = lambda x: 1 - 0.5 * erfc((0.5 * (s0 + s1) - x) / (s1 - s0))
            w = h(e) / h(0.0)
        else:
            w = 1 - np.clip((e - s0) / (s1 - s0), 0, 1)
        out.append(v1 + (v0 - v1) * w)
    return out
