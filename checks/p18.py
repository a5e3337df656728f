"""P18 equivalent descriptions: the same model written down differently gives the same result, and a process that has nothing to do changes nothing."""
import copy, itertools
from mc import *
from space import FEATURES, XFEATURES, make, chaotic
from diff import DiffCheck, report
import obs

NEVER = {"lin1", "wstep2", "x.anidbg", "x.surfdbg", "x.maps", "x.safe", "x.savem"}
SOFT = {"dilat", "densvar"}


def refine(lay, k):
    """every patch of the layout is cut into 2x2 patches that belong, in turn, to the material and to its copy"""
    n, m = len(lay), len(lay[0])
    return [[lay[j // 2][i // 2] + (k if (i + j) % 2 else 0) for i in range(2 * m)] for j in range(2 * n)]


def swapd(p, names):
    return {k: (1 - v if k in names and v in (0, 1) else v) for k, v in p.items()}


def t_dup(j):
    n = len(j.phases)
    j.phases = [dict(p) for p in j.phases] + [dict(p) for p in j.phases]
    for f in ("phase", "dual"):
        if f in j.fields:
            j.fields[f] = ("grid", refine(j.fields[f][1], n))


def m_dup(s):
    n = int(s["p.Nb_phases"][0]) // 2
    s["p.Nb_phases"] = s["p.Nb_phases"] * 0 + n
    for a in "ns":
        for i in range(n):
            x, y = "m.phase_perc_%s%d" % (a, i), "m.phase_perc_%s%d" % (a, i + n)
            if x in s:
                s[x] = s[x] + s.pop(y)
    for k in ("k.phase", "k.dual"):
        s[k] = np.where(s[k] >= n, s[k] - n, s[k])


def t_perm(j):
    j.phases = [swapd(p, ("reac_phase", "transmutation_phase", "phase_two")) for p in reversed(j.phases)]
    j.model.update(swapd({k: v for k, v in j.model.items() if k.startswith("surf_ised")}, ("surf_ised1", "surf_ised2")))
    for f in ("phase", "dual"):
        if f in j.fields:
            j.fields[f] = ("grid", [[1 - v for v in q] for q in j.fields[f][1]])


def m_perm(s):
    for a in "ns":
        x, y = "m.phase_perc_%s0" % a, "m.phase_perc_%s1" % a
        if x in s:
            s[x], s[y] = s[y], s[x]
    for k in ("k.phase", "k.dual"):
        s[k] = np.where(s[k] >= 0, 1 - s[k], s[k])


def both(j, **kw):
    for p in j.phases:
        p.update(kw)


def t_flip(j):
    for p in j.phases:
        p["aniso_angle"] = p["aniso_angle"] + 180.0
    if "angle" in j.fields:
        k = j.fields["angle"]
        j.fields["angle"] = (k[0], k[1] + np.pi) + tuple(k[2:])


def m_flip(s):
    for k in ("k.nx", "k.nz"):
        if k in s:
            s[k] = -s[k]


def uniform(j, T):
    j.fields["T"] = ("lin", T, 0.0, 0.0)
    j.bct = dict(N=(1, T), S=(1, T))
    j.model.update(shear_heating=0, adiab_heating=0)
    both(j, Qr=0.0)


def mod(j, **kw):
    j.model.update(kw)


KM = ("k.T0", "k.P0", "k.x0", "k.z0", "k.Tmax", "k.Pmax", "k.Fxx", "k.Fxz", "k.Fzx", "k.Fzz", "m.FS_AR_n", "m.FS_AR_s")
ANI = ("m.aniso_factor_n", "m.aniso_factor_s", "m.d1_n", "m.d2_n", "m.d1_s", "m.d2_s", "m.angle_n", "m.angle_s", "k.nx", "k.nz", "m.FS_AR_n", "m.FS_AR_s")
M = lambda j, n, d=0: j.model.get(n, d)
plas = lambda j: any(p.get("plast") for p in j.phases)
stress = lambda j: any(q[0] == 2 for d in (j.bcvx, j.bcvz) for q in (d or {}).values())
stepped = lambda j: j.topo is not None and max(j.topo) - min(j.topo) > 5e3
two = lambda j: not any("crazy" in e for e in j.extra) and len(j.phases) == 2 and j.fields["phase"][0] == "grid" and not j.topophase
const = lambda j: all(p.get("cstv", 0) == 1 and not any(p.get(k) for k in ("pwlv", "linv", "gbsv", "expv", "gs", "plast", "melt", "phase_mix")) for p in j.phases)
# name: (applies to, change of both, change of the second, map of the second's results, not compared)
T = {
    "dup": (two, None, t_dup, m_dup, ()),
    "perm": (two, None, t_perm, m_perm, ()),
    "flip": (lambda j: M(j, "anisotropy"), None, t_flip, m_flip, ()),
    "ani1": (lambda j: not M(j, "anisotropy") and not M(j, "chemical_production") and not M(j, "Picard2Newton") and not stress(j) and not any(p.get("gbsv") for p in j.phases) and not any(f[0] == "angle" for f in j.fields), lambda j: mod(j, finite_strain=1), lambda j: (mod(j, anisotropy=1), both(j, aniso_factor=1.0, ani_fstrain=0)), None, ANI),
    "rigid": (lambda j: M(j, "constant_dt", 1) and not M(j, "elastic") and not M(j, "preload"), None, lambda j: (mod(j, elastic=1), both(j, G=1e32)), None, ("m.sxxd0", "m.szzd0", "m.sxz0", "m.Wel", "m.eII_el")),
    "strong": (lambda j: not plas(j), None, lambda j: both(j, plast=1, C=1e90, phi=0.0), None, ()),
    "isoth": (lambda j: M(j, "surf_sedirate", None) is None and M(j, "surf_baselev", None) is None and not stepped(j) and not any(M(j, n) for n in ("fix_temperature", "initial_cooling", "therm_perturb", "subgrid_diffusion", "melting")) and not any("crazy" in e for e in j.extra), lambda j: (uniform(j, 1000.0), mod(j, thermal=0)),
              lambda j: mod(j, thermal=1), None, ()),
    "cold": (lambda j: not M(j, "melting") and not (M(j, "interp_stencil", 1) == 9 and (M(j, "fix_temperature") or M(j, "therm_perturb"))) and "phi" not in j.fields and not any("crazy" in e for e in j.extra), lambda j: uniform(j, 600.0), lambda j: (mod(j, melting=1), both(j, melt=1)), None, ()),
    "sp0": (lambda j: M(j, "free_surface") and not M(j, "surface_processes"), None, lambda j: mod(j, surface_processes=1, surf_diff=0.0), None, ()),
    "notr": (lambda j: not any(p.get("transmutation") for p in j.phases), None, lambda j: both(j, transmutation=1, transmutation_phase=1, transmutation_temperature=1e5), None, ()),
    "notr-": (lambda j: not any(p.get("transmutation") for p in j.phases), None, lambda j: both(j, transmutation=-1, transmutation_phase=0, transmutation_temperature=-1e5), None, ()),
    "noreac": (lambda j: not M(j, "melting") and not any(p.get("reac_soft") for p in j.phases), None, lambda j: j.phases[0].update(reac_soft=1, reac_phase=1, Pr=1e14, dPr=1e8, tau_kin=1e12), None, ()),
    "noise0": (lambda j: not M(j, "marker_noise"), lambda j: j.fields.pop("noise", None), lambda j: (mod(j, marker_noise=1), j.fields.update(noise=("lin", 0.0, 0.0, 0.0))), None, ()),
    "adiab0": (lambda j: not M(j, "melting") and not M(j, "adiab_heating"), lambda j: (mod(j, thermal=1), both(j, alp=0.0)), lambda j: mod(j, adiab_heating=1), None, ()),
    "adiab20": (lambda j: not M(j, "melting") and not M(j, "adiab_heating"), lambda j: (mod(j, thermal=1), both(j, alp=0.0)), lambda j: mod(j, adiab_heating=2), None, ()),
    "track": (lambda j: not M(j, "track_T_P_x_z") and not M(j, "finite_strain") and not M(j, "anisotropy"), None, lambda j: mod(j, track_T_P_x_z=1, finite_strain=1), None, KM),
    "oneeta1": (lambda j: const(j) and not M(j, "eta_average"), lambda j: both(j, eta0=3e21, G=1e10), lambda j: mod(j, eta_average=1), None, ()),
    "oneeta2": (lambda j: const(j) and not M(j, "eta_average"), lambda j: both(j, eta0=3e21, G=1e10), lambda j: mod(j, eta_average=2), None, ()),
    "rho0": (lambda j: all(p.get("density_model", 1) == 1 for p in j.phases) and not M(j, "compressible"), lambda j: both(j, alp=0.0, bet=1e-40), lambda j: both(j, density_model=0), None, ()),
    "nobal": (lambda j: True, None, lambda j: mod(j, user0=3.0, user5=-1.0), None, ("p.user0", "p.user5")),
}
SINGLE = [t for t in T if t not in ("nobal",)]


class CHECK(DiffCheck):
    pid = "P18"
    rule = ("scenario = a set of input switches (one or two) x an equivalent description (materials renumbered, doubled, director reversed, a factor of one, a process without anything to do); the real program is run on both "
            "descriptions and all fields, markers, surface, times and time series of every output must agree")
    assumptions = ["8x7 grid with cells of 9 x 10 km, two materials, 2 time steps", "tolerance 1e-6 of each dimension group"]

    def space(self, tier):
        r = []
        A = [f for f in list(FEATURES) + list(XFEATURES) if f not in NEVER]
        for f in A:
            for t in SINGLE:
                if self.applies([f], t):
                    r.append(dict(f=[f], t=t))
        P = [f for f in FEATURES if f not in NEVER]
        for n, (a, b) in enumerate(itertools.combinations(P, 2)):
            if chaotic((a, b)) or "polar" in (a, b) and {"surf", "surfstab", "surfdiff", "surfsed", "zerotopo"} & {a, b}:
                continue
            ts = [t for t in SINGLE if self.applies([a, b], t)]
            if tier == "quick":
                w = [t for t in ts if t not in ("dup", "perm")]
                ts = [t for t in ts if t == ("dup", "perm")[n % 2]] + [w[n % len(w)]] * bool(w)
            for t in ts:
                r.append(dict(f=[a, b], t=t))
        return r

    def mk(self, sc):
        j = make(sc["f"], model=dict(Nt=2, xmax=2.3e4))
        if M(j, "density_variations") or M(j, "chemical_production"):
            for p in j.phases:
                p.setdefault("reac_phase", 0)
        if plas(j) and not M(j, "anisotropy"):
            mod(j, Newton=1)
        return j

    def applies(self, f, t):
        return (t, f) != ("isoth", ["x.bals"]) and bool(T[t][0](make(f, model=dict(Nt=2))))

    def key(self, sc):
        return "+".join(sc["f"]) + "/" + sc["t"]

    def base(self, sc):
        j = self.mk(sc)
        a = T[sc["t"]][1]
        if a:
            a(j)
        return ("+".join(sc["f"]), sc["t"] if a else ""), j

    def other(self, sc):
        j = self.mk(sc)
        if T[sc["t"]][1]:
            T[sc["t"]][1](j)
        T[sc["t"]][2](j)
        return j

    def judge(self, sc, A, B, r):
        skip = set(T[sc["t"]][4])
        for x, y in zip(A, B):
            st = int(x["p.step"][0])
            if st and max(int(q["n.nit"][0]) / max(1, int(q["n.nit_max"][0])) for q in (x, y)) >= 1:
                r.note = "the nonlinear iterations do not converge"; return
            x, y = dict(x), dict(y)
            if T[sc["t"]][3]:
                T[sc["t"]][3](y)
            el = min(int(x["p.elastic"][0]), int(y["p.elastic"][0]))
            if sc["t"] == "isoth":
                for q in (x, y):    # cells above the surface
                    for n in ("m.rho_n", "m.T", "m.divth_n"):
                        if n in q:
                            q[n] = np.where((q["m.BCp.type"] >= 30) | (q["m.BCt.type"] == 30), 0.0, q[n])
            if not el:
                skip.add("m.Wel")
            if not el or not x["p.compressible"][0]:
                skip.add("m.div_u_el")
            for q in (x, y):
                if abs(q.get("k.divth", np.zeros(1))).max() < 1e-12:
                    q["k.divth"] = q["k.divth"] * 0
            if "dilat" in sc["f"]:
                skip |= {"ts.Short_time"}
            d = obs.compare(obs.observe(x, el), obs.observe(y, el), tol=1e-3 if SOFT & set(sc["f"]) else 1e-6, skip=skip)
            if d:
                report(r, st, d); return
