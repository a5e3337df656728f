"""P13 constitutive law: at every node, stress, viscosity and the partition of the strain rate are those of the flow laws of the phases present."""
import itertools
from mc import *
from space import FEATURES, XFEATURES, make, TOPO, STEP, HOT, LOOSE
from runner import Check, Res
from ref import G
import rheo, matref

GRIDS = ((8, 7), (6, 9))
MECHS = ("cst", "pwl", "lin", "exp", "gbs")
ON = dict(cst=dict(cstv=1), pwl=dict(pwlv=40), lin=dict(linv=40), exp=dict(expv=40), gbs=dict(gbsv=40))
PWL = (1, 10, 12, 13, 17, 22, 27, 30, 34, 40, 41, 42, -40, 2)
PL = {"": {}, "mc": dict(plast=1, C=2e7, phi=20.0, eta_vp=0.0), "vp": dict(plast=1, C=2e7, phi=20.0, eta_vp=3e20), "dil": dict(plast=1, C=2e7, phi=20.0, psi=8.0, eta_vp=0.0), "dilvp": dict(plast=1, C=2e7, phi=20.0, psi=8.0, eta_vp=3e20),
      "slim": dict(plast=1, C=2e7, phi=20.0, psi=8.0, eta_vp=1e20, Slim=4e7), "tens": dict(plast=1, C=1e6, phi=30.0, eta_vp=1e19)}
TF = {"warm": None, "hot": HOT}
FEW = ("base", "surf", "newton", "thermal", "simple", "reac", "x.mix1", "x.mix2", "x.step", "x.fields", "melt", "chem", "x.hotmelt", "x.astvol", "polar", "ale", "preload", "soft", "x.aniangle", "anifs", "comp", "elcomp", "crazy", "x.slim", "x.yield2", "x.ss2", "densvar")
EXTRA = {"": {}, "stiff": dict(eta0=1e26), "soft": dict(eta0=1e16)}


class CHECK(Check):
    pid = "P13"
    level = "exploration"
    rule = ("scenario = every non-empty set of flow laws per phase x elasticity x yield description x averaging of viscosities x isotropic or anisotropic medium x temperature field, flow laws of the data base, viscosity limits, and the option space; "
            "in every step of the real program the stress, viscosity, strain rates by mechanism, yield, pressure correction, volumetric strain rates, overstress and dissipation of every cell and vertex are compared with the constitutive law solved independently")
    assumptions = ["grids 8x7 and 6x9", "grain growth laws and kinetic density laws excluded", "tolerance 1e-6 of the local value (the local iterations of the program stop at 1e-9 or better)", "phase fractions, old stresses, temperature, pressure on the nodes as judged by P09"]

    def space(self, tier):
        r = []
        sets = [c for n in range(1, 6) for c in itertools.combinations(MECHS, n)]
        q = tier == "quick"
        for i, s in enumerate(sets):
            for el in (0, 1):
                for pl in PL:
                    for av in (0, 1, 2):
                        for an in (0, 1):
                            for t in TF:
                                if an and "gbs" in s or s == ("exp",) and t == "hot" or pl in ("dil", "dilvp") and not el:
                                    continue
                                if q and av and pl not in ("", "dilvp"):
                                    continue
                                if q and pl and t == "hot" and len(s) > 1:
                                    continue
                                if q and an and pl and len(s) > 2:
                                    continue
                                r.append(dict(m=list(s), el=el, pl=pl, av=av, an=an, t=t))
        for n in PWL:
            for el in (0, 1):
                for an in (0, 1):
                    for t in TF:
                        r.append(dict(db=n, el=el, an=an, t=t))
        for n in (15, 19, 25, 40, 41, -40):
            for t in TF:
                r.append(dict(lin=n, t=t))
        for n in (40, 41, -40):
            for t in TF:
                r.append(dict(gbs=n, t=t))
        for n in (25, 40):
            for t in TF:
                r.append(dict(exp=n, t=t))
        for a, b in itertools.product(EXTRA, repeat=2):
            for av in (0, 1, 2):
                for pl in ("", "mc"):
                    for an in (0, 1):
                        r.append(dict(lim=[a, b], av=av, pl=pl, an=an))
        A = [f for f in list(FEATURES) + list(XFEATURES)]
        for f in A:
            r.append(dict(f=[f]))
        for dm in itertools.product((1, 3), repeat=2):         # volume change by reaction, pressure and temperature
            for an in (0, 1):
                for av in (0, 2):
                    for pl in ("", "mc", "dil"):
                        for re in (0, 1):
                            r.append(dict(dv=list(dm), an=an, av=av, pl=pl, re=re))
        F = FEW if q else [f for f in FEATURES]
        for a, b in itertools.combinations(F, 2):
            r.append(dict(f=[a, b]))
        if not q:
            for f in FEATURES:
                for m in ("pwl", "lin", "exp"):
                    for pl in PL:
                        r.append(dict(f=[f], m=["cst", m], pl=pl))
        return r

    def key(self, sc):
        return "/".join("%s=%s" % (k, "+".join(map(str, v)) if isinstance(v, list) else v) for k, v in sorted(sc.items()))

    def job(self, sc):
        nx, nz = GRIDS[len(sc.get("m", [])) % 2]
        base = dict(Nt=2, Nx=nx, Nz=nz, xmax=2.3e4, nit_max=6, **LOOSE)
        if sc.get("pl"):
            base["compressible"] = 1
        if "dv" in sc:
            base.update(density_variations=1, elastic=1, compressible=1, chemical_production=sc["re"])
        both = {}
        if "m" in sc:
            both["cstv"] = 0
            for k in sc["m"]:
                both.update(ON[k])
        both.update(PL[sc.get("pl", "")])
        if sc.get("pl"):
            both["eta0"] = 5e22
        base.update({k: v for k, v in dict(elastic=sc.get("el"), eta_average=sc.get("av"), anisotropy=sc.get("an")).items() if v is not None})
        f = list(sc.get("f", ["base"]))
        kw = {}
        if sc.get("t") and TF[sc["t"]]:
            kw["fields"] = dict(T=("nodes", TF[sc["t"]]))
        if "f" in sc:
            for k in ("Nx", "Nz", "xmax"):
                base.pop(k)
            for k in LOOSE:
                base.pop(k, None)
        j = make(f, model=base, hooks=("rheo",), **kw)
        for i, p in enumerate(j.phases):
            p.update(both)
            if i and "m" in sc and sc["m"] == ["cst"]:
                p["eta0"] = 3e22
            if "db" in sc:
                p.update(cstv=0, pwlv=sc["db"])
                if abs(sc["db"]) == 1:
                    p.update(eta0=7.4e11, npwl=3.0, Qpwl=1e5)
                if sc["db"] == 2:
                    p.update(npwl=1.0, Qpwl=1e5, eps0=1e-15, tau0=1e8)
            for k in ("lin", "gbs", "exp"):
                if k in sc:
                    p.update({k + "v": sc[k]}, cstv=1 if k == "exp" else 0)
            if "dv" in sc:
                p.update(density_model=sc["dv"][i], drho=-150.0, bet=1.5e-11, alp=3e-5)
                if sc["re"] and not i:
                    p.update(reac_soft=1, reac_phase=1, Pr=5e8, dPr=2e8, tau_kin=1e12)
            if "lim" in sc:
                p.update(EXTRA[sc["lim"][i]])
        return j

    def evaluate(self, scs):
        return pmap(self._batch, scs, 30)

    def _batch(self, scs):
        jobs = [self.job(sc) for sc in scs]
        run_jobs(jobs)
        res = []
        for sc, j in zip(scs, jobs):
            r = Res(); res.append(r)
            S = j.snaps(None)
            if not j.ok():
                r.note = "run ends early: " + self.key(sc)
            for s in S:
                r.states += 1; r.trans += 1
                self.state(sc, s, r)
                if r.viol:
                    break
            if not S:
                r.note = "not observed: " + self.key(sc)
            j.clean()
        return res

    def kinematics(self, s, g, step, r):
        """strain rates are the gradients of the velocity; temperature, pressure and normal strain rates at a vertex are the means of the four cells around it"""
        pi = lambda n: int(s["p." + n][0])
        u, v = g.U("u_in"), g.W("v_in")
        dx, dz = g.dx, g.dz
        rock = ~g.air
        vact = s["m.BCg.type"].reshape(g.Nz, g.Nx) != 30
        ux, wz = np.diff(u[1:-1], axis=1) / dx, np.diff(v[:, 1:-1], axis=0) / dz
        div = (ux + wz) * (1.5 if pi("out_of_plane") else 1.0)
        exz = 0.5 * (np.diff(u, axis=0) / dz + np.diff(v, axis=1) / dx)
        c = pi("compressible") / 3.0
        sc = np.maximum(np.abs(u).max() / dx, np.abs(v).max() / dz) + 1e-300
        four = rock[:-1, :-1] & rock[1:, :-1] & rock[:-1, 1:] & rock[1:, 1:]
        mean = lambda a: 0.25 * (a[:-1, :-1] + a[1:, :-1] + a[:-1, 1:] + a[1:, 1:])
        pad = np.zeros((g.Nz, g.Nx), bool); pad[1:-1, 1:-1] = four
        vz = np.where(vact, exz, 0.0)
        todo = [("div_u", g.C, div, rock), ("exxd", g.C, ux - c * div, rock), ("ezzd", g.C, wz - c * div, rock), ("exz", g.V, exz, vact), ("exz_n", g.C, mean(vz), rock)]
        for n, A, ref, on in todo:
            got = A(n)
            d = np.where(on, np.abs(got - ref), 0.0)
            r.sub += d.size
            if not d.max() <= 1e-9 * sc:
                l, k = np.unravel_index(int(np.nan_to_num(d, nan=np.inf).argmax()), d.shape)
                r.bad("step %d: %s (%d,%d) is %.9g, the velocity gives %.9g" % (step, NAMES.get(n, n), k, l, got[l, k], ref[l, k]))
                return False
        for n, nn in (("exxd_s", "exxd"), ("ezzd_s", "ezzd"), ("T_s", "T"), ("P_s", "p_in")):
            src, got = g.C(nn), g.V(n)[1:-1, 1:-1]
            ref = mean(src)
            d = np.where(four, np.abs(got - ref), 0.0)
            r.sub += d.size
            if not d.max() <= 1e-9 * np.abs(np.where(rock, src, 0.0)).max():
                l, k = np.unravel_index(int(np.nan_to_num(d, nan=np.inf).argmax()), d.shape)
                r.bad("step %d: %s at vertex (%d,%d) is %.9g, the cells around it give %.9g" % (step, NAMES.get(n, n), k + 1, l + 1, got[l, k], ref[l, k]))
                return False
        return True

    def state(self, sc, s, r):
        g = G(s)
        m = {k[4:]: v for k, v in s.items() if k.startswith("mat.")}
        pi = lambda n: int(s["p." + n][0])
        sc_ = lambda n: float(s["s." + n][0])
        step = pi("step")
        el = pi("elastic") if step else 0
        ani = pi("anisotropy")
        dt = float(s["p.dt"][0]) if step else 1e100
        opt = dict(el=el, ani=ani, dt=dt, R=rheo.RGAS / (sc_("J") / sc_("T")), sT=sc_("T"), sE=sc_("E"), sS=sc_("S"), prod=pi("chemical_production"), mix=pi("diffuse_X"), mixavg=pi("diffuse_avg"),
                   emin=float(s["p.min_eta"][0]), emax=float(s["p.max_eta"][0]))
        av = pi("eta_average")
        nph = pi("Nb_phases")
        per = pi("periodic_x")
        if not self.kinematics(s, g, step, r):
            return
        for loc in "ns":
            A = (g.C if loc == "n" else g.V)
            act = ~g.air if loc == "n" else s["m.BCg.type"].reshape(g.Nz, g.Nx) != 30
            if not act.any():
                continue
            f = lambda n: A(n)[act]
            if loc == "n":
                Q = dict(T=f("T"), P=f("p_in"), d=f("d0_n"), phi=f("phi0_n"), X=f("X0_n"), G=f("mu_n"), fric=f("fric_n"), coh=f("C_n"), dil=f("dil_n"), K=1 / f("bet_n"))
                e = [f("exxd"), f("ezzd"), f("exz_n")]; t0 = [f("sxxd0"), f("szzd0"), f("sxz0_n")]
            else:
                Q = dict(T=f("T_s"), P=f("P_s"), d=f("d0_s"), phi=f("phi0_s"), X=f("X0_s"), G=f("mu_s"), fric=f("fric_s"), coh=f("C_s"), dil=f("dil_s"), K=1 / f("bet_s"))
                e = [f("exxd_s"), f("ezzd_s"), f("exz")]; t0 = [f("sxxd0_s"), f("szzd0_s"), f("sxz0")]
            if pi("elastic"):
                if not step and max(np.abs(t).max() for t in t0) > 0:
                    continue                                    # prestress at the start of a run: nothing is specified
                ge = 2 * float(s["p.dt"][0]) * Q["G"]
            if ani:
                d1, d2, fac = (f(n + "_" + loc) for n in ("d1", "d2", "aniso_factor"))
                D = np.moveaxis(rheo.amat(1 - 1 / fac, d1, d2), 2, 0)
            if pi("elastic"):
                if ani:
                    c = np.linalg.solve(D, np.stack(t0, 1)[:, :, None])[:, :, 0] / ge[:, None]
                    e = [e[i] + c[:, i] for i in range(3)]
                else:
                    e = [a + b / ge for a, b in zip(e, t0)]
            Q["E"] = np.sqrt(0.5 * (e[0] ** 2 + e[1] ** 2 + (e[0] + e[1]) ** 2) + e[2] ** 2)
            if Q["E"].max() <= 0:
                continue
            Q["E"] = np.maximum(Q["E"], 1e-300)
            acc = {}
            skip = np.zeros(Q["E"].shape, bool)
            add = lambda n, v, w: acc.__setitem__(n, acc.get(n, 0.0) + w * v)
            mix = (lambda v: v, lambda v: 1 / np.where(v > 0, v, np.inf), lambda v: np.log(np.where(v > 0, v, 1.0)))[av]
            for p in range(nph):
                w = f("phase_perc_%s%d" % (loc, p))
                on = np.abs(w) > 1e-13
                w = np.where(on, w, 0.0)
                if not on.any():
                    continue
                o = rheo.node(m, p, Q, opt)
                z = lambda v: np.where(on, v, 0.0)
                add("eta", z(mix(o["eta"])), w); add("phys", z(mix(o["phys"])), w); add("X", z(o["X"]), w)
                skip |= on & (~np.isfinite(o["eta"]) | ~np.isfinite(o["phys"]) | o["bad"])
                if loc == "n":
                    for k in MECHS:
                        if "e_" + k in o:
                            add("eII_" + k, z(o["e_" + k]), w)
                    add("eII_pl", z(o["gdot"] / 2), w); add("p_corr", z(o["P"]), w); add("OverS_n", z(o["over"]), w)
                    if pi("density_variations") and int(m["density_model"][p]) in (0, 1, 3):   # volume change: density at the composition and pressure of the law
                        Pd = o["P"] if s.tag == "rheo:final" and (step or 1) else Q["P"]
                        add("rho_n", z(matref.eos(m, p, Q["T"], Pd, o["X"], Q["phi"], 1, None)), w)
                    elif pi("density_variations"):
                        add("rho_n", np.nan, 1.0)
                    add("div_u_pl", np.where(on, o["div_pl"], 0.0), w); add("Wdiss", z(o["W"]), w)
                    if el:
                        add("div_u_el", z(-(o["P"] - f("p0_n")) / (Q["K"] * dt)), w)
                    if ani:
                        pass
                    elif el:
                        # elastic strain rate of the phase: its own stress (before the viscosity limits) minus the old one
                        raw = np.where(on, o["raw"], 0)
                        x = [(2 * raw * a - b) / ge for a, b in zip(e, t0)]
                        add("eII_el", np.sqrt(0.5 * (x[0] ** 2 + x[1] ** 2 + (x[0] + x[1]) ** 2) + x[2] ** 2), w)
            unmix = (lambda v: v, lambda v: 1 / np.where(v > 0, v, np.inf), np.exp)[av]
            eta = unmix(acc["eta"])
            scale = {}
            if ani:
                tau = [2 * eta * c for c in np.einsum("nij,nj->in", D, np.stack(e, 1))]
            else:
                tau = [2 * eta * c for c in e]
            tm = 2 * eta * Q["E"]
            if loc == "n":
                cmp = [("eta_n", eta, eta), ("sxxd", tau[0], tm), ("szzd", tau[1], tm), ("sxz_n", tau[2], tm)]
                for k in ["eII_" + k for k in MECHS] + ["eII_pl", "eII_el"]:
                    if k in acc:
                        cmp.append((k, acc[k], Q["E"]))
                    elif k != "eII_el" and not (k == "eII_gbs" and ani):
                        cmp.append((k, np.zeros_like(eta), Q["E"]))
                P = np.abs(Q["P"]) + tm
                cmp += [("p_corr", acc["p_corr"], P), ("OverS_n", acc["OverS_n"], tm), ("div_u_pl", acc["div_u_pl"], Q["E"]), ("Wdiss", acc["Wdiss"], acc["Wdiss"])]
                if "div_u_el" in acc:
                    cmp.append(("div_u_el", acc["div_u_el"], np.abs(acc["div_u_el"]) + Q["E"]))
                cmp.append(("X_n", acc["X"], 1.0))
                if "rho_n" in acc:
                    cmp.append(("rho_n", acc["rho_n"] * np.ones(eta.shape), acc["rho_n"]))
                cmp.append(("eta_phys_n", unmix(acc["phys"]), unmix(acc["phys"])))
            else:
                cmp = [("eta_s", eta, eta), ("sxxd_s", tau[0], tm), ("szzd_s", tau[1], tm), ("sxz", tau[2], tm), ("X_s", acc["X"], 1.0), ("eta_phys_s", unmix(acc["phys"]), unmix(acc["phys"]))]
            for n, ref, sca in cmp:
                got = f(n)
                with np.errstate(all="ignore"):
                    d = np.abs(got - ref) / sca
                d = np.where(np.isfinite(ref) & ~skip, np.where(np.isfinite(got), d, np.inf), 0.0)
                r.sub += d.size
                if d.max() > 1e-6:
                    i = int(d.argmax())
                    l, k = [int(v[i]) for v in np.nonzero(act)]
                    r.bad("step %d: %s of %s (%d,%d) is %.9g, the constitutive law gives %.9g" % (step, NAMES.get(n, n), "cell" if loc == "n" else "vertex", k, l, got[i], ref[i]))
                    return


NAMES = dict(div_u="divergence of cell", exxd="strain rate xx of cell", ezzd="strain rate zz of cell", exz="shear strain rate of vertex", exz_n="shear strain rate of cell", exxd_s="strain rate xx", ezzd_s="strain rate zz", T_s="temperature", P_s="pressure",
             eta_n="viscosity", eta_s="viscosity", sxxd="deviatoric stress xx", szzd="deviatoric stress zz", sxz_n="shear stress", sxz="shear stress", sxxd_s="deviatoric stress xx", szzd_s="deviatoric stress zz",
             eII_cst="strain rate by constant viscosity", eII_pwl="dislocation creep strain rate", eII_lin="diffusion creep strain rate", eII_exp="Peierls creep strain rate", eII_gbs="grain boundary sliding strain rate",
             eII_pl="plastic strain rate", eII_el="elastic strain rate", p_corr="corrected pressure", OverS_n="overstress", div_u_pl="plastic dilation rate", div_u_el="elastic volume strain rate", Wdiss="dissipation",
             rho_n="density", X_n="composition", X_s="composition", eta_phys_n="dissipative viscosity", eta_phys_s="dissipative viscosity")
