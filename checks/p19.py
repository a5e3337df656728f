"""P19 material properties of the grid: density, elastic moduli, expansivity and strength are those of the phases present. (P24 uses the same runs for melting.)"""
import itertools, os, tempfile, shutil
from mc import *
from space import FEATURES, XFEATURES, make, TOPO, STEP, HOT, LOOSE
from runner import Check, Res
from ref import G, Grid, p2g, weights
import matref

# tables of density: name, nT, nP, T range [K], P range [Pa]
PD = [("Hawaiian_Pyrolite_rho_bin.dat", 1000, 1000, 473.0, 2273.0, 100e6, 15e9), ("Hawaiian_Pyrolite_HR_rho_bin.dat", 1500, 1500, 273.0, 2273.0, 1e5, 25e9), ("MORB_H2Osat_rho_bin.dat", 1000, 1000, 573.0, 1273.0, 100e6, 5.1e9),
      ("Andesite.dat", 1249, 1249, 373.0, 1373.0, 10.13e6, 5.5816e9), ("Hydrated_Pdt.dat", 793, 793, 373.0, 1373.0, 10.13e6, 5.5816e9), ("MORB.dat", 1249, 1249, 373.0, 1373.0, 10.13e6, 5.5816e9), ("Pelite.dat", 1249, 1249, 373.0, 1373.0, 10.13e6, 5.5816e9),
      ("Rhyolite.dat", 1249, 1249, 373.0, 1373.0, 10.13e6, 5.5816e9), ("Serpentinite.dat", 793, 793, 373.0, 1373.0, 10.13e6, 5.5816e9), ("SiO2_nsm010.dat", 675, 2500, 398.001, 1073.0, 9e5, 4.9989e9)]
AB = [(2700.0 + 40 * i, -0.11 - 0.01 * i, 6e-8 + 2e-9 * i, 7e-12) for i in range(10)]           # a table that is bilinear is interpolated exactly


def tables(d):
    for (n, nT, nP, T0, T1, P0, P1), (a, b, c, e) in zip(PD, AB):
        T, P = np.linspace(T0, T1, nT)[None], np.linspace(P0, P1, nP)[:, None]
        (a + b * T + c * P + e * T * P).tofile(os.path.join(d, n))


ONE = (np.linspace(1e5, 1e10, 10000) * 3e-8 + 2650.0).tobytes()
SOFT = ((0.0, 1e-2), (5e-3, 2e-2), (2e-2, 6e-2))
STRONG = dict(plast=1, C=3e7, phi=25.0, psi=6.0, eta_vp=1e20, Ce=1e7, phie=8.0, psie=1.0, eta0=5e22)
ENV = {"": {}, "surf": dict(f="surf"), "comp": dict(model=dict(compressible=1, elastic=1)), "thermal": dict(f="thermal"), "simple": dict(f="simple"), "sten": dict(model=dict(interp_stencil=9)), "melt": dict(f="x.hotmelt"), "reac": dict(f="reac"), "ale": dict(f="ale")}
MELT = (0, 1, 10, 11, 40, 41)


class CHECK(Check):
    pid = "P19"
    level = "exploration"
    rule = ("scenario = density law of each phase x option set x temperature field, tabulated densities, every combination of softening of friction, dilation and cohesion x strain window x smooth or piecewise, all option sets up to size two; "
            "after every update of density, moduli and strength in the real program each cell and vertex is compared with the equations of state and softening laws of its phases; interior cells with markers of several phases mix them")
    assumptions = ["grids 8x7 and 6x9", "kinetic density laws excluded", "tabulated densities checked with bilinear tables (interpolation then has one right answer)", "plastic strain at a node is the marker average of property P09"]
    tags = ("UpdateDensity", "ShearModCompExpGrid", "CohesionFrictionDilationGrid")

    def space(self, tier):
        r = []
        for a, b in itertools.product((0, 1, 3, 5), repeat=2):
            for e in ENV:
                for t in ("warm", "hot"):
                    r.append(dict(den=[a, b], env=e, t=t))
        for pd in range(10):
            r.append(dict(den=[2, 1], pd=pd, env=("", "surf", "comp", "thermal")[pd % 4], t=("warm", "hot")[pd % 2]))
        r.append(dict(den=[2, 2], pd=9, env="", t="warm"))
        for e in ENV:
            r.append(dict(den=[4, 1], env=e, t="warm")); r.append(dict(den=[4, 4], env=e, t="hot"))
        for w in range(len(SOFT)):
            for f in itertools.product((0, 1), repeat=3):
                for sm in (0, 1):
                    for e in ("", "surf", "simple", "sten", "noise"):
                        r.append(dict(soft=list(f), win=w, sm=sm, env=e))
        A = list(FEATURES) + list(XFEATURES)
        r += [dict(f=[a]) for a in A]
        F = [f for f in FEATURES if tier != "quick" or f in ("base", "surf", "thermal", "simple", "reac", "melt", "chem", "soft", "comp", "elcomp", "noise", "densvar", "ale", "aniso", "plast", "dilat", "sten9", "polar", "drho0", "drho3")]
        r += [dict(f=list(c)) for c in itertools.combinations(F, 2)]
        return r

    def key(self, sc):
        return "/".join("%s=%s" % (k, "+".join(map(str, v)) if isinstance(v, list) else v) for k, v in sorted(sc.items()))

    def job(self, sc):
        base = dict(Nt=2, nit_max=3)
        if "f" in sc:
            return make(list(sc["f"]), model=base, hooks=("mat",))
        i = sum(map(ord, self.key(sc)))
        base.update(Nx=(8, 6)[i % 2], Nz=(7, 9)[i % 2], xmax=2.3e4, **LOOSE)
        env = ENV[sc["env"]] if sc["env"] != "noise" else dict(f="noise")
        base.update(env.get("model", {}))
        kw = {}
        if sc.get("t") == "hot":
            kw["fields"] = dict(T=("nodes", HOT))
        if "soft" in sc:
            base.update(Nt=4, smooth_softening=sc["sm"], elastic=1, compressible=1)
            j = make([env.get("f", "base")], model=base, hooks=("mat",), **kw)
            s0, s1 = SOFT[sc["win"]]
            for q, p in enumerate(j.phases):
                p.update(STRONG, phi_soft=sc["soft"][0], psi_soft=sc["soft"][1], coh_soft=sc["soft"][2], plss=s0, plse=s1 * (1 + 0.3 * q))
            return j
        if 2 in sc["den"]:
            base["import_files_dir"] = self.tdir
        if 4 in sc["den"]:
            kw["files"] = {"PHASE_DIAGRAMS/QuartzCoesite600C.bin": ONE}
        j = make([env.get("f", "base")], model=base, hooks=("mat",), **kw)
        for p, k in zip(j.phases, sc["den"]):
            p.update(density_model=k, drho=-120.0, bet=2e-11, alp=3.2e-5)
            if k == 2:
                p["phase_diagram"] = sc["pd"]
        return j

    def evaluate(self, scs):
        self.tdir = None
        if any(2 in sc.get("den", ()) for sc in scs):
            self.tdir = tempfile.mkdtemp(prefix="mc_tab", dir=os.environ.get("MC_TMP", "/tmp"))
            tables(self.tdir)
        try:
            return pmap(self._batch, scs, 30)
        finally:
            if self.tdir:
                shutil.rmtree(self.tdir)

    def _batch(self, scs):
        jobs = [self.job(sc) for sc in scs]
        run_jobs(jobs)
        res = []
        for sc, j in zip(scs, jobs):
            r = Res(); res.append(r)
            S = [s for t in self.tags for s in j.snaps("mat:" + t)]
            if not j.ok():
                r.note = "run ends early: " + self.key(sc)
            if not S:
                r.note = "not observed: " + self.key(sc)
            for s in S:
                r.states += 1; r.trans += 1
                self.state(sc, s, r)
                if r.viol:
                    break
            j.clean()
        return res

    def state(self, sc, s, r):
        g = G(s)
        m = {k[4:]: v for k, v in s.items() if k.startswith("mat.")}
        pi = lambda n: int(s["p." + n][0])
        sS, sT, sR = (float(s["s." + n][0]) for n in ("S", "T", "rho"))
        nph, step = pi("Nb_phases"), pi("step")
        rock = ~g.air
        perc = lambda loc: [(g.C if loc == "n" else g.V)("phase_perc_%s%d" % (loc, p)) for p in range(nph)]
        tag = s.tag

        def cmp(what, got, ref, on, scale, where):
            d = np.where(on, np.abs(got - ref), 0.0)
            r.sub += int(on.sum())
            if not d.max() <= 1e-9 * scale:
                l, k = np.unravel_index(int(np.nan_to_num(d, nan=np.inf).argmax()), d.shape)
                r.bad("step %d: %s of %s (%d,%d) is %.9g, its phases give %.9g" % (step, what, where, k, l, got[l, k], ref[l, k]))
                return False
            return True

        def table(k, pd, T, P):
            t, p = T * sT, P * sS
            if k == 4:
                return (np.clip(p, 1e5, 1e10) * 3e-8 + 2650.0) / sR
            n, nT, nP, T0, T1, P0, P1 = PD[pd]
            a, b, c, e = AB[pd]
            t, p = np.clip(t, T0, T1), np.clip(p, P0, P1)
            return (a + b * t + c * p + e * t * p) / sR

        if tag.endswith("UpdateDensity"):
            ref, T, P, edge = 0.0, g.C("T"), g.C("p_in"), np.zeros(rock.shape, bool)
            for p, w in enumerate(perc("n")):
                k = int(m["density_model"][p])
                if k == 4 and not sc.get("den") or int(m["kin"][p]):
                    return
                if k in (2, 4):                      # values beyond a table are those near its edge
                    lo, hi = ((T * sT < PD[sc["pd"]][3]) | (P * sS < PD[sc["pd"]][5]), (T * sT > PD[sc["pd"]][4]) | (P * sS > PD[sc["pd"]][6])) if k == 2 else (P * sS < 1e5, P * sS > 1e10)
                    edge |= (w > 1e-13) & (lo | hi)
                ref = ref + np.where(np.abs(w) > 1e-13, w * matref.eos(m, p, T, P, g.C("X_n"), g.C("phi_n"), pi("density_variations"), table), 0.0)
            got = g.C("rho_n")
            sca = np.abs(np.where(rock, ref, 0)).max()
            if not cmp("density", got, ref, rock & ~edge, sca, "cell"):
                return
            if edge.any() and not cmp("density beyond the table", got, ref, rock & edge, sca * 1e4, "cell"):
                return
            four = np.zeros((g.Nz, g.Nx), bool)
            four[1:-1, 1:-1] = rock[:-1, :-1] & rock[1:, :-1] & rock[:-1, 1:] & rock[1:, 1:]
            cmp("density", g.V("rho_s"), g.c2v(got), four & ~g.airv, sca, "vertex")
        elif tag.endswith("ShearModCompExpGrid"):
            for loc in "ns":
                A, on = (g.C, rock) if loc == "n" else (g.V, ~g.airv)
                w = perc(loc)
                for n, k in (("mu_", "G"), ("bet_", "bet")):
                    with np.errstate(all="ignore"):
                        ref = 1 / sum(a * (1 / float(m[k][p])) for p, a in enumerate(w))
                    if loc == "s" and pi("periodic_x"):
                        e = 0.5 * (ref[:, 0] + ref[:, -1]); ref[:, 0] = ref[:, -1] = e
                    if not cmp({"mu_": "shear modulus", "bet_": "compressibility"}[n], A(n + loc), ref, on, np.abs(m[k][:nph]).max(), "cell" if loc == "n" else "vertex"):
                        return
            cmp("expansivity", g.C("alp"), sum(a * float(m["alp"][p]) for p, a in enumerate(perc("n"))), rock, max(np.abs(m["alp"][:nph]).max(), 1e-300), "cell")
        elif tag.endswith("CohesionFrictionDilationGrid"):
            q = Grid(s)
            live = s["k.phase"] != -1
            for loc in "ns":
                A, on, kind = (g.C, rock, "c") if loc == "n" else (g.V, ~g.airv, "v")
                e = p2g(q, kind, s["k.x"][live], s["k.z"][live], s["k.strain_pl"][live], pi("interp_stencil"), pi("periodic_x")).reshape(on.shape)
                on = on & np.isfinite(e)
                e = np.where(on, e, 0.0)
                near = np.zeros(on.shape, bool)
                ref = [0.0, 0.0, 0.0]
                for p, w in enumerate(perc(loc)):
                    ref = [a + w * b for a, b in zip(ref, matref.strength(m, p, e, pi("smooth_softening")))]
                if pi("marker_noise"):
                    ref[2] = ref[2] * (1 + A("noise_" + loc))
                for n, v, k in zip(("fric_", "dil_", "C_"), ref, ("phi", "psi", "C")):
                    if not cmp({"fric_": "friction angle", "dil_": "dilation angle", "C_": "cohesion"}[n], A(n + loc), v, on, max(np.abs(m[k][:nph]).max(), 1e-300) * (1 + 1e3 * near.any()), "cell" if loc == "n" else "vertex"):
                        return
