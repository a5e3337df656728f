"""P08 composition: the composition of every output solves the discrete diffusion balance of the step with the values and fluxes prescribed on the sides."""
import itertools
from mc import *
from space import FEATURES, XFEATURES, make, TOPO, STEP
from runner import Check, Res
from scipy.special import erfc
from ref import G, diffuse, sides

SKIP = {"x.anidbg", "x.surfdbg", "x.maps", "x.safe", "fixT", "polar", "x.steppol", "x.polth", "x.polths", "x.polch", "x.anipolar"}
GRIDS = ((8, 7), (6, 9), (11, 6))
D = dict(N=(1, 0.2, 1e-6, 0), S=(1, 0.8, -2e-6, 0), W=(1, 0.4, 0, -2e-6), E=(1, 0.3, 0, -3e-6))
F = dict(N=(0, 0.0), S=(0, -1.2e-10, 5e-16, 0), W=(0, 0.0), E=(0, 0.0))
XF = ("lin", 0.5, 5e-6, 4e-6)
REAC = {"no": {}, "reac": dict(reac_soft=1, reac_phase=1, Pr=5e8, dPr=2e8, tau_kin=1e12), "slow": dict(reac_soft=1, reac_phase=1, Pr=9e8, dPr=1e8, tau_kin=2e13)}
MECH = {"": {}, "el": dict(elastic=1, compressible=1), "th": dict(thermal=1, shear_heating=1)}
SURF = {"": None, "D": (TOPO, (1, 0.25, 2e-6, 0)), "F": (TOPO, None), "sD": (STEP, (1, 0.25, 2e-6, 0)), "sF": (STEP, None)}


class CHECK(Check):
    pid = "P08"
    level = "exploration"
    rule = ("scenario = every admissible combination of prescribed composition, flux and periodicity on the four sides (values varying along the side) x reaction kinetics of each phase x surface condition x grid, or a set of one or two input switches with chemical "
            "diffusion (with and without reaction); the real program is run and the composition of every cell of every output is compared with reaction progress plus diffusion computed independently")
    assumptions = ["grids 8x7, 6x9 and 11x6 of cells that are not square; 2 or 3 steps", "tolerance 1e-8", "radial (polar) grids left out", "remembered composition and phase fractions judged by P09"]

    def space(self, tier):
        r = []
        for we in ("DD", "DF", "FD", "FF", "PP"):
            for n in "DF":
                for s in "DF":
                    for h in itertools.product(REAC, ("no", "slow")):
                        for fs in SURF:
                            for m in MECH:
                                for gi in (range(3) if tier != "quick" else (0, 1) if not fs and not m else (0,)):
                                    if fs and n == "D" or fs and we == "PP" and fs[0] == "s":
                                        continue
                                    r.append(dict(b=we + n + s, h=list(h), s=fs, g=gi, m=m))
        for side in "WEN":
            r.append(dict(q=side))
        A = [f for f in list(FEATURES) + list(XFEATURES) if f not in SKIP]
        for rc in (0, 1):
            for f in A:
                for gi in range(3):
                    r.append(dict(f=[f], g=gi, r=rc))
            for a, b in itertools.combinations([f for f in FEATURES if f not in SKIP], 2):
                for gi in (0,) if tier == "quick" else range(3):
                    if tier != "quick" or not rc:
                        r.append(dict(f=[a, b], g=gi, r=rc))
        return r

    def key(self, sc):
        if "q" in sc:
            return "flux on side " + sc["q"]
        if "b" in sc:
            return "sides/%s/%s/%s/%s/%dx%d" % ((sc["b"], "-".join(sc["h"]), sc["s"] or "-", sc["m"] or "-") + GRIDS[sc["g"]])
        return "options%s/%s/%dx%d" % (("+reaction" if sc["r"] else "", "+".join(sc["f"])) + GRIDS[sc["g"]])

    def job(self, sc):
        if "q" in sc:
            return make(["base"], model=dict(Nt=1, xmax=2.3e4, chemical_diffusion=1), fields=dict(X=XF), bcc={sc["q"]: (0, 1e-10)}, hooks=("out",))
        nx, nz = GRIDS[sc["g"]]
        if "f" in sc:
            m = dict(Nt=3 if len(sc["f"]) == 1 else 2, Nx=nx, Nz=nz, xmax=2.3e4, chemical_diffusion=1)
            if sc["r"]:
                m["chemical_production"] = 1
            j = make(sc["f"], model=m, fields=dict(X=XF), hooks=("out",))
            if sc["r"]:
                j.phases[0].update(REAC["slow"])
            return j
        b = sc["b"]
        bc = {s: (-2, 0.0) if k == "P" else (D if k == "D" else F)[s] for s, k in zip("WENS", b)}
        m = dict(dict(Nt=2, Nx=nx, Nz=nz, xmax=2.3e4, chemical_diffusion=1), **MECH[sc["m"]])
        if sc["h"] != ["no", "no"]:
            m["chemical_production"] = 1
        kw = {}
        f = ["simple" if b[:2] == "PP" else "base"]
        if sc["s"]:
            f.append("surf")
            kw["topo"], fs = SURF[sc["s"]]
            if b[:2] == "PP":
                kw["topo"] = list(kw["topo"][:-1]) + [kw["topo"][0]]
            if fs:
                bc["FS"] = fs
        j = make(f, model=m, bcc=bc, fields=dict(X=XF), hooks=("out",), **kw)
        for p, h in zip(j.phases, sc["h"]):
            p.update(REAC[h])
        return j

    def evaluate(self, scs):
        return pmap(self._batch, scs, 30)

    def _batch(self, scs):
        jobs = [self.job(sc) for sc in scs]
        run_jobs(jobs)
        res = []
        for sc, j in zip(scs, jobs):
            r = Res(); res.append(r)
            if not j.ok():
                r.note = "run does not complete: " + self.key(sc)
                j.clean(); continue
            S = j.snaps("out")
            for q, s in zip(S, S[1:]):
                a, b = int(q["p.step"][0]), int(s["p.step"][0])
                if b != a + 1:
                    continue
                r.states += 1; r.trans += 1
                self.step(j, sc, q, s, r)
                if r.viol:
                    break
            j.clean()
        return res

    def step(self, j, sc, q, s, r):
        g, gq = G(s), G(q)
        L, V = (float(s["s." + n][0]) for n in ("L", "V"))
        air = gq.air
        bc = sides(j.bcc, L, (1.0, V))
        cell = lambda n: s["m." + n].reshape(g.ncz, g.ncx)
        x0 = cell("X0_n")
        x1 = np.zeros_like(x0)
        P = cell("p_in")
        for p in range(len(j.phases)):
            x = x0
            if int(s["p.chemical_production"][0]) and j.phases[p].get("reac_soft") and not int(s["p.anisotropy"][0]):
                tau, Pr, dPr = (float(s["mat." + n][p]) for n in ("tau_kin", "Pr", "dPr"))
                eq = 1 - 0.5 * erfc((P - Pr) / dPr)
                x = (x0 * tau + g.dt * eq) / (tau + g.dt)
            x1 += q["m.phase_perc_n%d" % p].reshape(x0.shape) * x
        c = lambda n: s["m." + n]
        xg, zg = q["m.xg_coord"], q["m.zg_coord"]
        h = G(q)
        h.dx, h.dz = xg[1] - xg[0], zg[1] - zg[0]
        ref = diffuse(h, x1, np.ones_like(x0), s["m.kc_x"].reshape(g.Nz + 1, g.Nx), s["m.kc_z"].reshape(g.Nz, g.Nx + 1), np.zeros_like(x0), g.dt, bc, air, (0.5 * (xg[1:] + xg[:-1]), 0.5 * (zg[1:] + zg[:-1])))
        got = cell("X_n")
        ok = ~air & ~g.air
        r.sub += int(ok.sum())
        d = np.abs(np.where(ok, got - ref, 0))
        if not d.max() <= 1e-8:
            l, k = np.unravel_index(d.argmax(), d.shape)
            r.bad("step %d: composition of cell (%d,%d) is %.8g, reaction and diffusion give %.8g" % (int(s["p.step"][0]), k, l, got[l, k], ref[l, k]))
