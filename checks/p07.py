"""P07 heat: the temperature of every output solves the discrete heat balance of the step with the sources selected and the temperatures and fluxes prescribed on the sides."""
import itertools
from mc import *
from space import FEATURES, XFEATURES, make, TOPO, STEP
from runner import Check, Res
from ref import G, diffuse, sides

SKIP = {"x.anidbg", "x.surfdbg", "x.maps", "x.safe", "fixT", "polar", "x.steppol", "x.polth", "x.polths", "x.polch", "x.anipolar", "x.btN0"}
GRIDS = ((8, 7), (6, 9), (11, 6))
D = dict(N=(1, 800.0, 1e-4, 0), S=(1, 1500.0, -2e-4, 0), W=(1, 1000.0, 0, -3e-3), E=(1, 1100.0, 0, -2e-3))
F = dict(N=(0, 0.0), S=(0, -0.03, 2e-7, 0), W=(0, 0.0), E=(0, 0.0))
HEAT = {"none": {}, "shear": dict(shear_heating=1), "ad1": dict(adiab_heating=1), "ad2": dict(adiab_heating=2, elastic=1, compressible=1), "all": dict(shear_heating=1, adiab_heating=2, elastic=1), "all1": dict(shear_heating=1, adiab_heating=1, compressible=1)}
SURF = {"": None, "D": (TOPO, (1, 293.0, 1e-4, 0)), "F": (TOPO, None), "sD": (STEP, (1, 293.0, 1e-4, 0)), "sF": (STEP, None)}


class CHECK(Check):
    pid = "P07"
    level = "exploration"
    rule = ("scenario = every admissible combination of prescribed temperature, flux and periodicity on the four sides (values varying along the side) x every selection of heat sources x surface condition x grid, or a set of one or two input switches with the thermal "
            "solver on; the real program is run and the temperature of every cell of every output is compared with the solution of the heat balance assembled independently")
    assumptions = ["grids 8x7, 6x9 and 11x6 of cells that are not square; 2 or 3 steps", "tolerance 1e-8 of the temperature range", "radial (polar) grids and runs with prescribed initial temperature of every step left out",
                   "density, dissipation and velocity at the time of the thermal step taken from the running program; conductivity, heat capacity, heat production and remembered temperature judged by P09"]

    def space(self, tier):
        r = []
        for we in ("DD", "DF", "FD", "FF", "PP"):
            for n in "DF":
                for s in "DF":
                    for h in HEAT:
                        for fs in SURF:
                            for gi in (range(3) if tier != "quick" else (0, 1) if not fs else (0,)):
                                if fs and n == "D" or fs and we == "PP" and fs[0] == "s":
                                    continue
                                r.append(dict(b=we + n + s, h=h, s=fs, g=gi))
        for side in "WEN":
            r.append(dict(q=side))
        A = [f for f in list(FEATURES) + list(XFEATURES) if f not in SKIP]
        for f in A:
            for gi in range(3):
                r.append(dict(f=[f], g=gi))
        for a, b in itertools.combinations([f for f in FEATURES if f not in SKIP], 2):
            for gi in (0,) if tier == "quick" else range(3):
                r.append(dict(f=[a, b], g=gi))
        return r

    def key(self, sc):
        if "q" in sc:
            return "flux on side " + sc["q"]
        if "b" in sc:
            return "sides/%s/%s/%s/%dx%d" % ((sc["b"], sc["h"], sc["s"] or "-") + GRIDS[sc["g"]])
        return "options/" + "+".join(sc["f"]) + "/%dx%d" % GRIDS[sc["g"]]

    def job(self, sc):
        if "q" in sc:
            return make(["thermal"], model=dict(Nt=1, xmax=2.3e4), bct=dict(S=(1, 1500.0), **{sc["q"]: (0, 0.05)}), hooks=("out", "energy"))
        nx, nz = GRIDS[sc["g"]]
        if "f" in sc:
            m = dict(Nt=3 if len(sc["f"]) == 1 else 2, Nx=nx, Nz=nz, xmax=2.3e4, thermal=1)
            return make(sc["f"], model=m, hooks=("out", "energy"))
        b = sc["b"]
        bc = {s: (-2, 0.0) if k == "P" else (D if k == "D" else F)[s] for s, k in zip("WENS", b)}
        m = dict(dict(Nt=2, Nx=nx, Nz=nz, xmax=2.3e4, dt=2e13 if sc["h"] == "none" else 1.5e12), **HEAT[sc["h"]])
        kw = {}
        f = ["thermal"]
        if b[:2] == "PP":
            f.append("simple")
        if sc["s"]:
            f.append("surf")
            kw["topo"], fs = SURF[sc["s"]]
            if b[:2] == "PP":
                kw["topo"] = list(kw["topo"][:-1]) + [kw["topo"][0]]
            if fs:
                bc["FS"] = fs
        return make(f, model=m, bct=bc, hooks=("out", "energy"), **kw)

    def evaluate(self, scs):
        return pmap(self._batch, scs, 30)

    def _batch(self, scs):
        jobs = [self.job(sc) for sc in scs]
        run_jobs(jobs)
        res = []
        for sc, j in zip(scs, jobs):
            r = Res(); res.append(r)
            if not j.ok():
                r.note = "run does not complete: " + self.key(sc)
                j.clean(); continue
            S = j.snaps("out")
            E = j.snaps("energy:pre")
            for q, s in zip(S, S[1:]):
                a, b = int(q["p.step"][0]), int(s["p.step"][0])
                if b != a + 1:
                    continue
                e = [x for x in E if int(x["p.step"][0]) == b]
                if not e:
                    r.note = "the thermal step of this run could not be observed"
                    continue
                r.states += 1; r.trans += 1
                self.step(j, sc, q, s, e[-1], r)
                if r.viol:
                    break
            j.clean()
        return res

    def step(self, j, sc, q, s, e, r):
        g, gq = G(s), G(q)
        L, T, V, S = (float(s["s." + n][0]) for n in ("L", "T", "V", "S"))
        air = gq.air
        bc = sides(j.bct, L, (T, S * V))
        cell = lambda n, z=s: z["m." + n].reshape(g.ncz, g.ncx)
        t0 = cell("T0_n")
        src = cell("Qr").copy()
        m = j.model
        if m.get("shear_heating"):
            src += cell("Wdiss", e)
        ad = int(m.get("adiab_heating", 0))
        if ad == 1:
            w = e["m.v_in"].reshape(g.Nz, g.Nx + 1)
            src += t0 * cell("alp", e) * 0.5 * (w[:-1, 1:-1] + w[1:, 1:-1]) * g.p("gz") * cell("rho_n", e)
        elif ad == 2:
            src += t0 * cell("alp", e) * (cell("p_in", e) - cell("p0_n")) / g.dt
        xg, zg = e["m.xg_coord"], e["m.zg_coord"]
        h = G(e)
        h.dx, h.dz = xg[1] - xg[0], zg[1] - zg[0]
        ref = diffuse(h, t0, cell("rho_n", e) * cell("Cp", e), s["m.kx"].reshape(g.Nz + 1, g.Nx), s["m.kz"].reshape(g.Nz, g.Nx + 1), src, g.dt, bc, air, (0.5 * (xg[1:] + xg[:-1]), 0.5 * (zg[1:] + zg[:-1])))
        got = cell("T")
        ok = ~air & ~g.air
        r.sub += int(ok.sum())
        d = np.abs(np.where(ok, got - ref, 0))
        rng = max(np.ptp(ref[~air]), 10.0 / T)
        if not d.max() <= 1e-8 * rng + 1e-9 * np.abs(ref[~air]).max():
            l, k = np.unravel_index(d.argmax(), d.shape)
            r.bad("step %d: temperature of cell (%d,%d) is %.6g K, the heat balance gives %.6g K" % (int(s["p.step"][0]), k, l, got[l, k] * T, ref[l, k] * T))
