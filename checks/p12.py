"""P12 free surface: the surface moves with the flow and is shaped by surface processes; rock, air and sediment follow it."""
import itertools
from mc import *
from space import FEATURES, XFEATURES, make, TOPO, STEP
from runner import Check, Res
from ref import G, Grid, advect, courant
from surf import Chain, erode, fit

GRIDS = ((8, 7), (6, 9), (11, 13))
SHAPES = {"topo": TOPO, "step": STEP, "flat": [-4.0e3, -4.0e3], "ramp": [-9e3, 2e3], "bump": [-8e3, -8e3, 1e3, -8e3, -8e3], "valley": [0.0, 1e3, -9e3, 1e3, 0.0], "deep": [-2.2e4, -2.0e4, -2.3e4]}
SED = dict(surf_sedirate=4e-10, surf_ised1=0, surf_ised2=1, surf_baselev=-3.3e3)
PROC = {"none": {}, "diff": dict(surface_processes=1, surf_diff=3e-6), "strong": dict(surface_processes=1, surf_diff=2e-5), "diffsed": dict(SED, surface_processes=1, surf_diff=3e-6), "sed": dict(SED, surface_processes=2, surf_diff=1e-6),
        "inc": dict(surface_processes=5, surf_Winc=1.5e4, surf_Vinc=3e-10), "incdiff": dict(surface_processes=5, surf_Winc=2.5e4, surf_Vinc=2e-10, surf_diff=3e-6), "sed0": dict(SED, surface_processes=2)}
MOVE = {"std": {}, "fast": dict(dt=3e12), "ale": dict(pure_shear_ALE=1, dt=3e12), "in": dict(pure_shear_ALE=-1, dt=3e12), "per": dict(shear_style=1, dt=3e12), "ext": dict(bkg_strain_rate=-1.3e-15, dt=4e12), "slow": dict(dt=1.7e13, bkg_strain_rate=1e-18),
        "cour": dict(constant_dt=0, Courant=0.3, dt=3e12), "court": dict(constant_dt=0, Courant=0.11, dt=5e12)}
MORE = {"": {}, "tot": dict(topo_update=0), "zero": dict(zero_mean_topo=1), "stab": dict(free_surface_stab=1.0), "totz": dict(topo_update=0, zero_mean_topo=1)}
NEVER = {"x.surfdbg", "x.anidbg", "x.maps", "noadv"}


class CHECK(Check):
    pid = "P12"
    level = "exploration"
    rule = ("scenario = initial topography x surface process x motion (closed, moving box, open sides, periodic, extension, adaptive step with substeps) x projection variant x grid, or a set of input switches with a free surface; in every step of the "
            "real program the heights of the surface and of the buried initial surface, the surface markers, removal of markers, air and rock cells and the sediment are compared with the reference motion")
    assumptions = ["grids 8x7, 6x9 and 11x13, three steps", "sediment and removal of markers judged without reseeding and inflow", "radial (polar) grids judged only for consistency of surface, markers and cells"]

    def space(self, tier):
        r = []
        for sh in SHAPES:
            for pr in PROC:
                for mv in MOVE:
                    for mo in MORE:
                        for gi in range(3) if tier != "quick" else ((0, 1, 2) if mo == "" else (0,)):
                            if tier == "quick" and mo and mv in ("in", "ext", "court") and pr not in ("none", "sed"):
                                continue
                            r.append(dict(sh=sh, pr=pr, mv=mv, mo=mo, g=gi))
        S = [f for f in FEATURES if self.surf(f)]
        R = [f for f in FEATURES if f not in NEVER and f not in S]
        for f in S:
            r.append(dict(f=[f]))
        for f in XFEATURES:
            if f not in NEVER and self.surf(f):
                r.append(dict(f=[f]))
        for a in ("surf", "surfsed", "zerotopo"):
            for b in R:
                r.append(dict(f=[a, b]))
        return r

    @staticmethod
    def surf(f):
        return int(dict(make([f]).model).get("free_surface", 0)) == 1

    def key(self, sc):
        return "f=" + "+".join(sc["f"]) if "f" in sc else "%s/%s/%s%s/%dx%d" % ((sc["sh"], sc["pr"], sc["mv"], "/" + sc["mo"] if sc["mo"] else "") + GRIDS[sc["g"]])

    def job(self, sc):
        if "f" in sc:
            return make(sc["f"], model=dict(Nt=3, Nx=8, Nz=7, xmax=2.3e4, reseed_markers=0, writer_markers=1), hooks=("out", "outp", "adv"))
        nx, nz = GRIDS[sc["g"]]
        j = make(["surf"], model=dict(dict(dict(dict(Nt=3, Nx=nx, Nz=nz, xmax=2.3e4, reseed_markers=0, writer_markers=1), **PROC[sc["pr"]]), **MOVE[sc["mv"]]), **MORE[sc["mo"]]), hooks=("out", "outp", "adv"))
        j.topo = SHAPES[sc["sh"]]
        return j

    def evaluate(self, scs):
        return pmap(self._batch, scs, 30)

    def _batch(self, scs):
        jobs = [self.job(sc) for sc in scs]
        run_jobs(jobs)
        res = []
        for sc, j in zip(scs, jobs):
            r = Res(); res.append(r)
            if not j.ok():
                r.note = "run does not complete: " + self.key(sc)
                j.clean(); continue
            A = j.snaps(None)
            q, advs, out = None, [], None
            for s in A:
                if s.tag.startswith("adv:"):
                    advs.append(s)
                elif s.tag.startswith("outp"):
                    s = Snap(dict(out, **{k: v for k, v in s.items() if k[:3] in ("ti.", "tci")}))
                    r.states += 1
                    if q is None:
                        self.first(j, s, r)
                    self.state(s, r)
                    if q is not None and int(s["p.step"][0]) == int(q["p.step"][0]) + 1:
                        r.trans += 1
                        self.step(j, q, s, advs, r)
                    q, advs = s, []
                    if r.viol:
                        break
                elif s.tag.startswith("out"):
                    out = s
            j.clean()
        return res

    # -------- the state at an output
    def first(self, j, s, r):
        if int(s["p.polar"][0]):
            return
        g, L = Grid(s), float(s["s.L"][0])
        T = np.array(j.topo if j.topo else [0.0]) / L
        f = lambda x: np.interp(x, np.linspace(g.x0, g.x1, len(T)), T) if len(T) > 1 else np.full(len(x), T[0])
        c = Chain(s["tc.x"], f(s["tc.x"]), s["tc.phase"] != -1, np.zeros(g.Nx)); c.start()
        from surf import project
        h = project(g, c.x, c.z, np.ones(len(c.x), bool), 0 * c.h)
        for nm, a, b in (("surface heights", s["t.height"], h), ("heights of the initial surface", s["ti.height"], h), ("surface markers", s["tc.z"], c.z), ("markers of the initial surface", s["tci.z"], f(s["tci.x"]))):
            r.sub += 1
            if len(a) != len(b) or not np.abs(a - b).max() <= 1e-9 * g.dz:
                r.bad("the initial %s are not those of the prescribed topography" % nm)

    def state(self, s, r):
        P = lambda n: float(s["p." + n][0])
        g, a = Grid(s), G(s)
        h = s["t.height"]
        tol = 1e-8 * g.dz
        live = s["tc.phase"] != -1
        if P("step") > 0:
            r.sub += 1
            d = np.abs(s["tc.z"] - fit(g, h, s["tc.x"]))[live]
            if d.size and not d.max() <= tol:
                r.bad("step %d: surface markers lie off the surface (by %.3g cells)" % (P("step"), d.max() / g.dz))
            li = s["tci.phase"] != -1
            r.sub += 1
            w = np.minimum(fit(g, s["ti.height"], s["tci.x"]), fit(g, h, s["tci.x"]))
            d = np.abs(s["tci.z"] - w)[li]
            if d.size and not d.max() <= tol:
                r.bad("step %d: markers of the initial surface lie neither on it nor on the eroded surface (off by %.3g cells)" % (P("step"), d.max() / g.dz))
        if P("zero_mean_topo") and P("step") > 0:
            r.sub += 1
            if not abs(h.mean()) <= tol:
                r.bad("step %d: the mean topography is not zero (%.3g cells)" % (P("step"), h.mean() / g.dz))
        k = s["k.phase"] != -1
        r.sub += 1
        ab = k & (s["k.z"] > fit(g, h, s["k.x"]) + tol) & (P("step") > 0)
        if ab.any():
            r.bad("step %d: %d markers lie above the surface" % (P("step"), ab.sum()))
        # air and rock
        r.sub += 1
        hc = fit(g, h, g.xc)
        up, clear = g.zc[:, None] > hc[None, :], np.abs(g.zc[:, None] - hc[None, :]) > tol
        air = a.air
        if (up & clear & ~air).any():
            r.bad("step %d: %d cells with their centre above the surface are treated as rock" % (P("step"), (up & clear & ~air).sum()))
        he = np.concatenate([[h[0] - (h[1] - h[0]) / 2], hc, [h[-1] + (h[-1] - h[-2]) / 2]])
        ue = g.zc[:, None] > he[None, :] - tol
        notch = ue[:, :-2] & ue[:, 2:]
        if (~up & clear & air & ~notch).any():
            r.bad("step %d: %d cells with their centre below the surface are treated as air" % (P("step"), (~up & clear & air & ~notch).sum()))

    # -------- one time step
    def step(self, j, q, s, advs, r):
        P = lambda n: float(s["p." + n][0])
        if P("polar") or not P("advection"):
            return
        dt = float(s["p.dt"][0])
        ale, per = int(P("pure_shear_ALE")), int(P("periodic_x"))
        a = G(s)
        U, W = a.U("u_in"), a.W("v_in")
        pre = [x for x in advs if x.tag == "adv:pre"]
        n = len(pre) // 3
        if len(pre) != 3 * n or n < 1:
            if int(P("constant_dt")) == 0:
                r.note = "advection not observed"
                return
            n, pre = 1, None
        c = Chain(q["tc.x"], q["tc.z"], q["tc.phase"] != -1, q["t.height"])
        ci = Chain(q["tci.x"], q["tci.z"], q["tci.phase"] != -1, q["ti.height"])
        kx, kz = q["k.x"].copy(), q["k.z"].copy()
        ok = q["k.phase"] != -1
        near = np.zeros(len(kx), bool)
        h = dt / n
        for i in range(n):
            b = pre[3 * i] if pre else q
            g = Grid(s if ale > 0 and not pre else b)
            f = G(b)
            airu, airw = f.U("BCu.type") == 30, f.W("BCv.type") == 30
            adv = lambda x, z: advect(g, x, z, U, W, airu, airw, h, per, int(P("conserv_interp")))
            c.start(); ci.start()
            c.carry(g, adv); ci.carry(g, adv)
            kx, kz, _, _, al = adv(kx, kz)
            ok &= al
            sure = c.update(g, int(P("topo_update"))) & ci.update(g, int(P("topo_update")))
            flow = c.h.copy()
            c.h, s2 = erode(g, c.h, h, P)
            if P("zero_mean_topo"):
                c.h = c.h - c.h.mean()
            if not (sure and s2):
                r.note = "undecided remeshing or threshold"
                return
            c.z = fit(g, c.h, c.x)
            ci.z = np.minimum(fit(g, ci.h, ci.x), fit(g, c.h, ci.x))
            hk = fit(g, c.h, kx)
            ok &= kz <= hk
            near |= (np.abs(kz - hk) < 1e-7 * g.dz) | (np.minimum(np.abs(kx - g.x0), np.abs(kx - g.x1)) < 1e-7 * g.dx) | (np.minimum(np.abs(kz - g.z0), np.abs(kz - g.z1)) < 1e-7 * g.dz)
        st = int(P("step"))
        tol = 1e-7 * g.dz
        for nm, p, o, k in (("surface", "t", "tc", c), ("initial surface", "ti", "tci", ci)):
            r.sub += 2
            d = np.abs(s[p + ".height"] - k.h)
            if not d.max() <= tol:
                r.bad("step %d: the %s did not move with the flow%s (heights of %d of %d vertices off by up to %.3g cells%s)" % (st, nm, "" if p == "ti" or not P("surface_processes") else " and the surface processes", (d > tol).sum(), g.Nx, d.max() / g.dz, ", %d substeps" % n if n > 1 else ""))
                continue
            x = np.sort(s[o + ".x"][s[o + ".phase"] != -1])
            y = np.sort(k.x)
            e = 1e-7 * g.dx
            ends = lambda v: v[(v > g.x0 + e) & (v < g.x1 - e)]
            if len(x) != len(y):
                x, y = ends(x), ends(y)
            if len(x) != len(y) or not np.abs(x - y).max() <= e:
                r.bad("step %d: the markers of the %s were not carried along or completed (%d markers, expected %d)" % (st, nm, len(x), len(y)))
        if int(P("reseed_markers")) or ale == -1 or r.viol:
            return
        N = min(len(kx), len(s["k.x"]))
        sl = s["k.phase"][:N] != -1
        r.sub += 1
        lost = ok[:N] & ~sl & ~near[:N]
        if lost.any():
            r.bad("step %d: %d markers below the surface vanished" % (st, lost.sum()))
        if int(P("surface_processes")) == 2 and n == 1:
            self.sediment(q, s, g, c, len(kx), r)

    def sediment(self, q, s, g, c, N, r):
        """new markers half way between the old and the new surface, of the phase of the current million years, cold and unstrained"""
        P = lambda n: float(s["p." + n][0])
        xs = np.concatenate([x + g.dx * np.array((1, 3, 5, 7)) / 8 for x in g.xg[:-1]])
        h0, h1 = fit(g, c.h0, xs), fit(g, c.h, xs)
        must, may = h1 > h0 + 1e-9 * g.dz, h1 > h0 - 1e-9 * g.dz
        x, z = s["k.x"][N:], s["k.z"][N:]
        hit = np.zeros(len(xs), bool)
        r.sub += 1
        for p, w in zip(x, z):
            i = int(np.argmin(np.abs(xs - p)))
            if abs(xs[i] - p) > 1e-7 * g.dx or not may[i] or abs(w - 0.5 * (h0[i] + h1[i])) > 1e-7 * g.dz:
                r.bad("step %d: a sediment marker does not lie between the old and the new surface" % P("step"))
                return
            hit[i] = True
        if (must & ~hit).any():
            r.bad("step %d: %d places where the surface rose got no sediment" % (P("step"), (must & ~hit).sum()))
            return
        if not len(x):
            return
        my = P("time") * float(s["s.t"][0]) / (3600 * 24 * 365.25 * 1e6)
        ph = int(P("surf_ised1") if int(np.floor(my)) % 2 else P("surf_ised2"))
        r.sub += 1
        if abs(my - round(my)) > 1e-9 and (s["k.phase"][N:] != ph)[s["k.phase"][N:] != -1].any():
            r.bad("step %d: sediment is not of the phase of the current million years" % P("step"))
        for k in ("strain", "strain_pl", "sxxd", "sxz"):
            if "k." + k in s and np.abs(s["k." + k][N:]).max() > 0:
                r.bad("step %d: new sediment carries %s" % (P("step"), k))
        if np.abs(s["k.T"][N:] * float(s["s.T"][0]) - 273.15).max() > 1e-6:
            r.bad("step %d: new sediment is not at surface temperature" % P("step"))
