"""P10 marker advection: markers move by a fourth-order Runge-Kutta step through the interpolated velocity field; the box moves with its sides."""
import itertools
from mc import *
from space import FEATURES, XFEATURES, make, chaotic
from runner import Check, Res
from ref import G, Grid, advect, side_velocities, courant

NEVER = {"x.anidbg", "x.surfdbg", "x.maps", "x.safe", "noadv"}
GRIDS = ((8, 7), (6, 9), (11, 6))
EXTRA = {"e.dt": dict(dt=1.2e13), "e.cons": dict(conserv_interp=1), "e.rk1": dict(RK=1), "e.cour": dict(constant_dt=0, Courant=0.5), "e.per": dict(shear_style=1, dt=6e12), "e.percons": dict(shear_style=1, dt=6e12, conserv_interp=1),
         "e.ale": dict(pure_shear_ALE=1, dt=6e12)}


class CHECK(Check):
    pid = "P10"
    level = "exploration"
    rule = ("scenario = a set of input switches (one or two) x a grid x a time step / interpolation variant; the real program is run for three steps without reseeding, and after every step the position and velocity of "
            "every surviving marker, and the box, are recomputed from the previous output and the written velocity field")
    assumptions = ["grids 8x7, 6x9 and 11x6 with cells that are not square", "markers are matched by index; reseeding is off", "steps split into several advection steps are followed only without a free surface"]

    def space(self, tier):
        r = []
        A = [f for f in list(FEATURES) + list(XFEATURES) if f not in NEVER]
        for f in A:
            for gi in range(len(GRIDS)):
                r.append(dict(f=[f], g=gi, e=""))
            for e in EXTRA:
                r.append(dict(f=[f], g=0, e=e))
        for a, b in itertools.combinations([f for f in FEATURES if f not in NEVER], 2):
            for gi in (0,) if tier == "quick" else range(len(GRIDS)):
                r.append(dict(f=[a, b], g=gi, e=""))
        return r

    def key(self, sc):
        return "+".join(sc["f"]) + "/%dx%d" % GRIDS[sc["g"]] + sc["e"]

    def job(self, sc):
        nx, nz = GRIDS[sc["g"]]
        return make(sc["f"], model=dict(dict(Nt=3, Nx=nx, Nz=nz, xmax=2.3e4, reseed_markers=0), **EXTRA.get(sc["e"], {})))

    def evaluate(self, scs):
        return pmap(self._batch, scs, 30)

    def _batch(self, scs):
        jobs = [self.job(sc) for sc in scs]
        run_jobs(jobs)
        res = []
        for sc, j in zip(scs, jobs):
            r = Res(); res.append(r)
            if not j.ok():
                r.note = "run does not complete: " + "+".join(sc["f"])
                j.clean(); continue
            S = j.snaps("out")
            for q, s in zip(S, S[1:]):
                if int(s["p.step"][0]) != int(q["p.step"][0]) + 1:
                    continue
                r.states += 1; r.trans += 1
                self.step(j, sc, q, s, r)
                if r.viol:
                    break
            j.clean()
        return res

    def step(self, j, sc, q, s, r):
        P = lambda n: int(s["p." + n][0])
        per, ale, surf = P("periodic_x"), P("pure_shear_ALE"), P("free_surface")
        g = Grid(q)
        dt = float(s["p.dt"][0])
        want = courant(dict(s, **{"p.dx": q["p.dx"], "p.dz": q["p.dz"]}), float(s["p.dt0"][0]))
        n = 1
        if want < 0.95 * dt:
            n = int(np.ceil(dt / want))
        if n > 1 and surf:
            r.note = "substeps with a free surface"
            return
        gq = G(q)
        a = G(s)
        U, W = a.U("u_in"), a.W("v_in")
        airu, airw = gq.U("BCu.type") == 30, gq.W("BCv.type") == 30
        N = min(len(q["k.x"]), len(s["k.x"]))
        live = q["k.phase"][:N] != -1
        x, z = q["k.x"][:N].copy(), q["k.z"][:N].copy()
        ok = live.copy()
        box = [g.x0, g.x1, g.z0, g.z1]
        for i in range(n):
            h = dt / n
            if ale == 1 and not surf:
                box = [b + h * v for b, v in zip(box, side_velocities(s, q))]
                g = Grid(dict(q, **{"p." + k: np.array([v]) for k, v in zip(("xmin", "xmax", "zmin", "zmax"), box)}))
            elif ale > 0:
                g = Grid(s)
            x, z, vx, vz, al = advect(g, x, z, U, W, airu, airw, h, per, P("conserv_interp"))
            ok &= al
        if ale <= 0 or not surf:
            r.sub += 1
            now = [float(s["p." + k][0]) for k in ("xmin", "xmax", "zmin", "zmax")]
            e = max(abs(p - b) for p, b in zip(box, now))
            if not e <= 1e-9 * (box[1] - box[0]):
                r.bad("step %d: the box did not move with its sides (off by %.3g cells)" % (P("step"), e / min(g.dx, g.dz)))
        # a marker that left may have been replaced by a new one
        inflow = ale == -1
        sl = s["k.phase"][:N] != -1
        r.sub += 1
        gone = ok & ~sl & ~(surf > 0) & ~inflow
        back = sl & live & ~ok & ~inflow
        near = np.minimum(np.minimum(np.abs(x - g.x0), np.abs(x - g.x1)) / g.dx, np.minimum(np.abs(z - g.z0), np.abs(z - g.z1)) / g.dz) < 1e-6
        if (gone & ~near).any():
            r.bad("step %d: %d markers vanish inside the model" % (P("step"), (gone & ~near).sum()))
        if (back & ~near).any() and not surf:
            r.bad("step %d: %d markers survive outside the model" % (P("step"), (back & ~near).sum()))
        m = ok & sl
        if inflow:
            m &= s["k.generation"][:N] == q["k.generation"][:N]
        for nm, A, B, sc_ in (("x", s["k.x"][:N], x, g.dx), ("z", s["k.z"][:N], z, g.dz), ("Vx", s["k.Vx"][:N], vx, max(np.abs(U).max(), np.abs(W).max())), ("Vz", s["k.Vz"][:N], vz, max(np.abs(U).max(), np.abs(W).max()))):
            r.sub += 1
            d = np.abs(A - B)[m]
            if nm == "x" and per:
                d = np.minimum(d, np.abs(d - (g.x1 - g.x0)))
            if d.size and not d.max() <= 1e-8 * sc_:
                r.bad("step %d: %s of %d markers of %d is not that of the flow (largest difference %.3g)" % (P("step"), nm, (d > 1e-8 * sc_).sum(), m.sum(), d.max() / sc_))
