"""P23 marker memory: every step changes the history carried by the markers exactly by what the grid solution says at their positions."""
import itertools
from mc import *
from space import FEATURES, XFEATURES, make, chaotic
from runner import Check, Res
from ref import G, Grid, weights, p2g, g2p, advect, side_velocities, courant

NEVER = {"x.anidbg", "x.surfdbg", "x.maps", "x.safe"}
GRIDS = ((8, 7), (6, 9), (11, 6))
EXTRA = {"e.el": dict(elastic=1, dt=4e11), "e.elsub": dict(elastic=1, thermal=1, subgrid_diffusion=2, dt=4e11), "e.rot2": dict(elastic=1, stress_rotation=2), "e.per": dict(shear_style=1, elastic=1, thermal=1, finite_strain=1),
         "e.still": dict(advection=0, elastic=1, compressible=1, thermal=1, track_T_P_x_z=1), "e.fs": dict(finite_strain=1, track_T_P_x_z=1, thermal=1, dt=6e12), "e.melt": dict(melting=1, thermal=0), "e.sten9": dict(interp_stencil=9, elastic=1, subgrid_diffusion=2, thermal=1)}
FIELDS = dict(X=("lin", 0.5, 5e-6, 4e-6), d=("lin", 1e-3, 1e-9, 3e-9), phi=("lin", 0.1, 2e-7, 1e-7), P=("lin", 5e8, 2e3, -3e4))
STRAINS = (("strain", ("pl", "pwl", "exp", "lin", "gbs", "el", "cst")), ("strain_el", ("el",)), ("strain_pl", ("pl",)), ("strain_pwl", ("pwl",)), ("strain_exp", ("exp",)), ("strain_lin", ("lin",)), ("strain_gbs", ("gbs",)))


class CHECK(Check):
    pid = "P23"
    level = "exploration"
    rule = ("scenario = a set of input switches (one or two) x a grid x a variant of the memory-related switches; the real program is run for three steps without reseeding, and after every step each quantity carried by "
            "every surviving marker is recomputed from its value at the previous output and from the grid solution of the step")
    assumptions = ["grids 8x7, 6x9 and 11x6 with cells that are not square", "markers are matched by index; reseeding is off", "steps split into several advection steps are followed only without a free surface"]

    def space(self, tier):
        r = []
        A = [f for f in list(FEATURES) + list(XFEATURES) if f not in NEVER]
        for f in A:
            for gi in range(len(GRIDS)):
                r.append(dict(f=[f], g=gi, e=""))
            for e in EXTRA:
                r.append(dict(f=[f], g=0, e=e))
        for a, b in itertools.combinations([f for f in FEATURES if f not in NEVER], 2):
            for gi in (0,) if tier == "quick" else range(len(GRIDS)):
                r.append(dict(f=[a, b], g=gi, e=""))
        return r

    def key(self, sc):
        return "+".join(sc["f"]) + "/%dx%d" % GRIDS[sc["g"]] + sc["e"]

    def job(self, sc):
        nx, nz = GRIDS[sc["g"]]
        fl = {} if len(sc["f"]) > 1 else FIELDS
        o = FEATURES.get(sc["f"][0]) or XFEATURES[sc["f"][0]]
        j = make(sc["f"], model=dict(dict(Nt=3, Nx=nx, Nz=nz, xmax=2.3e4, reseed_markers=0), **EXTRA.get(sc["e"], {})), fields={k: v for k, v in fl.items() if k not in o["fields"]})
        if j.model.get("subgrid_diffusion") and sc["g"] != 2:      # constant densities: the written density is the one of the update
            j.phases = [dict(p, density_model=0) if p.get("density_model", 1) == 1 else p for p in j.phases]
        if sc["e"] == "e.melt":
            j.phases = [dict(p, melt=40) for p in j.phases]
        return j

    def evaluate(self, scs):
        return pmap(self._batch, scs, 30)

    def _batch(self, scs):
        jobs = [self.job(sc) for sc in scs]
        run_jobs(jobs)
        res = []
        for sc, j in zip(scs, jobs):
            r = Res(); res.append(r)
            if not j.ok():
                r.note = "run does not complete: " + "+".join(sc["f"])
                j.clean(); continue
            S = j.snaps("out")
            for q, s in zip(S, S[1:]):
                if int(s["p.step"][0]) != int(q["p.step"][0]) + 1:
                    continue
                r.states += 1; r.trans += 1
                with np.errstate(all="ignore"):
                    self.step(j, sc, q, s, r)
                if r.viol:
                    break
            j.clean()
        return res

    def step(self, j, sc, q, s, r):
        P = lambda n: int(s["p." + n][0])
        step, per, sub, st0 = P("step"), P("periodic_x"), P("subgrid_diffusion"), P("interp_stencil")
        g, gq, a = Grid(q), G(q), G(s)
        dt = float(s["p.dt"][0])
        N = min(len(q["k.x"]), len(s["k.x"]))
        x, z = q["k.x"][:N], q["k.z"][:N]
        ql, sl = q["k.phase"][:N] != -1, s["k.phase"][:N] != -1
        live = ql & sl & (s["k.generation"][:N] == q["k.generation"][:N])
        if P("pure_shear_ALE") == -1 and P("advection"):          # places of lost markers are taken by incoming ones
            xx, zz, _, _, al = advect(g, x, z, a.U("u_in"), a.W("v_in"), gq.U("BCu.type") == 30, gq.W("BCv.type") == 30, dt, per, P("conserv_interp"))
            live &= al & (np.abs(s["k.x"][:N] - xx) < 1e-6 * g.dx) & (np.abs(s["k.z"][:N] - zz) < 1e-6 * g.dz)
        ph = np.where(live, s["k.phase"][:N], np.maximum(q["k.phase"][:N], 0))
        air = dict(c=gq.air, v=gq.airv)
        # the grid solution of cells that turned to air at the end of the step is gone
        touch = lambda kind, m: g2p(g, kind, x, z, m * 1.0, per) > 0
        if P("free_surface"):
            live &= ~touch("c", a.air & ~gq.air) & ~touch("v", a.airv & ~gq.airv)
        up1 = np.vstack([gq.air[1:], np.zeros((1, gq.ncx), bool)]) & ~gq.air
        bad = up1 | gq.air
        pad = np.pad(bad, 1)
        bad = np.any([pad[b:b + gq.ncz, c:c + gq.ncx] for b in (0, 1, 2) for c in (0, 1, 2)], axis=0)
        inner = ~touch("c", bad) if P("free_surface") else None
        K = lambda n: q["k." + n][:N]
        wts = {}

        def at(kind, f):
            f = np.where(air[kind], 0.0, f)
            return g2p(g, kind, x, z, f, per, air[kind])

        def up(kind, val, st):           # markers that existed at the beginning of the step
            m = ql
            if (kind, st) not in wts:
                wts[kind, st] = weights(g, kind, x[m], z[m], st, per)
            v = p2g(g, kind, x[m], z[m], val[m], st, per, 0, wts[kind, st])
            return np.where(np.isfinite(v), v, 0.0)

        def cmp(name, ref, mask=None, own=None, tol=1e-8):
            r.sub += 1
            m = live if mask is None else live & mask
            got = s["k." + name][:N]
            sc_ = max(np.abs(ref[m]).max() if m.any() else 0, np.abs(K(name)[m]).max() if m.any() else 0, own or 0, 1e-300)
            e = np.abs(got - ref)
            e = np.where(np.isfinite(e), e, np.where(np.isfinite(ref), np.inf, 0))
            e = np.where(m, e, 0)
            if not e.max() <= tol * sc_:
                k = int(e.argmax())
                r.bad("step %d: %s of %d of %d markers did not change by what the grid solution says (largest difference %.3g of %.3g, marker %d)" % (step, name, (e > tol * sc_).sum(), m.sum(), e.max(), sc_, k))

        def relax(val, kind, old, new, rate, st):
            """increment with subgrid relaxation of the marker towards its surroundings"""
            dm = -(val - at(kind, old)) * (1 - np.exp(-dt * rate))
            return val + dm + at(kind, new - old - up(kind, dm, st))
        mat = lambda n: s["mat." + n][ph]
        # temperature
        T0, T = a.C("T0_n"), a.C("T")
        if True:
            if sub >= 1:
                rate = mat("k") * (1 / g.dx ** 2 + 1 / g.dz ** 2) / (mat("Cp") * at("c", a.C("rho_n")))
                var = any(p.get("density_model", 1) or p.get("transmutation") for p in j.phases)          # the density has changed since the update
                cmp("T", relax(K("T"), "c", T0, T, rate, 1), inner, own=np.abs(T).max(), tol=1e-3 if var else 1e-8)
            else:
                cmp("T", K("T") + at("c", T - T0))
                if not P("thermal") and not P("fix_temperature"):
                    cmp("T", K("T"))
        p0, p = a.C("p0_n"), a.C("p_in")
        pmax = max(np.abs(p).max(), np.abs(p0).max())
        if sub >= 2:
            cmp("P", relax(K("P"), "c", p0, p, 1 / (at("c", a.C("eta_phys_n")) * mat("bet")), 1), own=pmax)
        else:
            cmp("P", K("P") + at("c", p - p0), own=pmax)
        if P("elastic"):
            xx0, xx, zz0, zz, xz0, xz = a.C("sxxd0"), a.C("sxxd"), a.C("szzd0"), a.C("szzd"), a.V("sxz0"), a.V("sxz")
            if sub == 2:
                rate = mat("G") / at("v", a.V("eta_phys_s"))
                X, Z, Y = relax(K("sxxd"), "c", xx0, xx, rate, st0), relax(K("szzd"), "c", zz0, zz, rate, st0), relax(K("sxz"), "v", xz0, xz, rate, st0)
            else:
                X, Z, Y = K("sxxd") + at("c", xx - xx0), K("szzd") + at("c", zz - zz0), K("sxz") + at("v", xz - xz0)
            U, W = a.U("u_in"), a.W("v_in")
            w = at("v", a.V("wxz"))
            rot = P("stress_rotation")
            if rot == 1:
                X, Z, Y = X - 2 * dt * Y * w, Z + 2 * dt * Y * w, Y - dt * (Z - X) * w
            elif rot == 2:
                c, n = np.cos(dt * w), np.sin(dt * w)
                X, Z, Y = c * c * X - 2 * c * n * Y + n * n * Z, n * n * X + 2 * c * n * Y + c * c * Z, c * n * (X - Z) + (c * c - n * n) * Y
            smax = max(np.abs(xx).max(), np.abs(zz).max(), np.abs(xz).max())
            if not P("chemical_production"):      # otherwise the stresses have been computed once more
                cmp("sxxd", X, own=smax); cmp("szzd", Z, own=smax); cmp("sxz", Y, own=smax)
        if not P("chemical_diffusion") and not P("chemical_production") and not any(p.get("reac_soft") for p in j.phases):
            cmp("X", np.clip(K("X"), 0, 1), own=1)
        cmp("X", np.clip(K("X") + at("c", a.C("X_n") - a.C("X0_n")), 0, 1), own=1)
        if not P("melting"):
            cmp("phi", K("phi"), own=1)
        elif not P("thermal"):                   # otherwise the melt fraction on the grid has been updated once more
            cmp("phi", np.clip(K("phi") + at("c", a.C("phi_n") - a.C("phi0_n")), 0, 1), own=1)
        if not P("free_surface"):                # density of surface cells is scaled with their fill
            cmp("rho", K("rho") + at("c", a.C("rho_n") - a.C("rho0_n")))
        cmp("d", at("c", a.C("d_n")), own=1e-12)
        if P("compressible"):
            dmax = np.abs(a.C("divth_n")).max()
            cmp("divth", K("divth") + at("c", a.C("divth_n") - a.C("divth0_n")), own=dmax)
        if P("track_T_P_x_z"):
            for n in "TP":
                cmp(n + "max", np.maximum(K(n + "max"), s["k." + n][:N]))
            for n in ("x0", "z0", "T0", "P0"):
                cmp(n, K(n))
        cmp("noise", K("noise"))
        if not P("advection"):
            return
        # ----- kinematic memory
        U, W = a.U("u_in"), a.W("v_in")
        if P("anisotropy"):
            dudx, dvdz = (U[1:-1, 1:] - U[1:-1, :-1]) / g.dx, (W[1:, 1:-1] - W[:-1, 1:-1]) / g.dz
            dudz, dvdx = (U[1:] - U[:-1]) / g.dz, (W[:, 1:] - W[:, :-1]) / g.dx
            L = [g2p(g, kd, x, z, f, per, air[kd], True) for kd, f in (("c", dudx), ("v", dudz), ("v", dvdx), ("c", dvdz))]
            nx, nz = K("nx"), K("nz")
            w = (L[0] - L[3]) * nx * nz + L[2] * nz * nz - L[1] * nx * nx
            mx, mz = nx - dt * w * nz, nz + dt * w * nx
            m = np.hypot(mx, mz)
            cmp("nx", mx / m, own=1); cmp("nz", mz / m, own=1)
        want = courant(dict(s, **{"p.dx": q["p.dx"], "p.dz": q["p.dz"]}), float(s["p.dt0"][0]))
        n = int(np.ceil(dt / want)) if want < 0.95 * dt else 1
        if n > 1 and (P("free_surface") or P("pure_shear_ALE") == -1):
            r.note = "substeps with a free surface or inflow"
            return
        ale, surf = P("pure_shear_ALE"), P("free_surface")
        airu, airw = gq.U("BCu.type") == 30, gq.W("BCv.type") == 30
        box = [g.x0, g.x1, g.z0, g.z1]
        ok = np.ones(N, bool)
        acc = {k: K(k).copy() for k, _ in STRAINS}
        F = [K(k).copy() for k in ("Fxx", "Fxz", "Fzx", "Fzz")] if P("finite_strain") else None
        h = dt / n
        for i in range(n):
            if ale == 1 and not surf:
                box = [b + h * v for b, v in zip(box, side_velocities(s, q))]
                g = Grid(dict(q, **{"p." + k: np.array([v]) for k, v in zip(("xmin", "xmax", "zmin", "zmax"), box)}))
            elif ale > 0:
                g = Grid(s)
            x, z, _, _, al = advect(g, x, z, U, W, airu, airw, h, per, P("conserv_interp"))
            ok &= al
            if n == 1:                            # the written position, so that differences in it are not counted here
                x, z = np.where(ok, s["k.x"][:N], x), np.where(ok, s["k.z"][:N], z)
            ip, jp = np.clip(np.ceil((x - g.xc[0]) / g.dx).astype(int) - 1, 0, g.Nx - 3), np.clip(np.ceil((z - g.zc[0]) / g.dz).astype(int) - 1, 0, g.Nz - 3)
            fx, fz = (x - g.xc[ip]) / g.dx, (z - g.zc[jp]) / g.dz
            ws = [((1 - fx) * (1 - fz), jp, ip), (fx * (1 - fz), jp, ip + 1), ((1 - fx) * fz, jp + 1, ip), (fx * fz, jp + 1, ip + 1)]
            den = sum(np.where(air["c"][b, c], 0, w) for w, b, c in ws)
            for k, parts in STRAINS:
                f = h * sum(a.C("eII_" + e) for e in parts)
                num = sum(np.where(air["c"][b, c], 0, w * f[b, c]) for w, b, c in ws)
                acc[k] += np.where(den > 1e-13, num / den, num)
            if P("finite_strain"):
                dudx, dvdz = (U[1:-1, 1:] - U[1:-1, :-1]) / g.dx, (W[1:, 1:-1] - W[:-1, 1:-1]) / g.dz
                dudz, dvdx = (U[1:] - U[:-1]) / g.dz, (W[:, 1:] - W[:, :-1]) / g.dx
                ga = lambda kind, f: g2p(g, kind, x, z, f, per, air[kind])
                A, B, C, D = 1 + h * ga("c", dudx), h * ga("v", dudz), h * ga("v", dvdx), 1 + h * ga("c", dvdz)
                F = [A * F[0] + B * F[2], A * F[1] + B * F[3], C * F[0] + D * F[2], C * F[1] + D * F[3]]
        emax = h * max(np.abs(a.C("eII_" + e)).max() for e in STRAINS[0][1])
        edge = np.ones(N, bool)
        for k, _ in STRAINS:
            cmp(k, acc[k], ok & edge, own=emax)
        if P("finite_strain"):
            for k, f in zip(("Fxx", "Fxz", "Fzx", "Fzz"), F):
                cmp(k, f, ok, own=1)
