"""P11 marker population: rock that runs out of markers is refilled with what is next to it, material entering the box continues what is at its edge, and nothing else changes."""
import itertools
from mc import *
from space import FEATURES, XFEATURES, make, LOOSE, TOPO, STEP
from runner import Check, Res
from ref import Grid, g2p

NEVER = {"x.anidbg", "x.surfdbg", "x.maps", "x.safe"}
GRIDS = ((8, 7), (6, 9))
# markers per cell side and prescribed minimum per cell
DENS = {"44": dict(), "44m": dict(min_part_cell=20), "22": dict(Nx_part=2, Nz_part=2, min_part_cell=4), "22m": dict(Nx_part=2, Nz_part=2, min_part_cell=16), "33": dict(Nx_part=3, Nz_part=3, min_part_cell=9),
        "42": dict(Nx_part=4, Nz_part=2, min_part_cell=11), "25": dict(Nx_part=2, Nz_part=5, min_part_cell=8), "21": dict(Nx_part=2, Nz_part=1, min_part_cell=8), "11": dict(Nx_part=1, Nz_part=1, min_part_cell=4),
        "12m": dict(Nx_part=1, Nz_part=2, min_part_cell=8)}
FAST = dict(dt=6e12)
DENSITIES = dict(DENS)
FIELDS = dict(X=("lin", 0.5, 5e-6, 4e-6), d=("lin", 1e-3, 1e-9, 3e-9), phi=("lin", 0.1, 2e-7, 1e-7), P=("lin", 5e8, 2e3, -3e4), noise=("lin", 0.1, 1e-6, -2e-6))
# models in which holes are made
HOLES = {"rest": ((), {}), "grid": ((), dict(direct_neighbour=0, marker_noise=1)), "per": (("simple",), {}), "surf": (("surf",), {}), "sed": (("surfsed",), dict(dt=6e12, surf_diff=1e-5)), "step": (("x.stepsed",), dict(dt=2e12, surf_diff=1e-5)),
         "all": (("fstrain", "track", "aniso", "elastic"), dict(direct_neighbour=1))}
COPY = ("phase", "dual", "Vx", "Vz", "strain", "strain_el", "strain_pl", "strain_pwl", "strain_exp", "strain_lin", "strain_gbs", "divth", "rho")
FIELD = (("d", "c", "d_n"), ("T", "c", "T"), ("P", "c", "p_in"), ("phi", "c", "phi_n"), ("X", "c", "X_n"), ("noise", "c", "noise_n"), ("sxxd", "c", "sxxd"), ("szzd", "c", "szzd"), ("sxz", "v", "sxz"))
HIST = (("finite_strain", ("Fxx", "Fxz", "Fzx", "Fzz")), ("track_T_P_x_z", ("T0", "P0", "x0", "z0", "Tmax", "Pmax")), ("anisotropy", ("nx", "nz")))


class CHECK(Check):
    pid = "P11"
    level = "exploration"
    rule = ("configurations: one or two input switches x grid x marker density and prescribed minimum; holes: in small models every rectangle of quarter cells up to the bound (or every thinning k mod m) loses its markers "
            "before a refill; every call that counts, refills or lets in markers is compared, marker by marker, with the set of markers that has to exist afterwards")
    assumptions = ["grids 8x7 and 6x9; holes on 5x5 and 6x5", "any of several equally near markers may be continued"]

    def space(self, tier):
        r = []
        A = [f for f in list(FEATURES) + list(XFEATURES) if f not in NEVER]
        for f in A:
            for g in range(len(GRIDS)):
                for d in DENS if tier != "quick" else ("44", "44m", "22", "42") if g == 0 else ("22m", "33"):
                    r.append(dict(k="cfg", f=[f], g=g, d=d, fast=d in ("44", "22")))
        B = [f for f in FEATURES if f not in NEVER]
        for i, (a, b) in enumerate(itertools.combinations(B, 2)):
            for d in (("44m", "22")[i % 2],) if tier == "quick" else ("44m", "22", "42"):
                r.append(dict(k="cfg", f=[a, b], g=i % 2, d=d, fast=1))
        for f in ("base", "inflow", "simple", "surf", "surfsed", "x.aniangin", "ale", "fstrain", "track", "aniso", "thermal"):
            for g, d, fast in itertools.product(range(len(GRIDS)), DENS, (0, 1)):
                q = dict(k="cfg", f=[f], g=g, d=d, fast=fast)
                if self.key(q) not in {self.key(s) for s in r if s["f"] == [f]}:
                    r.append(q)
        for f in (["inflow"], ["inflow", "fstrain"], ["inflow", "track"], ["inflow", "aniso"], ["inflow", "elastic"], ["inflow", "fstrain", "track", "aniso"], ["x.aniangin"], ["x.insurf"], ["x.insurf", "track", "fstrain"], ["simple", "fstrain", "track"], ["surfsed", "fstrain", "track"]):
            for g, d in itertools.product(range(len(GRIDS)), DENS):
                r.append(dict(k="cfg", f=f, g=g, d=d, fast=2))
        for h in HOLES:
            nx, nz = (5, 5) if tier == "quick" else (6, 5)
            W, H = 2 * (nx - 1), 2 * (nz - 1)
            for w, t in itertools.product(range(1, W + 1), range(1, H + 1)):
                if tier == "quick" and not (w <= 5 and t <= 5 or w == W or t == H):
                    continue
                for i, l in itertools.product(range(0, W - w + 1), range(0, H - t + 1)):
                    if tier == "quick" and h not in ("rest", "per") and (i + l) % 2:
                        continue
                    r.append(dict(k="hole", h=h, n=[nx, nz], r=[i, w, l, t], m=[0, 0]))
            for m in range(2, 9):
                for q in range(m):
                    r.append(dict(k="hole", h=h, n=[nx, nz], r=[0, W, 0, H], m=[m, q]))
        return r

    def key(self, sc):
        if sc["k"] == "hole":
            return "hole/%s/%dx%d/%d+%d,%d+%d/%d:%d" % (sc["h"], *sc["n"], *sc["r"], *sc["m"])
        return "+".join(sc["f"]) + "/%dx%d/%s%s" % (*GRIDS[sc["g"]], sc["d"],  ("", "f", "fs")[sc["fast"]])

    def job(self, sc):
        if sc["k"] == "cfg":
            nx, nz = GRIDS[sc["g"]]
            o = FEATURES.get(sc["f"][0]) or XFEATURES[sc["f"][0]]
            m = dict(Nt=3, Nx=nx, Nz=nz, xmax=2.3e4, nit_max=2, writer=0, **LOOSE)
            m.update(DENS[sc["d"]])
            if sc["fast"]:
                m.update(FAST)
            return make(sc["f"], model=m, fields={k: v for k, v in FIELDS.items() if k not in o["fields"]} if len(sc["f"]) == 1 or sc["fast"] == 2 else {}, hooks=("count",),
                        extra=["env MC_STAMP 1"] if sc["fast"] == 2 else [])
        names, mod = HOLES[sc["h"]]
        nx, nz = sc["n"]
        i, w, l, t = sc["r"]
        W, H = 2 * (nx - 1), 2 * (nz - 1)
        cull = "1,%.9f,%.9f,%.9f,%.9f,%d,%d" % (i / W - (i == 0), (i + w) / W + (i + w == W), l / H - (l == 0), (l + t) / H + (l + t == H), *sc["m"])
        j = make(list(names), model=dict(dict(Nt=2, Nx=nx, Nz=nz, xmax=2.3e4, nit_max=1, writer=0, min_part_cell=8, Nx_part=4, Nz_part=4, dt=2e11, **LOOSE), **mod), fields=FIELDS, hooks=("count",),
                 extra=["env MC_CULL " + cull, "env MC_STAMP 1"])
        return j

    def evaluate(self, scs):
        return pmap(self._batch, scs, 30)

    def _batch(self, scs):
        jobs = [self.job(sc) for sc in scs]
        run_jobs(jobs)
        res = []
        for sc, j in zip(scs, jobs):
            r = Res(); res.append(r)
            self.judge(sc, j, r)
            j.clean()
        return res

    def judge(self, sc, j, r):
        S = [s for s in j.snaps(None) if s.tag.startswith(("count0", "inflow"))]
        starved = False
        n = 0
        while n < len(S):
            a, b = S[n], S[n + 1] if n + 1 < len(S) else None
            what = a.tag.split(":")[0]
            if what == "count0":
                starved = self.refill(a, b, r)
            else:
                starved = self.inflow(a, b, r)
            r.states += 1; r.trans += 1
            if r.viol:
                return
            n += 2
        if not j.ok():
            if len(S) % 2 == 0:
                if sc["k"] == "hole" and len(S) < 6:
                    r.bad("the model with a hole does not run")
                r.note = "run does not complete: " + "+".join(sc.get("f", [sc.get("h", "")]))
            elif not starved:
                r.bad("%s stops the run although there is room%s" % (("the inflow", "") if what == "inflow" else ("the refill", " and every depleted quarter cell has markers nearby")))
            else:
                r.note = "no marker is left near a depleted quarter cell or there is no room: the run stops"

    # ------------------------------------------------------------------ refill
    def wanted(self, a):
        """quarter cells that have to receive a marker: position, quarter-cell index, candidates"""
        p = lambda n: int(a["p." + n][0])
        g = Grid(a)
        T, U = 2 * (g.Nx + 1), 2 * (g.Nz + 1)
        per = p("periodic_x")
        x, z, ph = a["k.x"], a["k.z"], a["k.phase"]
        live = np.flatnonzero(ph >= 0)
        q = lambda v, v0, d, n: np.clip(np.ceil((v - (v0 - 0.75 * d)) / d * 2 + 0.5).astype(int) - 1, 0, n - 1)
        ic, jc = q(x[live], g.x0, g.dx, T), q(z[live], g.z0, g.dz, U)
        # a marker on the line between two quarter cells counts for either
        edge = np.zeros(len(live), bool)
        for v, v0, d in ((x[live], g.x0, g.dx), (z[live], g.z0, g.dz)):
            f = (v - v0) / d * 2
            edge |= np.abs(f - np.rint(f)) < 1e-9
        cells = {}
        for k, i, l in zip(live, ic, jc):
            cells.setdefault((i, l), []).append(k)
        lim = int(a["k.N"][2]) // 4
        air = (a["m.BCt.type"] == 30).reshape(g.Nz - 1, g.Nx - 1)
        surf = p("free_surface")
        out, starved = [], False
        for i in range(2, T - 2):
            for l in range(2, U - 2):
                ci, cl = (i - 2) // 2, (l - 2) // 2
                if air[cl, ci] or len(cells.get((i, l), ())) >= lim:
                    continue
                near = []
                for di in range(-2, 3):
                    for dl in range(-2, 3):
                        ii, sh = i + di, 0.0
                        if per and ii < 2:
                            ii, sh = ii + T - 4, -1.0
                        elif per and ii > T - 3:
                            ii, sh = ii - (T - 4), 1.0
                        near += [(k, sh * (g.x1 - g.x0)) for k in cells.get((ii, l + dl), ())]
                if not near:
                    starved = True
                nx, nz = g.x0 + (i - 2) * g.dx / 2 + g.dx / 4, g.z0 + (l - 2) * g.dz / 2 + g.dz / 4
                sed = False
                if surf:
                    h = a["t.a"][ci] * nx + a["t.b"][ci]
                    if not nz < h:
                        continue
                    sed = p("surface_processes") > 0 and nz > a["ti.a"][ci] * nx + a["ti.b"][ci]
                out.append((nx, nz, near, sed))
        return g, out, starved, edge.any()

    def refill(self, a, b, r):
        p = lambda n: int(a["p." + n][0])
        n0 = len(a["k.x"])
        if not int(a["a.reseed"][0]):
            if b is not None:
                self.same(a, b, np.ones(n0, bool), r, "a count")
                if len(b["k.x"]) != n0:
                    r.bad("a count changes the number of markers from %d to %d" % (n0, len(b["k.x"])))
            return False
        g, want, starved, edge = self.wanted(a)
        if edge:
            r.sub += 1
        dead = np.flatnonzero(a["k.phase"] < 0)
        full = n0 + max(0, len(want) - len(dead)) > int(a["k.N"][1])
        if b is None:
            return starved or full
        if starved:
            r.bad("a quarter cell with no marker near it is left as it is"); return False
        if full:
            r.bad("%d markers added beyond the room for %d" % (len(want), int(a["k.N"][1]))); return False
        n1 = len(b["k.x"])
        used = np.flatnonzero((a["k.phase"] < 0) & (b["k.phase"][:n0] >= 0))
        new = np.concatenate([used, np.arange(n0, n1)])
        r.sub += len(want)
        if len(new) != len(want):
            r.bad("%d markers added, %d quarter cells are depleted" % (len(new), len(want))); return False
        if n1 - n0 != max(0, len(want) - len(dead)):
            r.bad("%d markers appended although %d places were free for %d" % (n1 - n0, len(dead), len(want))); return False
        keep = np.ones(n0, bool); keep[used] = False
        self.same(a, b, keep, r, "the refill")
        if r.viol or not want:
            return False
        X, Z = np.array([w[0] for w in want]), np.array([w[1] for w in want])
        o = np.lexsort((np.rint((b["k.z"][new] - g.z0) / g.dz * 8), np.rint((b["k.x"][new] - g.x0) / g.dx * 8)))
        new = new[o]
        e = np.maximum(np.abs(b["k.x"][new] - X) / g.dx, np.abs(b["k.z"][new] - Z) / g.dz)
        if e.max() > 1e-9:
            i = int(e.argmax())
            r.bad("a marker is added at (%g, %g), not at the centre (%g, %g) of the depleted quarter cell" % (b["k.x"][new[i]], b["k.z"][new[i]], X[i], Z[i])); return False
        if (b["k.generation"][new] != 1).any():
            r.bad("an added marker is not marked as such"); return False
        direct = p("direct_neighbour")
        names = list(COPY) + [n for o, l in HIST if p(o) for n in l] + ([n for n, _, _ in FIELD] if direct else [])
        sd = (p("surf_ised1"), p("surf_ised2"))
        L = g.x1 - g.x0
        for k, (nx, nz, near, sed) in zip(new, want):
            c = np.array([q for q, _ in near]); sh = np.array([s for _, s in near])
            d = np.hypot(a["k.x"][c] + sh - nx, a["k.z"][c] - nz)
            if sed:
                m = np.isin(a["k.phase"][c], sd)
                if m.any():
                    c, d = c[m], d[m]
                else:
                    d = 0 * d
            c = c[d <= d.min() + 1e-7 * g.dx]
            ok = np.ones(len(c), bool)
            for n in names:
                e = a["k." + n][c] == b["k." + n][k]
                if b["k." + n][k] != b["k." + n][k]:
                    e = np.isnan(a["k." + n][c])
                if not (ok & e).any():
                    r.bad("the marker added at (%g, %g) has %s %.9g, the nearest marker has %.9g" % (nx, nz, n, b["k." + n][k], a["k." + n][c[ok]][0])); return False
                ok &= e
        if not direct:
            air = dict(c=np.isin(a["m.BCp.type"], (30, 31)).reshape(g.Nz - 1, g.Nx - 1), v=(a["m.BCg.type"] == 30).reshape(g.Nz, g.Nx))
            shp = dict(c=(g.Nz - 1, g.Nx - 1), v=(g.Nz, g.Nx))
            for n, kd, f in FIELD:
                F = np.where(air[kd], 0.0, a["m." + f].reshape(shp[kd]))
                v = g2p(g, kd, X, Z, F, p("periodic_x"), air[kd], True)
                lost = g2p(g, kd, X, Z, (~air[kd]) * 1.0, p("periodic_x"), air[kd], True) < 0.5     # nothing but air around
                e = np.abs(b["k." + n][new] - v) - 1e-9 * np.abs(F).max(initial=1e-300)
                e[lost] = -1
                if not (e <= 0).all():
                    i = int(np.nanargmax(np.where(np.isnan(e), np.inf, e)))
                    r.bad("the marker added at (%g, %g) has %s %.9g, the grid has %.9g there" % (X[i], Z[i], n, b["k." + n][new[i]], v[i])); return False
        return False

    def same(self, a, b, keep, r, what, but=()):
        n0 = len(keep)
        for n in a:
            if n[:2] != "k." or n == "k.N" or n in but:
                continue
            u, v = a[n], b[n][:n0]
            if len(u) != n0 or len(v) != n0:
                if len(u) == n0:
                    r.bad("%s loses %d markers" % (what, n0 - len(v))); return
                continue
            m = keep & ~((u == v) | (u != u) & (v != v))
            if m.any():
                i = int(m.argmax())
                r.bad("%s changes %s of marker %d from %.9g to %.9g" % (what, n[2:], i, u[i], v[i])); return

    # ------------------------------------------------------------------ inflow
    def inflow(self, a, b, r):
        p = lambda n: int(a["p." + n][0])
        g = Grid(a)
        x, live, n0 = a["k.x"], a["k.phase"] != -1, len(a["k.x"])
        h = g.dx / 2
        near = lambda v: np.abs(x - v) < 1e-9 * g.dx
        if int(a["a.flag"][0]) == 0:
            if b is None:
                return False
            self.same(a, b, np.ones(n0, bool), r, "watching the boundary columns", but=("k.intag",))
            edge = near(g.x0) | near(g.x0 + h) | near(g.x1 - h) | near(g.x1)
            on = live & ((x >= g.x0) & (x <= g.x0 + h) | (x >= g.x1 - h) & (x <= g.x1))
            r.sub += int(on.sum())
            m = ((b["k.intag"][:n0] == 1) != on) & ~edge
            if m.any() and not r.viol:
                r.bad("a marker at x = %g is %s as one of a boundary column" % (x[m][0], "not watched" if on[m][0] else "watched"))
            return
        tag = a["k.intag"] == 1
        west = live & tag & (x >= g.x0 + h) & (x <= g.x0 + g.dx)
        east = live & tag & (x >= g.x1 - g.dx) & (x <= g.x1 - h)
        edge = live & tag & (near(g.x0 + h) | near(g.x0 + g.dx) | near(g.x1 - g.dx) | near(g.x1 - h))
        src = [(k, -h) for k in np.flatnonzero(west)] + [(k, h) for k in np.flatnonzero(east)]
        room = int(a["k.N"][1]) - n0 + int((~live).sum())
        if b is None:
            return len(src) > room - edge.sum()
        if len(src) - edge.sum() > room:
            r.bad("%d markers enter where there is room for %d" % (len(src), room)); return
        n1 = len(b["k.x"])
        dead = np.flatnonzero(~live)
        used = np.flatnonzero(~live & (b["k.phase"][:n0] != -1))
        new = np.concatenate([used, np.arange(n0, n1)])
        r.sub += len(src)
        if abs(len(new) - len(src)) > edge.sum():
            r.bad("%d markers enter, %d left the boundary columns inwards" % (len(new), len(src))); return
        if n1 > n0 and len(used) < len(dead):
            r.bad("markers are appended although places are free"); return
        keep = np.ones(n0, bool); keep[used] = False
        self.same(a, b, keep, r, "the inflow", but=("k.intag",))
        if r.viol or edge.any() or not src:
            return
        key = lambda X, Z: np.lexsort((np.rint(Z / g.dz * 1e7), np.rint((X - g.x0) / g.dx * 1e7)))
        sx = np.array([x[k] + d for k, d in src]); sk = np.array([k for k, _ in src]); sz = a["k.z"][sk]
        o = key(sx, sz); sx, sz, sk = sx[o], sz[o], sk[o]
        new = new[key(b["k.x"][new], b["k.z"][new])]
        e = np.maximum(np.abs(b["k.x"][new] - sx) / g.dx, np.abs(b["k.z"][new] - sz) / g.dz)
        if e.max() > 1e-9:
            i = int(e.argmax())
            r.bad("a marker enters at (%g, %g), not half a cell behind the one it follows (%g, %g)" % (b["k.x"][new[i]], b["k.z"][new[i]], sx[i], sz[i])); return
        names = list(COPY) + [n for n, _, _ in FIELD] + [n for o, l in HIST if p(o) and o != "anisotropy" for n in l]
        if p("anisotropy") and not p("marker_aniso_angle"):
            names += ["nx", "nz"]
        for n in names:
            u, v = a["k." + n][sk], b["k." + n][new]
            m = ~((u == v) | (u != u) & (v != v))
            if m.any():
                i = int(m.argmax())
                r.bad("an entering marker has %s %.9g, the one it follows %.9g" % (n, v[i], u[i])); return
