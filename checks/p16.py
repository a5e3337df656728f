"""P16 output: every dataset of every written file is the state of the run in physical units, the right files are written, and writing does not disturb the run."""
import itertools
from mc import *
from space import FEATURES, XFEATURES, make, LOOSE
from p12 import SHAPES, PROC, MOVE, MORE
from runner import Check, Res
from ref import G, Grid, weights, p2g

NEVER = {"x.anidbg", "x.surfdbg"}
GRIDS = ((8, 7), (6, 9))
FIELDS = dict(X=("lin", 0.5, 5e-6, 4e-6), d=("lin", 1e-3, 1e-9, 3e-9), phi=("lin", 0.1, 2e-7, 1e-7), P=("lin", 5e8, 2e3, -3e4))
# dataset -> (array of the run, unit)
GRID = {"Vertices/rho_s": ("m.rho_s", "rho"), "Centers/rho_n": ("m.rho_n", "rho"), "Vertices/eta_s": ("m.eta_phys_s", "eta"), "Centers/eta_n": ("m.eta_phys_n", "eta"),
        "VxNodes/Vx": ("m.u_in", "V"), "VzNodes/Vz": ("m.v_in", "V"), "Centers/P": ("m.p_in", "S"), "Centers/sxxd": ("m.sxxd", "S"), "Centers/szzd": ("m.szzd", "S"),
        "Vertices/sxz": ("m.sxz", "S"), "Centers/exxd": ("m.exxd", "E"), "Centers/ezzd": ("m.ezzd", "E"), "Vertices/exz": ("m.exz", "E"), "Centers/T": ("m.T", "T"),
        "Centers/divu": ("m.div_u", "E"), "Centers/divu_el": ("m.div_u_el", "E"), "Centers/divu_pl": ("m.div_u_pl", "E"), "Centers/divu_th": ("m.divth0_n", "E"), "Centers/divu_r": ("m.div_u_r", "E"),
        "Centers/d": ("m.d_n", "L"), "Centers/phi": ("m.phi_n", ""), "Centers/OverS": ("m.OverS_n", "S"), "Centers/friction": ("m.fric_n", ""), "Centers/cohesion": ("m.C_n", "S"),
        "Model/xg_coord": ("m.xg_coord", "L"), "Model/zg_coord": ("m.zg_coord", "L"), "Model/xc_coord": ("m.xc_coord", "L"), "Model/zc_coord": ("m.zc_coord", "L"),
        "Model/xvz_coord": ("m.xvz_coord", "L"), "Model/zvx_coord": ("m.zvx_coord", "L")}
GRID.update({"Centers/eII_" + n: ("m.eII_" + n, "E") for n in ("el", "pl", "pwl", "exp", "lin", "gbs")})
FLAG = {"Centers/BCp": "m.BCp.type", "Flags/tag_s": "m.BCg.type", "Flags/tag_n": "m.BCp.type", "Flags/tag_u": "m.BCu.type", "Flags/tag_v": "m.BCv.type", "Flags/tag_t_fine": "m.BCt_fine.type"}
P2G = {"Centers/" + n: (n, "") for n in ("strain", "strain_el", "strain_pl", "strain_pwl", "strain_exp", "strain_lin", "strain_gbs")}
FS = {"Centers/" + n: (n, "") for n in ("Fxx", "Fxz", "Fzx", "Fzz")}
ANI = {"Centers/nx": ("nx", ""), "Centers/nz": ("nz", "")}
TRK = {"Centers/T0": ("T0", "T"), "Centers/P0": ("P0", "S"), "Centers/Tmax": ("Tmax", "T"), "Centers/Pmax": ("Pmax", "S"), "Centers/x0": ("x0", "L"), "Centers/z0": ("z0", "L")}
TOPO = {"Topo/z_grid": ("t.height", "L"), "Topo/Vx_grid": ("t.vx", "V"), "Topo/Vz_grid": ("t.vz", "V"), "Topo/x_mark": ("tc.x", "L"), "Topo/z_mark": ("tc.z", "L"), "Topo/Vx_mark": ("tc.Vx", "V"), "Topo/Vz_mark": ("tc.Vz", "V")}
PART = {"Particles/x": ("x", "L"), "Particles/z": ("z", "L"), "Particles/T": ("T", "T"), "Particles/P": ("P", "S"), "Particles/Vx": ("Vx", "V"), "Particles/Vz": ("Vz", "V"), "Particles/sxxd": ("sxxd", "S"), "Particles/sxz": ("sxz", "S")}
SERIES = {"TimeSeries/" + n: "ts." + n for n in ("Time_time", "Short_time", "Work_time", "Uthermal_time", "Uelastic_time", "T_mean_time", "P_mean_time", "sxxd_mean_time", "szzd_mean_time", "sxz_mean_time",
                                                "Tii_mean_time", "exxd_mean_time", "ezzd_mean_time", "exz_mean_time", "Eii_mean_time")}
ITER = ("rx_abs", "rz_abs", "rp_abs")


class CHECK(Check):
    pid = "P16"
    level = "exploration"
    rule = ("scenario = a set of input switches (one or two) x grid x output interval; the real program writes its files, every dataset of every file is read back and compared, value by value, with the state of the run at that "
            "moment; the same run is repeated without writing anything and must reach the same states")
    assumptions = ["grids 8x7 and 6x9", "values compared in single precision (relative 1e-6)", "a visual cell may show any of the phases of equally near markers"]

    def space(self, tier):
        r = []
        A = [f for f in list(FEATURES) + list(XFEATURES) if f not in NEVER]
        for f in A:
            for g in range(len(GRIDS)):
                for st in (1, 2):
                    r.append(dict(f=[f], g=g, st=st))
        B = [f for f in FEATURES if f not in NEVER]
        for i, (a, b) in enumerate(itertools.combinations(B, 2)):
            for st in ((1,) if tier == "quick" else (1, 2, 3)):
                r.append(dict(f=[a, b], g=i % 2, st=st))
        for sh, pr, mv in itertools.product(SHAPES, PROC, MOVE):
            for mo in ("zero",) if tier == "quick" and mv == "cour" else ("",) if tier == "quick" else MORE:
                r.append(dict(f=["surf"], g=0, st=1, sh=sh, pr=pr, mv=mv, mo=mo))
        return r

    def key(self, sc):
        if "sh" in sc:
            return "surface/%s/%s/%s/%s" % (sc["sh"], sc["pr"], sc["mv"], sc["mo"] or "std")
        return "+".join(sc["f"]) + "/%dx%d/%d" % (*GRIDS[sc["g"]], sc["st"])

    def job(self, sc, write=1):
        nx, nz = GRIDS[sc["g"]]
        if "sh" in sc:
            j = make(["surf"], model=dict(dict(Nt=3, Nx=8, Nz=7, xmax=2.3e4, writer=1, writer_step=1, writer_markers=1, nit_max=2, **LOOSE), **PROC[sc["pr"]], **MOVE[sc["mv"]], **MORE[sc["mo"]]),
                     hooks=("out", "outp", "h5") if write else ("out", "outp"), realwrite=write)
            j.topo = SHAPES[sc["sh"]]
            return j
        o = FEATURES.get(sc["f"][0]) or XFEATURES[sc["f"][0]]
        m = dict(Nt=sc["st"] + (2 if len(sc["f"]) == 1 else 1), Nx=nx, Nz=nz, xmax=2.3e4, writer=1, writer_step=sc["st"], writer_markers=1, nit_max=2, **LOOSE)
        if sc["g"] == 1:
            m.update(writer_subfolder="sub")
        return make(sc["f"], model=m, fields={k: v for k, v in FIELDS.items() if k not in o["fields"]} if len(sc["f"]) == 1 else {},
                    hooks=("out", "outp", "h5") if write else ("out", "outp"), realwrite=write)

    def evaluate(self, scs):
        return pmap(self._batch, scs, 20)

    def _batch(self, scs):
        jobs = [self.job(sc) for sc in scs]
        quiet = [self.job(sc, 0) for sc in scs]
        run_jobs(jobs + quiet)
        res = []
        for sc, j, q in zip(scs, jobs, quiet):
            r = Res(); res.append(r)
            if not j.ok() or not q.ok():
                if j.ok() != q.ok():
                    r.bad("the run %s only when its files are written" % ("completes" if j.ok() else "fails"))
                r.note = "run does not complete: " + "+".join(sc["f"])
            else:
                self.compare(sc, j, q, r)
            j.clean(); q.clean()
        return res

    def compare(self, sc, j, q, r):
        A, B = j.snaps(None), q.snaps(None)
        want = [k for k in range(0, int(j.model["Nt"]) + 1) if k % sc["st"] == 0]
        S = [s for s in A if s.tag.startswith("out:")]
        P = [s for s in A if s.tag.startswith("outp:")]
        H, HP = [s for s in A if s.tag == "h5"], [s for s in A if s.tag == "h5p"]
        steps = [int(s["p.step"][0]) for s in S]
        if steps != want or [int(s["p.step"][0]) for s in P] != want:
            r.bad("files are written at steps %s, prescribed %s" % (steps, want)); return
        for s, h in zip(S, H):
            r.states += 1; r.trans += 1
            self.grid(s, h, r)
            if r.viol:
                return
        for s, h in zip(P, HP):
            r.states += 1
            self.part(s, h, r)
            if r.viol:
                return
        QS = [s for s in B if s.tag.startswith("out")]
        for s, t in zip([s for s in A if s.tag.startswith("out")], QS):
            r.sub += 1
            for k in s:
                if k[0] in "mkt" and not np.array_equal(s[k], t[k], equal_nan=True):
                    r.bad("step %d: %s differs when nothing is written" % (int(s["p.step"][0]), k)); return

    def near(self, step, name, got, ref, r, sca=None):
        r.sub += 1
        if got is None:
            r.bad("step %d: %s is missing" % (step, name)); return
        if len(got) != len(ref):
            r.bad("step %d: %s has %d values, the run has %d" % (step, name, len(got), len(ref))); return
        with np.errstate(all="ignore"):
            tol = 1e-6 * (np.abs(ref) if sca is None else sca) + 1e-35 * max(1.0, np.abs(ref[np.isfinite(ref)]).max() if np.isfinite(ref).any() else 1.0)
            bad = ~((np.abs(got - ref) <= tol) | (np.isnan(ref) & np.isnan(got)) | (got == ref) | (np.abs(ref) > 3.4e38) & np.isinf(got) & (got * ref > 0))
        if bad.any():
            i = int(bad.argmax())
            r.bad("step %d: %s[%d] is %.9g in the file, %.9g in the run" % (step, name, i, got[i], ref[i]))

    def params(self, s, h, step, r):
        L, t = float(s["s.L"][0]), float(s["s.t"][0])
        p = lambda n: float(s["p." + n][0])
        self.near(step, "Model/Params", h.get("h.Model/Params"), np.array([p("time") * t, (p("xmax") - p("xmin")) * L, (p("zmax") - p("zmin")) * L, p("Nx"), p("Nz"), p("dx") * L, p("dz") * L, p("dt") * t]), r)

    def grid(self, s, h, r):
        step = int(s["p.step"][0])
        if not int(h["h.open"][0]):
            r.bad("step %d: the output file is missing or cannot be read" % step); return
        u = lambda n: float(s["s." + n][0]) if n else 1.0
        on = lambda n: int(s["p." + n][0]) == 1
        D = dict(GRID)
        if not on("diffuse_X") if "p.diffuse_X" in s else True:
            D["Centers/X"] = ("m.X_n", "")
        if on("free_surface"):
            D.update(TOPO)
        if on("anisotropy"):
            D["Centers/ani_fac"] = ("m.aniso_factor_n", "")
        for n, (a, un) in D.items():
            v = s[a]
            g = h.get("h." + n)
            if n == "Topo/Vz_grid" and g is not None and len(v) > len(g):
                v = v[:len(g)]
            self.near(step, n, g, v * u(un), r)
        self.params(s, h, step, r)
        for n, a in FLAG.items():
            g = h.get("h." + n)
            r.sub += 1
            if g is None or not np.array_equal(g, s[a][:len(g)]):
                r.bad("step %d: %s does not show the flags of the run" % (step, n)); return
        for n, a in SERIES.items():
            if a in s:
                self.near(step, n, h.get("h." + n), s[a], r)
        nit = int(s["n.nit"][0])
        if step:
            for n in ITER:
                g = h.get("h.Iterations/" + n)
                self.near(step, "Iterations/" + n, None if g is None else g[:nit + 1], s["n." + n][:nit + 1], r)
            g = h.get("h.Iterations/NumberSteps")
            if g is None or int(g[0]) != nit:
                r.bad("step %d: Iterations/NumberSteps does not show the %d iterations of the step" % (step, nit))
        if on("free_surface"):
            g = h.get("h.Topo/phase_mark")
            if g is None or not np.array_equal(g, s["tc.phase"]):
                r.bad("step %d: Topo/phase_mark are not the phases of the surface markers" % step)
        if r.viol:
            return
        live = s["k.phase"] != -1
        x, z = s["k.x"][live], s["k.z"][live]
        g = Grid(s)
        per = int(s["p.periodic_x"][0])
        W = weights(g, "c", x, z, int(s["p.interp_stencil"][0]), per)
        air = G(s).air
        D = dict(P2G)
        for o, d in (("finite_strain", FS), ("anisotropy", ANI), ("track_T_P_x_z", TRK)):
            if on(o):
                D.update(d)
        if "Centers/X" not in GRID and on("diffuse_X"):
            D["Centers/X"] = ("X", "")
        for n, (a, un) in D.items():
            v = s["k." + a][live]
            ref = p2g(g, "c", x, z, v, int(s["p.interp_stencil"][0]), per, 0, W)
            got = h.get("h." + n)
            if got is None:
                r.bad("step %d: %s is missing" % (step, n)); return
            m = (~air & np.isfinite(ref)).ravel()
            self.near(step, n, got[m], ref.ravel()[m] * u(un), r, np.abs(v).max(initial=0.0) * u(un))
        self.viz(s, h, step, air, r)

    def viz(self, s, h, step, air, r):
        live = s["k.phase"] != -1
        x, z = s["k.x"][live], s["k.z"][live]
        X, Z = s["m.xg_coord"], s["m.zg_coord"]
        L = float(s["s.L"][0])
        nx, nz = len(X) - 1, len(Z) - 1
        dx, dz = X[1] - X[0], Z[1] - Z[0]
        fx, fz = (x - X[0]) / dx, (z - Z[0]) / dz
        edge = (np.abs(fx - np.round(fx)) < 1e-9) | (np.abs(fz - np.round(fz)) < 1e-9)
        ic, jc = np.clip(np.floor(fx).astype(int), 0, nx - 1), np.clip(np.floor(fz).astype(int), 0, nz - 1)
        rock = ~air[jc, ic]
        for name, ph, f in (("compo", "dual", 1), ("compo_hr", "phase", 2), ("compo_dual_hr", "dual", 2)):
            ax, az = X[0] + np.arange(nx * f + 1) * dx / f, Z[0] + np.arange(nz * f + 1) * dz / f
            sx, sz = ("xviz", "zviz") if f == 1 else ("xviz_hr", "zviz_hr")
            self.near(step, "VizGrid/" + sx, h.get("h.VizGrid/" + sx), ax * L, r, np.abs(ax).max() * L)
            self.near(step, "VizGrid/" + sz, h.get("h.VizGrid/" + sz), az * L, r, np.abs(az).max() * L)
            got = h.get("h.VizGrid/" + name)
            if got is None or len(got) != nx * nz * f * f:
                r.bad("step %d: VizGrid/%s is missing or has a wrong size" % (step, name)); return
            got = got.astype(np.int8).reshape(nz * f, nx * f)
            val = s["k." + ph][live]
            gx, gz = fx * f, fz * f
            i, j = np.clip(np.floor(gx).astype(int), 0, nx * f - 1), np.clip(np.floor(gz).astype(int), 0, nz * f - 1)
            w = (1 - np.abs(gx - i - 0.5)) * (1 - np.abs(gz - j - 0.5))
            e = edge | (np.abs(gx - np.round(gx)) < 1e-9) | (np.abs(gz - np.round(gz)) < 1e-9)
            best = np.zeros((nz * f, nx * f))
            on = rock & ~e
            np.maximum.at(best, (j[on], i[on]), w[on])
            okay = np.zeros(got.shape, bool)
            c = on & (w >= best[j, i] - 1e-9)
            for a, b, v in zip(j[c], i[c], val[c]):
                okay[a, b] |= got[a, b] == v
            okay |= (best == 0) & (got == -1)
            for q in np.nonzero(e)[0]:                                  # a marker on the edge of a visual cell may be counted in either
                for a in {int(np.floor(gz[q] - 1e-6)), int(np.floor(gz[q] + 1e-6))}:
                    for b in {int(np.floor(gx[q] - 1e-6)), int(np.floor(gx[q] + 1e-6))}:
                        a_, b_ = min(max(a, 0), nz * f - 1), min(max(b, 0), nx * f - 1)
                        if (1 - abs(gx[q] - b_ - 0.5)) * (1 - abs(gz[q] - a_ - 0.5)) >= best[a_, b_] - 1e-9:
                            okay[a_, b_] |= got[a_, b_] == val[q]
            r.sub += got.size
            if not okay.all():
                l, k = np.argwhere(~okay)[0]
                r.bad("step %d: VizGrid/%s shows phase %d in visual cell (%d,%d), not the phase of its nearest marker" % (step, name, got[l, k], k, l)); return

    def part(self, s, h, r):
        step = int(s["p.step"][0])
        if not int(h["h.open"][0]):
            r.bad("step %d: the marker file is missing or cannot be read" % step); return
        u = lambda n: float(s["s." + n][0]) if n else 1.0
        on = lambda n: int(s["p." + n][0]) == 1
        self.params(s, h, step, r)
        D = dict(PART)
        if on("anisotropy"):
            D.update({"Particles/nx": ("nx", ""), "Particles/nz": ("nz", "")})
        for n, (a, un) in D.items():
            self.near(step, n, h.get("h." + n), s["k." + a] * u(un), r)
        for n in ("phase", "generation"):
            g = h.get("h.Particles/" + n)
            r.sub += 1
            if g is None or not np.array_equal(g.astype(np.int8), s["k." + n].astype(np.int8)):
                r.bad("step %d: Particles/%s are not those of the run" % (step, n)); return
        if on("free_surface"):
            for grp, a, b in (("Topo", "t.", "tc."), ("Topo_ini", "ti.", "tci.")):
                for n, k, un in (("height", a + "height", "L"), ("vxsurf", a + "vx", "V"), ("vzsurf", a + "vz", "V"), ("x", b + "x", "L"), ("z", b + "z", "L"), ("vx", b + "Vx", "V"), ("vz", b + "Vz", "V")):
                    g = h.get("h.%s/%s" % (grp, n))
                    v = s[k]
                    if g is not None and len(v) > len(g) and n == "vzsurf":
                        v = v[:len(g)]
                    self.near(step, "%s/%s" % (grp, n), g, v * u(un), r)
