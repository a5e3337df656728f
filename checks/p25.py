"""P25 initial state: markers, surface and grid of a fresh run are what the setup prescribes."""
import itertools
from mc import *
from space import FEATURES, XFEATURES, make, TOPO, STEP, HOT, LOOSE, LAYOUT
from runner import Check, Res
from ref import G, Grid, p2g, g2p, diffuse, sides

# marker quantity -> (callback field, unit, default in SI)
RAW = {"T": ("T", "T", 273.15), "phi": ("phi", None, 0.0), "X": ("X", None, 0.0), "P": ("P", "S", 0.0), "sxxd": ("Txx", "S", 0.0), "szzd": ("Tzz", "S", 0.0), "sxz": ("Txz", "S", 0.0),
       "noise": ("noise", None, 0.0), "d": ("d", "L", 0.0), "rho": ("rho", "rho", None), "Vx": ("Vx", "V", None), "Vz": ("Vz", "V", None),
       "Fxx": ("Fxx", None, 1.0), "Fxz": ("Fxz", None, 0.0), "Fzx": ("Fzx", None, 0.0), "Fzz": ("Fzz", None, 1.0), "aniso_angle": ("angle", None, None)}
LIN = {"T": ("lin", 1200.0, 2e-3, -1e-2), "phi": ("lin", 0.1, 1e-6, -1e-6), "X": ("lin", 0.4, 4e-6, -3e-6), "P": ("lin", 5e8, 1e3, -2e4), "Txx": ("lin", 2e7, 100.0, -300.0), "Tzz": ("lin", -1e7, 200.0, 100.0),
       "Txz": ("lin", 5e6, -150.0, 50.0), "noise": ("lin", 0.1, 1e-6, -2e-6), "d": ("lin", 2e-3, 1e-9, 2e-9), "rho": ("lin", 2900.0, 1e-3, 2e-3), "Vx": ("lin", 1e-10, -2e-14, 1e-15), "Vz": ("lin", -2e-10, 3e-15, 1e-14),
       "Fxx": ("lin", 1.1, 1e-6, 0), "Fxz": ("lin", 0.2, 0, 1e-6), "Fzx": ("lin", -0.1, 2e-6, 0), "Fzz": ("lin", 0.9, 0, -1e-6), "angle": ("lin", 0.5, 1e-5, 2e-5), "dual": ("grid", [[1, 0], [0, 1]]), "phase": ("grid", LAYOUT)}
GRIDF = [[1.0, 0.3, 0.7], [0.2, 0.9, 0.5]]
ENV = {"": dict(), "surf": dict(free_surface=1), "step": dict(free_surface=1), "polar": dict(polar=1), "per": dict(shear_style=1), "el": dict(elastic=1, compressible=1), "ani": dict(anisotropy=1, marker_aniso_angle=1),
       "fs": dict(finite_strain=1), "sten9": dict(interp_stencil=9), "melt": dict(melting=1, thermal=1), "ini": dict(initial_noise=1), "chem": dict(chemical_diffusion=1), "nomech": dict(mechanical=0)}
PPC = ((2, 2), (3, 2), (4, 4), (2, 5), (5, 3))
SHAPES = {"": None, "f": TOPO, "step": STEP, "flat": [0.0, 0.0], "lo": [-2.2e4, -2.3e4, -1.9e4], "hi": [0.95e4, 0.9e4], "z": [3.0e3, -3.0e3, 3.0e3, -3.0e3, 3.0e3], "edge": [1.0e4 - 60e3 / 6, 1.0e4 - 60e3 / 6 * 1.5]}


class CHECK(Check):
    pid = "P25"
    level = "exploration"
    rule = ("scenario = set of user functions given or left out (every one and every pair) x option set, markers per cell x noise x surface shapes x grids, thermal perturbations x initial cooling, background pressure x gravity x "
            "compressibility x surface, geometric helper shapes, saved and re-read marker files, all option sets; the complete marker and grid state before the first step is compared with what the setup prescribes")
    assumptions = ["grids 6x9 and 8x7", "random displacement of markers is only bounded (a tenth of their spacing)", "pressure follows the density of the same state to 1e-6", "phases at points within round-off of a boundary of the prescribed pattern are not judged"]

    def space(self, tier):
        r = []
        names = [n for n in LIN if n not in ("phase",)]
        for e in ENV:
            for n in [()] + [(n,) for n in names] + [("*",)] + (list(itertools.combinations(names, 2)) if e in ("", "surf") or tier == "thorough" else []):
                for ph in (0, 1):
                    if e not in ("", "surf", "ini") and ph == 0 and len(n) == 2:
                        continue
                    r.append(dict(cb=list(n), env=e, ph=ph))
        for pc in PPC:
            for sh in SHAPES:
                for no in (0, 1):
                    for gr in (0, 1):
                        for st in (1, 9):
                            r.append(dict(ppc=list(pc), sh=sh, noise=no, grid=gr, st=st))
        for x0, z0, rx, rz in itertools.product((-2e4, 1.3e4), (-3.1e4, -4e3), (9e3, 2.2e4), (9e3, 1.6e4)):
            for dT in (-150.0, 80.0):
                for co in (0, 3e13, 2e15):
                    for sh in ("", "f"):
                        r.append(dict(pert=[x0, z0, rx, rz, dT], cool=co, sh=sh))
        for g, bp, dm, comp, sh, ppc in itertools.product((0.0, -10.0, -3.7), (0.0, 3e8), (0, 1, 3), (0, 1), SHAPES, ((2, 2), (4, 3))):
            r.append(dict(g=g, bp=bp, dm=dm, comp=comp, sh=sh, ppc=list(ppc)))
        ANG = (0.0, 30.0, 75.0, 90.0, 120.0, 180.0, 205.0, -40.0)
        for kind, cx, cz, a, b, an in itertools.product((0, 1), (-1.2e4, 0.0, 1.5e4), (-2.5e4, -1.1e4), (1.4e4, 3.1e4), (0.9e4, 2.3e4), ANG):
            r.append(dict(shape=[kind, cx, cz, a, b, an]))
        for a in ("save", "load"):
            for e in ENV:
                for no in (0, 1):
                    r.append(dict(mk=a, env=e, no=no))
        for aT in (900.0, 1100.0, 1400.0):
            for e in ENV:
                for d in (0, 1):
                    r.append(dict(adj=aT, env=e, dual=d))
        A = list(FEATURES) + list(XFEATURES)
        for a in A:
            r.append(dict(f=[a]))
        P = list(FEATURES)
        for a, b in itertools.combinations(P, 2):
            r.append(dict(f=[a, b]))
        return r

    def key(self, sc):
        return json.dumps(sc, sort_keys=True).replace('"', "").replace(" ", "")

    def job(self, sc):
        i = sum(map(ord, self.key({k: v for k, v in sc.items() if k != "mk"})))
        m = dict(Nt=0, nit_max=2, Nx=(8, 6)[i % 2], Nz=(7, 9)[i % 2])
        hooks = ("count", "out", "outp", "mat")
        if "f" in sc:
            m["writer_markers"] = 1
            m.pop("Nx"); m.pop("Nz")
            return make(list(sc["f"]), model=m, hooks=hooks)
        m.update(ENV[sc.get("env", "")])
        sh = sc.get("sh", {"surf": "f", "step": "step"}.get(sc.get("env", ""), ""))
        fields, kw = {}, {}
        topo = SHAPES[sh]
        if topo:
            m.update(free_surface=1, writer_markers=1)
            kw["topo"] = topo
            if i % 3:
                kw["topophase"] = 1
        drop = ()
        if "cb" in sc:
            on = [n for n in LIN if n != "phase"] if sc["cb"] == ["*"] else sc["cb"]
            fields = {n: LIN[n] for n in on}
            if i % 3 == 0:
                fields = {n: (v[0] if v[0] == "grid" else "grid", v[1] if v[0] == "grid" else [[v[1] * q for q in row] for row in GRIDF]) for n, v in fields.items()}
            elif i % 3 == 1:
                fields = {n: (v if v[0] == "grid" else ("nodes", [[v[1] * q for q in row] for row in GRIDF])) for n, v in fields.items()}
            drop = (("T",) if "T" not in on else ()) + (() if sc["ph"] else ("phase",))
        if "ppc" in sc:
            m.update(Nx_part=sc["ppc"][0], Nz_part=sc["ppc"][1], min_part_cell=2)
        if "noise" in sc:
            m.update(initial_noise=sc["noise"], Nx=(7, 8)[sc["grid"]], Nz=(9, 6)[sc["grid"]], interp_stencil=sc["st"])
            if sc["grid"]:
                m.update(xmax=2.3e4)
        if "pert" in sc:
            x0, z0, rx, rz, dT = sc["pert"]
            m.update(therm_perturb=1, therm_perturb_x0=x0, therm_perturb_z0=z0, therm_perturb_rad_x=rx, therm_perturb_rad_z=rz, therm_perturb_dT=dT, initial_cooling=int(sc["cool"] > 0), cooling_duration=sc["cool"] or 1.0, Nx=12, Nz=11, shear_heating=1, adiab_heating=1)
        if "g" in sc:
            m.update(gz=sc["g"], bkg_pressure=sc["bp"], compressible=sc["comp"], elastic=sc["comp"])
        if "mk" in sc:
            m.update(initial_noise=sc["no"], Nz_part=3)
            m["save_initial_markers" if sc["mk"] == "save" else "load_initial_markers"] = 1
            m["initial_markers_file"] = "mk.bin"
        extra = []
        if "shape" in sc:
            k, cx, cz, a, b, an = sc["shape"]
            extra.append("shape %d %r %r %r %r %r" % (k, cx, cz, a, b, an if k == 0 else an * np.pi / 180))
            m.update(Nx=11, Nz=12, Nx_part=5, Nz_part=5)
        if "adj" in sc:
            extra.append("adjT %r" % sc["adj"])
            if sc["dual"]:
                fields["dual"] = LIN["dual"]
        j = make(["base"], model=m, hooks=hooks, fields=fields, extra=extra, **kw)
        for n in drop:
            j.fields.pop(n, None)
        if "shape" in sc:
            j.fields.pop("phase")
        if "dm" in sc:
            for p in j.phases:
                p.update(density_model=sc["dm"])
        if sc.get("mk") == "load":
            j.meta["load"] = 1
        return j

    def evaluate(self, scs):
        return pmap(self._batch, scs, 60)

    def _batch(self, scs):
        jobs = [self.job(sc) for sc in scs]
        base = {}
        for sc, j in zip(scs, jobs):                     # markers to be read: a displaced and relabelled copy of what a run without a file has
            if j.meta.get("load"):
                q = self.job(dict(sc, mk="save")); base[id(j)] = q
        run_jobs(list(base.values()))
        for j in jobs:
            q = base.get(id(j))
            if q is not None:
                s = next(iter(q.snaps("count0:pre")), None)
                if s is not None:
                    n = len(s["k.x"])
                    L = float(s["s.L"][0])
                    q.meta["x"] = s["k.x"] + 0.03 * float(s["p.dx"][0]) * np.sin(np.arange(n))
                    q.meta["z"] = s["k.z"] + 0.03 * float(s["p.dz"][0]) * np.cos(np.arange(n) * 0.7)
                    q.meta["phase"] = ((np.arange(n) * 7919) % 11 < 4).astype(np.int32)
                    j.files["mk.bin"] = q.meta["x"].tobytes() + q.meta["z"].tobytes() + q.meta["phase"].tobytes()
                    j.meta.update(q.meta)
                q.clean()
        run_jobs(jobs)
        res = []
        for sc, j in zip(scs, jobs):
            r = Res(); res.append(r)
            S = j.snaps(None)
            pre = next((s for s in S if s.tag == "count0:pre"), None)
            out = next((s for s in S if s.tag.startswith("out:")), None)
            if not j.ok() or pre is None or out is None:
                r.bad("the run does not reach its initial output (%s)" % open(j.dir + "/status").read().strip(), "no state") if not j.ok() else None
                r.note = "not observed: " + self.key(sc)
                j.clean()
                continue
            r.states, r.trans = len(S), 1
            try:
                self.raw(j, sc, pre, r)
                self.fields(j, sc, S, pre, out, r)
                self.chain(j, S, r)
                if sc.get("mk") == "save":
                    self.saved(j, pre, r)
            except KeyError as e:
                r.bad("state incomplete: %r" % (e,))
            j.clean()
        return res

    # ------------------------------------------------------------------ what the user functions give at a point (SI)
    def cbval(self, j, name, x, z):
        f = j.fields[name]
        if f[0] == "lin":
            return f[1] + f[2] * x + f[3] * z, np.zeros(x.shape, bool)
        m = j.model
        v = np.asarray(f[1], float)
        nz, nx = v.shape
        fx, fz = (x - m["xmin"]) / (m["xmax"] - m["xmin"]), (z - m["zmin"]) / (m["zmax"] - m["zmin"])
        if f[0] == "grid":
            a, b = fx * nx, fz * nz
            amb = (np.abs(a - np.rint(a)) < 1e-9) | (np.abs(b - np.rint(b)) < 1e-9)
            return v[np.clip(np.floor(b).astype(int), 0, nz - 1), np.clip(np.floor(a).astype(int), 0, nx - 1)], amb
        gx, gz = fx * (nx - 1), fz * (nz - 1)
        i, k = np.clip(np.floor(gx).astype(int), 0, nx - 2), np.clip(np.floor(gz).astype(int), 0, nz - 2)
        p, q = gx - i, gz - k
        return (1 - p) * (1 - q) * v[k, i] + p * (1 - q) * v[k, i + 1] + (1 - p) * q * v[k + 1, i] + p * q * v[k + 1, i + 1], np.zeros(x.shape, bool)

    def raw(self, j, sc, s, r):
        P = lambda n: int(s["p." + n][0])
        g = Grid(s)
        U = lambda n: 1.0 if n is None else float(s["s." + n][0])
        nx, nz = int(s["k.N"][4]), int(s["k.N"][5])
        if (nx, nz) != (int(j.model["Nx_part"]), int(j.model["Nz_part"])):
            r.bad("%d x %d markers per cell instead of %d x %d" % (nx, nz, j.model["Nx_part"], j.model["Nz_part"]))
            return
        # layout: column by column of cells, upwards
        hx, hz = g.dx / nx, g.dz / nz
        I, K, a, b = np.meshgrid(np.arange(g.Nx - 1), np.arange(g.Nz - 1), np.arange(nx), np.arange(nz), indexing="ij")
        X = g.x0 + I * g.dx + (a + 0.5) * hx; Z = g.z0 + K * g.dz + (b + 0.5) * hz
        keep = np.ones(X.shape, bool); amb = np.zeros(X.shape, bool)
        if P("free_surface"):
            h = s["t.b"][I] + s["t.a"][I] * X
            keep = Z < h; amb = np.abs(Z - h) < 1e-9 * g.dz
        x, z = s["k.x"], s["k.z"]
        x0, z0 = X[keep], Z[keep]
        if j.meta.get("load"):
            ok = len(x) == len(j.meta["x"]) and np.array_equal(x, j.meta["x"]) and np.array_equal(z, j.meta["z"])
            if not ok:
                r.bad("marker positions read from the file are not those it holds", "load"); return
        elif not amb.any():
            if len(x) != len(x0):
                r.bad("%d markers, %d places of the regular arrangement lie in the rock" % (len(x), len(x0)), "layout"); return
            tol = 1e-9 if not P("initial_noise") else 0.1 + 1e-9
            dx, dz = np.abs(x - x0) / hx, np.abs(z - z0) / hz
            if P("periodic_x"):
                dx = np.minimum(dx, np.abs(dx - (g.x1 - g.x0) / hx))
            r.sub += len(x)
            if not (dx.max() <= tol and dz.max() <= tol):
                k = int(np.argmax(np.maximum(dx, dz)))
                r.bad("marker %d at (%.9g, %.9g) instead of (%.9g, %.9g)" % (k, x[k], z[k], x0[k], z0[k]), "layout"); return
            if P("initial_noise") and len(x) > 8 and (np.unique(np.round((x - x0) / hx, 9)).size < len(x) // 2 or np.unique(np.round((z - z0) / hz, 9)).size < len(x) // 2):
                r.bad("markers are not displaced although noise is asked for", "layout"); return
        L = U("L")
        xs, zs = x * L, z * L
        if j.meta.get("load"):                            # the other attributes come from the places the markers had before
            xs, zs = x0 * L, z0 * L
            if len(xs) != len(x) or P("initial_noise"):
                xs = None
        # phases
        n = len(x)
        amb = np.zeros(n, bool)
        ph = np.zeros(n)
        nph = P("Nb_phases")
        if j.meta.get("load"):
            ph = j.meta["phase"]
        elif "shape" in sc:
            k, cx, cz, ra, rb, an = sc["shape"]
            t = an * np.pi / 180
            u, v = (xs - cx) * np.cos(t) - (zs - cz) * np.sin(t), (xs - cx) * np.sin(t) + (zs - cz) * np.cos(t)
            q = (u / (ra / 2)) ** 2 + (v / (rb / 2)) ** 2 if k == 0 else np.maximum(np.abs(u) / (ra / 2), np.abs(v) / (rb / 2))
            ph = (q < 1).astype(int); amb = np.abs(q - 1) < 1e-9
        elif "phase" in j.fields:
            v, amb = self.cbval(j, "phase", xs, zs)
            ph = np.floor(v + 0.5)
        ph = np.asarray(ph, int)
        own = ph
        def val(name, unit, dflt):
            if name in j.fields:
                v, am = self.cbval(j, name, xs, zs)
                return v / U(unit), am
            return dflt, np.zeros(n, bool)
        T, _ = val("T", "T", 273.15 / U("T")) if xs is not None else (None, None)
        if "adj" in sc:
            hot = T * U("T") > sc["adj"]
            amb = amb | (np.abs(T * U("T") - sc["adj"]) < 1e-7)
            ph = np.where(hot, nph - 1 - ph, ph)
        got = s["k.phase"]
        gone = got == -1
        if P("free_surface"):
            gone &= True
            i = np.clip(((x - g.x0) / g.dx).astype(int), 0, g.Nx - 2)
            over = z > s["t.b"][i] + s["t.a"][i] * x - 1e-9 * g.dz
            lost = gone & ~over
        else:
            lost = gone
        if lost.any():
            r.bad("marker %d inside the rock is removed" % int(np.flatnonzero(lost)[0]), "phase"); return
        w = (got != ph) & ~amb & ~gone
        r.sub += n
        if w.any():
            k = int(np.flatnonzero(w)[0])
            r.bad("marker %d at (%g, %g) has phase %d instead of %d" % (k, x[k] * L, z[k] * L, got[k], ph[k]), "phase"); return
        if xs is None:
            return
        nomark = amb | gone
        if "dual" in j.fields:
            v, am = self.cbval(j, "dual", xs, zs)
            self.cmp(r, "dual phase", s["k.dual"], np.floor(v + 0.5), nomark | am, 0.0)
        elif not j.meta.get("load"):
            self.cmp(r, "dual phase", s["k.dual"], ph, nomark, 0.0)
        e = float(s["p.bkg_strain_rate"][0])
        for q, (cb, unit, d) in RAW.items():
            if "k." + q not in s:
                continue
            if q in ("Fxx", "Fxz", "Fzx", "Fzz"):
                if not P("finite_strain"):
                    continue
                if any(c in j.fields for c in ("Fxx", "Fxz", "Fzx", "Fzz")) and cb not in j.fields:
                    pass
            if q == "aniso_angle" and not (P("marker_aniso_angle") and "angle" in j.fields):
                continue
            if q == "rho":
                dflt = s["mat.rho"][np.maximum(ph, 0)] if "mat.rho" in s else None
                if dflt is None and cb not in j.fields:
                    dflt = np.array([p["rho"] for p in j.phases])[np.maximum(ph, 0)] / U("rho")
                if j.meta.get("load"):
                    continue
            elif q == "Vx":
                dflt = -e * x
            elif q == "Vz":
                dflt = e * z
            else:
                dflt = None if d is None else d / U(unit)
            if q in ("Vx", "Vz") and j.meta.get("load"):
                continue
            v, am = val(cb, unit, dflt)
            v = np.broadcast_to(np.asarray(v, float), (n,))
            self.cmp(r, "initial %s of the marker" % q, s["k." + q], v, am | (nomark if q == "rho" else gone), 1e-10)
        for q in ("strain", "strain_el", "strain_pl", "strain_pwl", "strain_exp", "strain_lin", "strain_gbs", "progress", "generation"):
            if "k." + q in s:
                self.cmp(r, "initial %s of the marker" % q, s["k." + q], np.zeros(n), gone, 0.0)

    def cmp(self, r, what, got, ref, skip, tol, scale=None, key=""):
        ref = np.broadcast_to(np.asarray(ref, float), got.shape)
        if scale is None:
            scale = max(np.abs(np.where(skip, 0, ref)).max() if ref.size else 0, 1e-300)
        r.sub += int((~np.broadcast_to(skip, got.shape)).sum())
        with np.errstate(all="ignore"):
            d = np.where(skip, 0.0, np.abs(got - ref))
            bad = ~(d <= tol * scale) if tol else ~(d == 0)
        if bad.any() and len(r.viol) < 4:
            k = np.unravel_index(int(np.nan_to_num(d, nan=np.inf).argmax()), d.shape)
            r.bad("%s %s is %.9g instead of %.9g (%.1e apart, scale %.1e)" % (what, ",".join(map(str, k[::-1])), got[k], ref[k], d[k], scale), key)

    # ------------------------------------------------------------------ grid
    def fields(self, j, sc, S, pre, o, r):
        if r.viol:
            return
        P = lambda n: int(o["p." + n][0])
        post = next(s for s in S if s.tag == "count0:post")
        g, a = Grid(o), G(o)
        per, st = P("periodic_x"), P("interp_stencil")
        rock, rockv = ~a.air, ~a.airv
        x, z, ph = post["k.x"], post["k.z"], post["k.phase"]
        on = ph != -1
        D = lambda n: float(o["p." + n][0])

        def grid(kind, q, sten):
            return p2g(g, kind, x[on], z[on], post["k." + q][on], sten, per)

        def same(what, got, ref, ok, tol=1e-8, scale=None):
            ok = ok & np.isfinite(ref)
            self.cmp(r, what + " at", got, np.where(ok, ref, 0.0), ~ok, tol, scale)
        # temperature
        T = grid("c", "T", 1)
        if P("initial_cooling"):                         # ten steps of the heat balance without motion over the asked duration
            q = next(s for s in S if s.tag == "mat:UpdateDensity")
            M = lambda kind, n: p2g(g, kind, x[on], z[on], q["mat." + n][ph[on]], 1, per)
            kx, kz, Cp, Qr = M("u", "k_eff"), M("w", "k_eff"), M("c", "Cp"), M("c", "Qr")
            bc = sides(j.bct, float(o["s.L"][0]), (float(o["s.T"][0]), float(o["s.S"][0]) * float(o["s.V"][0])))
            for _ in range(10):
                T = diffuse(g, np.where(rock, T, 0.0), np.where(rock, q["m.rho_n"].reshape(rock.shape) * Cp, 0.0), kx, kz, np.where(rock, Qr, 0.0), D("cooling_duration") / 10, bc, a.air, (g.xc, g.zc))
        T = np.where(rock, T, np.nan)
        if P("therm_perturb"):
            XX, ZZ = np.meshgrid(g.xc, g.zc)
            q = ((XX - D("therm_perturb_x0")) / D("therm_perturb_rad_x")) ** 2 + ((ZZ - D("therm_perturb_z0")) / D("therm_perturb_rad_z")) ** 2
            T = T + np.where(q < 1, D("therm_perturb_dT"), 0.0)
            T[np.abs(q - 1) < 1e-9] = np.nan
        if P("fix_temperature") or P("initial_cooling") and P("polar"):
            T = a.C("T")                                 # imposed again by the setup; conduction along the radius: out of scope here
        same("temperature", a.C("T"), T, rock, 1e-7 if P("initial_cooling") else 1e-8)
        same("old temperature", a.C("T0_n"), T, rock)
        air = a.air
        back = lambda f: g2p(g, "c", x, z, np.where(air, 0.0, f), per, air)
        N = len(x)
        mk = lambda q: o["k." + q][:N]
        lost = ~on | (g2p(g, "c", x, z, air.astype(float), per, air) > 0.5)   # markers with air all around have no defined value
        if air.any():                                    # exactly on a row or column of centres: either neighbourhood
            tie = lambda v, h: np.abs(v / h - 0.5 - np.rint(v / h - 0.5)) < 1e-8
            lost = lost | tie(x - g.x0, g.dx) | tie(z - g.z0, g.dz)
        self.cmp(r, "temperature of marker", mk("T"), back(a.C("T")), lost, 1e-8)
        # stress, noise, composition, grain size
        for q, n, kind in (("sxxd", "sxxd0", "c"), ("szzd", "szzd0", "c"), ("sxz", "sxz0", "v"), ("noise", "noise_n", "c"), ("noise", "noise_s", "v"), ("X", "X0_n", "c"), ("X", "X0_s", "v")):
            ref = grid(kind, q, st)
            same("%s (%s)" % (n, "cell" if kind == "c" else "vertex"), (a.C if kind == "c" else a.V)(n), ref, rock if kind == "c" else rockv, 1e-8, max(np.abs(post["k." + q][on]).max(), 1e-300))
        gs = np.array([float(p.get("gs_ref", 1e-3)) for p in j.phases]) / float(o["s.L"][0])
        if "mat.gs_ref" in o:
            gs = o["mat.gs_ref"]
        if "gs_ref" in j.phases[0] or "mat.gs_ref" in o:
            self.cmp(r, "grain size of marker", mk("d"), gs[np.maximum(ph, 0)], lost, 1e-12)
            ref = p2g(g, "c", x[on], z[on], gs[ph[on]], st, per)
            same("grain size", a.C("d_n"), ref, rock); same("old grain size", a.C("d0_n"), ref, rock)
        # lithostatic pressure
        rho = np.where(rock, a.C("rho_n"), 0.0) * g.dz * -D("gz")
        col = np.cumsum(rho[::-1], axis=0)[::-1]
        ref = np.where(rock, col - 0.5 * rho + D("bkg_pressure"), 0.0)
        inside = np.zeros(rock.shape, bool)             # cells with air below rock do not occur
        sc_ = max(np.abs(ref).max(), 1e-300)
        if not P("density_variations"):                  # a reaction driven by this pressure changes the density afterwards
            same("lithostatic pressure", a.C("p_lith"), ref, rock, 1e-6, sc_)
        same("pressure", a.C("p_in"), a.C("p_lith"), rock, 1e-12, sc_)
        same("old pressure", a.C("p0_n"), a.C("p_lith"), rock, 1e-12, sc_)
        self.cmp(r, "pressure of marker", mk("P"), back(a.C("p_in")), lost, 1e-8, sc_)
        if not P("density_variations"):
            self.cmp(r, "density of marker", mk("rho"), back(a.C("rho_n")), lost, 1e-8)
        if P("melting"):
            self.cmp(r, "melt fraction of marker", mk("phi"), back(a.C("phi_n")), lost, 1e-8, 1.0)
        if P("track_T_P_x_z"):
            for q, f in (("T0", "T"), ("P0", "P"), ("x0", "x"), ("z0", "z"), ("Tmax", "T"), ("Pmax", "P")):
                self.cmp(r, "initial record %s of marker" % q, mk(q), mk(f), lost, 0.0)
        if P("anisotropy") and "k.nx" in o:
            if P("marker_aniso_angle"):
                an = post["k.aniso_angle"]
            else:
                an = o["mat.aniso_angle"][np.maximum(ph, 0)] if "mat.aniso_angle" in o else (np.array([p["aniso_angle"] for p in j.phases]) * np.pi / 180)[np.maximum(ph, 0)]
            if P("polar"):
                an = an - np.arctan(x / z)
            self.cmp(r, "director (x) of marker", mk("nx"), np.cos(an), lost, 1e-10, 1.0); self.cmp(r, "director (z) of marker", mk("nz"), np.sin(an), lost, 1e-10, 1.0)
        if P("step") or abs(D("time")) > 0:
            r.bad("initial output at step %d, time %g" % (P("step"), D("time")))

    # ------------------------------------------------------------------ surface
    def chain(self, j, S, r):
        s = next((s for s in S if s.tag.startswith("outp:")), None)
        if s is None or "tc.x" not in s or r.viol:
            return
        g = Grid(s)
        L = float(s["s.L"][0])
        for pre in ("tc.", "tci."):
            x, z = s[pre + "x"], s[pre + "z"]
            n = len(x)
            ref = g.x0 + (np.arange(n) + 0.5) * (g.x1 - g.x0) / n
            self.cmp(r, "place of surface marker", x, ref, np.zeros(n, bool), 1e-9, g.dx, "surface")
            if n < 4 * (g.Nx - 1):
                r.bad("%d surface markers on %d cells" % (n, g.Nx - 1), "surface")
            h = np.asarray(j.topo if j.topo is not None else [1e3, 1e3], float)
            f = np.clip((ref * L - j.model["xmin"]) / (j.model["xmax"] - j.model["xmin"]), 0, 1) * (len(h) - 1)
            i = np.clip(np.floor(f).astype(int), 0, len(h) - 2)
            zz = ((1 - (f - i)) * h[i] + (f - i) * h[i + 1]) / L
            self.cmp(r, "height of surface marker", z, zz, np.zeros(n, bool), 1e-9, g.dz, "surface")
            if pre + "phase" in s:
                self.cmp(r, "phase of surface marker", s[pre + "phase"], np.full(n, j.topophase or 0), np.zeros(n, bool), 0.0)

    def saved(self, j, pre, r):
        f = j.dir + "/mk.bin"
        n = len(pre["k.x"])
        b = open(f, "rb").read() if os.path.exists(f) else b""
        if len(b) != 20 * n:
            r.bad("saved marker file has %d bytes for %d markers" % (len(b), n), "save"); return
        x, z, p = np.frombuffer(b[:8 * n]), np.frombuffer(b[8 * n:16 * n]), np.frombuffer(b[16 * n:], np.int32)
        ok = pre["k.phase"] != -1
        if not (np.array_equal(x, pre["k.x"]) and np.array_equal(z, pre["k.z"]) and np.array_equal(p[ok], pre["k.phase"][ok])):
            r.bad("saved marker file does not hold the markers of the run", "save")
