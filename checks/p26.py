"""P26 failing runs: a run that cannot go on says so; a run that reports success has made every step with unimpaired results."""
from mc import *
from runner import Check, Res
from space import FEATURES, make
import obs

CFG = {"base": [], "surf": ["surfsed"], "therm": ["thermal", "shearheat"], "chem": ["chem"], "aniso": ["aniso"], "newt": ["newton", "powerlaw"], "comp": ["elcomp"], "melt": ["melt"], "ale": ["ale"], "track": ["track", "noise"], "conserv": ["conserv"], "infl": ["inflow"], "file": []}
QUICK = {0: ("base", "surf", "therm", "comp", "newt"), 1: ("base",)}       # mode -> configurations of the quick tier
B, BC, BD = 24, 40, 12
BAD = ["-1", "0", "2", "9", "1e30", "nan", "text", ""]
SWITCH = ["free_surface", "free_surface_stab", "surface_processes", "elastic", "thermal", "shear_heating", "adiab_heating", "advection", "RK", "conserv_interp", "interp_stencil", "compressible", "density_variations", "melting", "chemical_diffusion", "chemical_production",
          "anisotropy", "finite_strain", "track_T_P_x_z", "line_search", "Newton", "Picard2Newton", "nit_max", "lin_solver", "preconditioner", "eta_average", "marker_noise", "subgrid_diffusion", "stress_rotation", "pure_shear_ALE", "shear_style", "periodic_x", "polar", "reseed_markers",
          "initial_cooling", "residual_form", "constant_dt", "mesh_out", "out_of_plane", "noisy", "min_eta", "max_eta", "dt", "Courant", "penalty", "lin_abs_div", "lin_rel_div", "lin_abs_mom", "lin_rel_mom", "Nx_part", "Nz_part", "min_part_cell", "Nb_phases", "eta", "L", "V", "T", "gz", "writer_step"]
MAT = ["cstv", "pwlv", "linv", "expv", "gbsv", "gs", "plast", "density_model", "melt", "aniso_factor", "reac_soft", "reac_phase", "transmutation", "transmutation_phase", "phase_diagram", "eta0", "npwl", "G", "bet", "alp", "Cp", "k", "rho", "C", "phi", "psi", "Slim", "coh_soft", "eta_vp", "n_vp", "phase_mix"]


def mkc(c, **kw):
    j = make(CFG[c], model=dict(Nt=1, nit_max=4, **kw))
    if c == "file":
        j.realwrite = 1; j.hooks = ("out", "h5")
    return j


def refusals(c):
    n = len(mkc(c).phases)
    for v in (-1, 0, 2, 4, 8, 10):
        yield "interp_stencil = %d" % v, mkc(c, interp_stencil=v)
    for i in range(n):
        mats = [dict(psi=10, compressible=0), dict(psi_soft=1, psie=5, compressible=0), dict(C=1e7, Slim=9.9e6), dict(C=1e7, Slim=1.0), dict(n_vp=1.5), dict(n_vp=3.0), dict(coh_soft=1), dict(coh_soft=1, C=1e7, Ce=1e7), dict(phi_soft=1), dict(phi_soft=1, phi=20, phie=20),
                dict(psi_soft=1, compressible=1), dict(reac_soft=1, reac_phase=n), dict(reac_soft=1, reac_phase=n + 3), dict(cstv=0, pwlv=0, linv=0, gbsv=0, expv=0),
                dict(density_model=2), dict(density_model=2, phase_diagram=-1)]
        for q in ("pwlv", "linv", "gbsv", "expv"):
            mats += [{q: 999}, {q: 61}]
        for m in mats:
            j = mkc(c, **{k: v for k, v in m.items() if k == "compressible"})
            j.phases[i].update({k: v for k, v in m.items() if k != "compressible"})
            yield "phase %d: %s" % (i, " ".join("%s=%s" % q for q in m.items())), j
    for d in (0, 1, 2):          # markers of a phase that is not set up
        j = mkc(c); j.fields["phase"] = ("lin", float(n + d), 0.0, 0.0); j.extra = [x for x in j.extra if not x.startswith("shape")]
        yield "every marker of phase %d of %d" % (n + d, n), j
    for w in "xzb":
        j = mkc(c); j.extra = list(j.extra) + ["env MC_NOCB %s" % w]
        yield "callback %s missing" % w, j
    for q, ps in (("bcvx", ("W", "E")), ("bcvz", ("N", "S"))):
        for p in ps:             # a side without condition, a condition inside
            j = mkc(c); setattr(j, q, dict(getattr(j, q), **{p: (-1, 0.0)}))
            if not j.model.get("periodic_x"):
                yield "%s: no condition on side %s" % (q, p), j
        j = mkc(c); setattr(j, q, dict(getattr(j, q), I=(0, 0.0)))
        yield "%s: condition inside" % q, j
    if not mkc(c).model.get("periodic_x"):
        for p in "WE":
            j = mkc(c, balance_boundaries=1); j.bcvx = dict(dict(W=(0, 0.0), E=(0, 0.0)), **{p: (0, 1e-9)})
            yield "side %s cannot be balanced" % p, j
    j = mkc(c, load_initial_markers=1, initial_markers_file="missing.bin")
    yield "initial markers missing", j
    j = mkc(c, istep=1, irestart=1)
    yield "checkpoint missing", j
    j = mkc(c); j.model["Nb_phases"] = 21; j.phases = [dict(j.phases[0]) for _ in range(21)]
    yield "too many phases", j


class CHECK(Check):
    pid = "P26"
    level = "exploration"
    rule = ("scenario = a block of faults: the k-th request for memory (or all from the k-th on) is refused, for every k of the run; the k-th write of an output file is refused, refused from then on, or torn, for every k; the setup file ends after every byte; every switch and material parameter takes every unsupported value of a list; "
            "every pattern of stagnating corrections; creep laws beyond the range of the local iterations; each run ends with a failure status, or completes all steps with results equal to those without the fault")
    assumptions = ["a death by signal counts as a reported failure", "one output per step; files are judged by P02"]

    def prepare(self, tier):
        self.tier = tier
        self.n = {}
        dj = self.oom("file", 0, 6)
        todo = [(c, m) for c in CFG for m in (0, 1) if (c in QUICK[m] if tier == "quick" else m == 0 or c in ("base", "surf", "newt"))]
        js = {c: self.oom(c, 0, 2) for c in dict(todo)}
        rj = self.reader(0)
        run_jobs(list(js.values()) + [rj, dj], variant="oom")
        self.ndisk = int(open(dj.dir + "/allocs").read()) if dj.ok() else 0
        self.n = {q: int(open(js[q[0]].dir + "/allocs").read()) if js[q[0]].ok() else 0 for q in todo}
        self.nread = int(open(rj.dir + "/allocs").read()) if rj.ok() else 0
        assert all(self.n.values()) and self.nread and self.ndisk, "counting runs do not complete"
        for j in list(js.values()) + [rj, dj]:
            j.clean()

    def oom(self, c, k, mode):
        j = mkc(c, **(dict(writer_step=2) if c == "file" and not mode & 4 else {}))
        j.extra = list(j.extra) + ["env MC_OOM %d,%d" % (k, mode)]
        return j

    def reader(self, k, mode=0):
        j = mkc("base"); j.hooks = ("input",)
        j.extra = list(j.extra) + ["env MC_OOM %d,%d" % (k, mode)]
        return j

    def space(self, tier):
        r = []
        for (c, m), n in self.n.items():
            r += [dict(k="mem", c=c, m=m, lo=lo, hi=min(n + 1, lo + B)) for lo in range(1, n + 1, B)]
        r += [dict(k="read", m=m, lo=lo, hi=min(self.nread + 1, lo + 100)) for m in ((0,) if tier == "quick" else (0, 1)) for lo in range(1, self.nread + 1, 100)]
        r += [dict(k="disk", m=m, lo=lo, hi=min(self.ndisk + 1, lo + BD)) for m in (4, 5, 13) for lo in range(1, self.ndisk + 1, BD)]
        for c in ("base", "surf") if tier == "quick" else CFG:
            n = len(mkc(c).in_txt())
            r += [dict(k="cut", c=c, lo=lo, hi=min(n, lo + BC)) for lo in range(0, n, BC)]
        for c in ("surf", "newt") if tier == "quick" else CFG:
            r += [dict(k="val", c=c, p=p) for p in SWITCH] + [dict(k="mat", c=c, p=p) for p in MAT]
        r += [dict(k="refuse", c=c) for c in CFG]
        r += [dict(k="cb", c=c) for c in CFG]
        for f in FEATURES:
            for n in (1, 2, 3):
                r.append(dict(k="stag", f=f, n=n))
        r += [dict(k="conv", f=f) for f in FEATURES]
        for a in (0, 1):
            for law in ("pwl", "lin", "exp", "gbs"):
                r.append(dict(k="law", a=a, law=law))
        return r

    def key(self, sc):
        return "/".join("%s%s" % (k, v) if k not in ("k", "c", "f", "p") else str(v) for k, v in sc.items())

    def jobs(self, sc):
        """[(label, Job, reference or None, variant)]"""
        k = sc["k"]
        if k == "mem":
            return [("request %d refused" % i, self.oom(sc["c"], i, 2 + sc["m"])) for i in range(sc["lo"], sc["hi"])]
        if k == "disk":
            return [("write %d refused" % i, self.oom("file", i, 2 + sc["m"])) for i in range(sc["lo"], sc["hi"])]
        if k == "read":
            return [("request %d refused while the setup is read" % i, self.reader(i, sc["m"])) for i in range(sc["lo"], sc["hi"])]
        if k == "cut":
            o = []
            for i in range(sc["lo"], sc["hi"]):
                j = mkc(sc["c"]); t = j.in_txt(); j.intext = t[:i]; o.append(("setup file cut after byte %d" % i, j))
            return o
        if k == "val":
            o = []
            for v in BAD:
                j = mkc(sc["c"]); j.model[sc["p"]] = v; j.intext = "\n".join("%s = %s" % q for q in j.model.items()) + "\n" + "\n".join("Nb_phases = %d" % len(j.phases) if sc["p"] != "Nb_phases" and not i else "" for i in (0,)) + "\n"
                for i, p in enumerate(j.phases):
                    j.intext += "ID = %d\n" % i + "".join("%s = %s\n" % (a, fmt(b)) for a, b in p.items())
                o.append(("%s = %s" % (sc["p"], v), j))
            return o
        if k == "mat":
            o = []
            for v in BAD:
                j = mkc(sc["c"])
                t = "".join("%s = %s\n" % (a, fmt(b)) for a, b in j.model.items()) + "Nb_phases = %d\n" % len(j.phases)
                for i, p in enumerate(j.phases):
                    q = dict(p)
                    q[sc["p"]] = v if i == 0 else q.get(sc["p"], 0)
                    t += "ID = %d\n" % i + "".join("%s = %s\n" % (a, b if isinstance(b, str) else fmt(b)) for a, b in q.items())
                j.intext = t
                o.append(("%s = %s" % (sc["p"], v), j))
            return o
        if k == "refuse":        # contradictory or impossible setups: none may run
            return list(refusals(sc["c"]))
        if k == "cb":            # callbacks that return what no model can use
            o = []
            for v in ("nan", "inf", "-inf", "1e300", "-1e300"):
                for f in ("T", "P", "X", "d", "phi", "rho", "Txx", "Tzz", "Txz", "noise", "angle", "Vx", "Vz"):
                    j = mkc(sc["c"]); j.fields[f] = ("lin", float(v), 0.0, 0.0); o.append(("%s = %s" % (f, v), j))
                for q, ps in (("bcvx", ("W", "E", "N", "S")), ("bcvz", ("W", "E", "N", "S"))):
                    for p in ps:
                        j = mkc(sc["c"]); setattr(j, q, dict(getattr(j, q), **{p: (0 if (q == "bcvx") == (p in "WE") else 11, float(v))})); o.append(("%s %s = %s" % (q, p, v), j))
                for p in ("W", "E", "N", "S"):
                    j = mkc(sc["c"]); j.bct = dict(j.bct, **{p: (1, float(v))}); o.append(("bct %s = %s" % (p, v), j))
                if mkc(sc["c"]).model.get("free_surface"):
                    j = mkc(sc["c"]); j.topo = [float(v)] * 2; o.append(("topography = %s" % v, j))
            return o
        if k == "stag":
            o = []
            for m in (1, 2, 3):
                at = list(range(1, sc["n"] + 1))
                j = make([sc["f"]], model=dict(Nt=1, safe_mode=1, max_num_stag=m, nit_max=40, safe_dt_div=2.0))
                j.hooks = ("nl", "out"); j.extra = list(j.extra) + ["env MC_STAG " + ",".join("1:%d" % q for q in at)]
                o.append(("%d stagnations, at most %d" % (sc["n"], m), j))
            return o
        if k == "conv":          # safe mode: a step whose iterations run out ends the run
            return [("at most %d iterations, targets %g" % (n, tol), make([sc["f"]], model=dict(Nt=2, safe_mode=1, nit_max=n, nonlin_abs_mom=tol, nonlin_abs_div=tol, nonlin_rel_mom=1e-30, nonlin_rel_div=1e-30)))
                    for n in (1, 2, 3, 5) for tol in (1e-30, 1e-12, 1e-8, 1e-5)]
        o = []
        N = dict(pwl=("npwl", "Qpwl", "Vpwl"), lin=("nlin", "Qlin"), exp=("Qexp", "Sexp"), gbs=("ngbs", "Qgbs"))
        for T in (1.0, 50.0, 300.0, 900.0, 3000.0, 1e5):
            for dt in (1e8, 1e12, 1e18):
                for el in (0, 1):
                    for e in (1e-30, 1e-14, 1e-2):
                        j = make(["aniso"] if sc["a"] else [], model=dict(Nt=1, nit_max=3, elastic=el, dt=dt, bkg_strain_rate=e))
                        j.fields["T"] = ("lin", T, 0.0, 0.0); j.bct = {}
                        for p in j.phases:
                            p.update(cstv=0, **{sc["law"] + "v": dict(pwl=10, lin=10, exp=40, gbs=40)[sc["law"]]})
                            if sc["law"] == "gbs":
                                p.update(cstv=1, gs_ref=1e-3)
                        o.append(("T=%g dt=%g elastic=%d rate=%g" % (T, dt, el, e), j))
        return o

    def evaluate(self, scs):
        return pmap(self._batch, scs, 3, ("oom", "fast"))

    def _batch(self, scs):
        res = []
        refs = getattr(self, "refs", None)
        if refs is None:
            refs = self.refs = {}
        for sc in scs:
            r = Res(); res.append(r)
            J = self.jobs(sc)
            mem = sc["k"] in ("mem", "read", "disk")
            c = sc.get("c") or dict(disk="file").get(sc["k"])
            if mem and (sc["k"], c) not in refs:
                b = self.reader(0) if sc["k"] == "read" else self.oom(c, 0, 6 if sc["k"] == "disk" else 2)
                run_jobs([b], variant="oom")
                if not b.ok():
                    r.note = "the run without fault does not complete"; b.clean(); continue
                refs[(sc["k"], c)] = b.snaps("input") if sc["k"] == "read" else (b.snaps("out"), b.snaps("h5")) if c == "file" else b.snaps("out")
                b.clean()
            run_jobs([j for _, j in J], variant="oom" if mem else "fast", timeout=10)
            for t, j in J:
                self.judge(sc, t, j, refs.get((sc["k"], c)), c, r)
                j.clean()
        return res

    def judge(self, sc, t, j, ref, c, r):
        r.trans += 1
        s = j.status()
        done = os.path.exists(os.path.join(j.dir, "done"))
        if s == "exit 0" and not done:
            r.bad("%s: the run breaks off but reports success; %s" % (t, j.log(120).replace("\n", " "))); return
        if s in ("exit 96", "exit 97", "exit 98", "exit 99", "exit 95"):
            r.bad("%s: harness %s" % (t, s)); return
        if not done:
            r.states += 1
            if sc["k"] in ("mem", "disk"):     # what was written before the failure is unimpaired
                self.same(t + " and the run fails, but before that", ref[0] if c == "file" else ref, j.snaps("out", cut=True), r)
            return
        if sc["k"] == "read":
            A, C = ref[0], j.snaps("input")[0]
            d = [q for q in A if q not in C or A[q].shape != C[q].shape or not np.array_equal(A[q], C[q], equal_nan=A[q].dtype.kind == "f")]
            if d:
                r.bad("%s: completes with other settings: %s" % (t, d[:4]))
            r.states += 1; return
        if sc["k"] == "refuse":
            r.states += 1; r.bad("%s: accepted" % t); return
        if c == "file" and ref is not None:
            H = j.snaps("h5"); W = ref[1]
            if len(H) != len(W):
                r.bad("%s: completes with %d readable files instead of %d" % (t, len(H), len(W))); return
            for x, y in zip(W, H):
                d = [q for q in x if q not in y or not np.array_equal(x[q], y[q], equal_nan=x[q].dtype.kind == "f")]
                if d:
                    r.bad("%s: completes with other file contents: %s" % (t, d[:4])); return
            ref = ref[0]
        S = j.snaps("out")
        r.states += len(S)
        if not S:
            r.bad("%s: success without output" % t); return
        w = abs(int(S[-1]["p.writer_step"][0])) or 1
        if int(S[-1]["p.step"][0]) < int(S[-1]["p.Nt"][0]) // w * w:
            r.bad("%s: success at step %d of %d" % (t, int(S[-1]["p.step"][0]), int(S[-1]["p.Nt"][0]))); return
        for x in S[1:]:
            for n in ("m.u_in", "m.v_in", "m.p_in"):
                if not np.isfinite(x[n]).all():
                    r.bad("%s: success with %s not finite at step %d" % (t, n, int(x["p.step"][0]))); return
        if sc["k"] == "conv":
            for x in S[1:]:
                q = [float(x["n." + n][0]) for n in ("resx", "resz", "resp")]
                if int(x["n.nit"][0]) >= int(x["n.nit_max"][0]) and not (max(q[:2]) < float(x["n.nonlin_abs_mom"][0]) and q[2] < float(x["n.nonlin_abs_div"][0])):
                    r.bad("%s: step %d goes on after its last iteration with residuals %s" % (t, int(x["p.step"][0]), q)); return
        if ref is not None:
            if len(S) != len(ref):
                r.bad("%s: %d outputs instead of %d" % (t, len(S), len(ref))); return
            self.same(t + ": completes", ref, S, r)

    def same(self, t, ref, S, r):
        for x, y in zip(ref, S):
            el = int(x["p.elastic"][0])
            d = obs.compare(obs.observe(x, el), obs.observe(y, el), tol=1e-9, skip=())
            if d:
                r.bad("%s with other results, output %d: %s %s" % (t, int(x["p.step"][0]), d[0][0], d[0][2])); return
