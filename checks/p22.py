"""P22 time: every step has the length prescribed by the limits in force, everything in the step uses that length, and the clock is the sum of the steps."""
import itertools
from mc import *
from space import FEATURES, XFEATURES, make, LOOSE, TOPO
from runner import Check, Res
from ref import courant

NEVER = {"x.anidbg", "x.surfdbg", "x.maps"}
MOTION = {"pure": dict(bkg_strain_rate=1e-14), "simple": dict(shear_style=1, bkg_strain_rate=1e-14), "box": dict(pure_shear_ALE=1, bkg_strain_rate=2e-14), "none": dict(bkg_strain_rate=0.0, gz=0.0)}
LIMIT = {"": {}, "surf": dict(free_surface=1, surface_processes=1, surf_diff=1e-6, surf_Vinc=1e-10), "surf+": dict(free_surface=1, surface_processes=1, surf_diff=1e-6, surf_Vinc=3e-8),
         "chem": dict(chemical_diffusion=1, user1=1e14, dt_reduction_factor=2.0), "chem+": dict(chemical_diffusion=1, user1=3e11, dt_reduction_factor=10.0), "chem0": dict(chemical_diffusion=1)}


class CHECK(Check):
    pid = "P22"
    level = "exploration"
    rule = ("scenario = Courant number x first step x elasticity x largest and smallest step x further limits (surface processes, reaction) x kind of motion, all option sets up to size two with adaptive steps, and runs in which "
            "the solver stagnates; the length and the clock of every step of the real run are compared with the limits evaluated on the flow of the step before")
    assumptions = ["grids 8x7, 6x9 and 5x6", "tolerance 1e-10 of the step"]

    def space(self, tier):
        r = []
        for C, dt, el, mx, mn, li, mo in itertools.product((0.1, 0.5), (1e9, 1e11, 1e12, 1e14), (0, 1), (0, 2e11, 5e12), (0, 3e11), LIMIT, MOTION):
            if li[:4] == "surf" and mo in ("box", "simple") or tier == "quick" and li and mo == "simple":
                continue
            r.append(dict(C=C, dt=dt, el=el, mx=mx, mn=mn, li=li, mo=mo, cst=0))
        for dt, el, li, mo in itertools.product((1e9, 1e12), (0, 1), LIMIT, MOTION):
            if li[:4] == "surf" and mo in ("box", "simple"):
                continue
            r.append(dict(C=0.5, dt=dt, el=el, mx=0, mn=0, li=li, mo=mo, cst=1))
        A = [f for f in list(FEATURES) + list(XFEATURES) if f not in NEVER]
        for a in A:
            for dt in (1e10, 1e12, 1e14):
                r.append(dict(f=[a], dt=dt))
        B = [f for f in FEATURES if f not in NEVER]
        for i, (a, b) in enumerate(itertools.combinations(B, 2)):
            if tier == "quick" and i % 3 and not {"courant", "elastic", "dtred", "dtmax", "ale"} & {a, b}:
                continue
            r.append(dict(f=[a, b], dt=(1e11, 1e12, 3e13)[i % 3]))
        for dt, div, tol, C in itertools.product((1e10, 1e12), (2.0, 5.0), (1e-12, 1e-13, 1e-14, 1e-15), (2e7, 3e7, 1e8)):
            r.append(dict(safe=1, dt=dt, div=div, tol=tol, C=C))
        return r

    def key(self, sc):
        return "/".join("+".join(v) if isinstance(v, list) else "%s%s" % (k, v) for k, v in sc.items())

    def job(self, sc):
        hooks = ("out", "clock")
        if "safe" in sc:
            return self.safe(sc, hooks)
        if "f" in sc:
            return make(sc["f"], model=dict(Nt=3, Nx=8, Nz=7, xmax=2.3e4, constant_dt=0, dt=sc["dt"], nit_max=2, **LOOSE), hooks=hooks)
        m = dict(Nt=4, Nx=5, Nz=6, xmax=2.3e4, Courant=sc["C"], dt=sc["dt"], constant_dt=sc["cst"], nit_max=1, elastic=sc["el"], **LOOSE)
        if sc["mx"]:
            m["dt_max"] = sc["mx"]
        if sc["mn"]:
            m["dt_min"] = sc["mn"]
        m.update(MOTION[sc["mo"]]); m.update(LIMIT[sc["li"]])
        return make(["base"], model=m, hooks=hooks, **(dict(topo=TOPO) if sc["li"][:4] == "surf" else {}))

    def safe(self, sc, hooks):
        j = make(["elastic"], model=dict(Nt=3, Nx=8, Nz=7, xmax=2.3e4, safe_mode=1, safe_dt_div=sc["div"], max_num_stag=40, constant_dt=0, dt=sc["dt"], line_search=1, nit_max=30,
                                         nonlin_abs_mom=sc["tol"], nonlin_rel_mom=1e-30, nonlin_abs_div=1e-8, nonlin_rel_div=1e-30), hooks=hooks)
        for p in j.phases:
            p.update(plast=1, C=sc["C"], phi=10.0, eta_vp=0.0)
        return j

    def evaluate(self, scs):
        return pmap(self._batch, scs, 40)

    def _batch(self, scs):
        jobs = [self.job(sc) for sc in scs]
        run_jobs(jobs)
        res = []
        for sc, j in zip(scs, jobs):
            r = Res(); res.append(r)
            A = j.snaps(None) if j.ok() else []
            if not j.ok():
                r.note = "run does not complete: " + self.key(sc)
            S = [s for s in A if s.tag.startswith("out")]
            if S and int(S[0]["p.step"][0]) == 0:
                r.states += 1
                self.first(j, S[0], r)
            for q, s in zip(S, S[1:]):
                if int(s["p.step"][0]) != int(q["p.step"][0]) + 1:
                    continue
                r.states += 1; r.trans += 1
                self.step(sc, q, s, [c for c in A if c.tag.startswith("clock") and int(c["p.step"][0]) == int(s["p.step"][0])], r)
                if r.viol:
                    break
            j.clean()
        return res

    def first(self, j, s, r):
        f = lambda n: float(s["p." + n][0])
        t = float(s["s.t"][0])
        for n, u, d in (("dt_start", t, "dt"), ("dt_max", t, "dt_max"), ("dt_min", t, "dt_min"), ("Courant", 1.0, "Courant"), ("safe_dt_div", 1.0, "safe_dt_div"), ("dt_reduction_factor", 1.0, "dt_reduction_factor")):
            if d in j.model and "p." + n in s and not abs(f(n) * u - float(j.model[d])) <= 1e-10 * abs(float(j.model[d])):
                r.bad("%s is %.10g in the run, %.10g in the input" % (d, f(n) * u, float(j.model[d]))); return
        want = f("dt_start")
        if int(s["p.elastic"][0]) and int(s["p.constant_dt"][0]) != 1:          # not longer than the shortest relaxation time
            on = s["m.BCg.type"] != 30
            want = min(want, (s["m.eta_s"][on] / s["m.mu_s"][on]).min())
        r.sub += 1
        if not abs(f("dt") - want) <= 1e-10 * want:
            r.bad("the run starts with a step of %.10g, prescribed %.10g" % (f("dt"), want))

    def step(self, sc, q, s, clock, r):
        f = lambda x, n: float(x["p." + n][0])
        n, dt = int(s["p.step"][0]), f(s, "dt")
        want = courant(q, f(q, "dt"))
        r.sub += 3
        k = 1.0
        if f(s, "safe_mode") == 1 and int(s["p.elastic"][0]):
            k = f(s, "safe_dt_div") ** max(0, round(np.log(want / dt) / np.log(f(s, "safe_dt_div"))))
            if k > 1:
                r.note = "step shortened by the safe mode"
        if not abs(dt * k - want) <= 1e-10 * want:
            r.bad("step %d has length %.10g, the limits in force give %.10g" % (n, dt, want / k)); return
        t0, t1 = f(q, "time"), f(s, "time")
        if not abs(t1 - t0 - dt) <= 1e-10 * max(dt, t1):
            r.bad("step %d: the clock advances by %.10g during a step of %.10g" % (n, t1 - t0, dt)); return
        adv = {}
        for c in {c.tag if c.tag.endswith("law") else i: c for i, c in enumerate(clock)}.values():      # of the flow law the last evaluation of the step
            what = c.tag.split(":")[1]
            h = f(c, "dt")
            r.sub += 1
            if what.startswith("adv"):
                adv[what] = adv.get(what, 0.0) + h
            elif not abs(h - dt) <= 1e-10 * dt:
                r.bad("step %d: %s works with a step of %.10g instead of %.10g" % (n, what, h, dt)); return
        for a, h in adv.items():
            if not abs(h - dt) <= 1e-9 * dt:
                r.bad("step %d: markers are moved over a time of %.10g instead of %.10g" % (n, h, dt)); return
