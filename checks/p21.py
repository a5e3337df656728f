"""P21 nonlinear iterations: each correction solves the linearised balance, the iterations stop exactly where they should, and a stagnating step restarts cleanly."""
import itertools
from mc import *
from space import FEATURES, XFEATURES, make
from runner import Check, Res
from ref import G
from p05 import balance

NEVER = {"x.anidbg", "x.surfdbg", "x.still", "x.maps"}
NONLIN = ["powermix", "powerlaw", "power0", "gbs", "expo", "plast", "soft", "dilat", "x.npow", "x.nlin", "x.nexp", "x.slim", "x.hotexp", "x.hotpow", "x.grain", "x.gsbkg", "x.nplharm", "x.nplgeo", "x.softharm", "x.softgeo", "x.yield2", "x.soft0", "x.psisoft"]
NONL = NONLIN + ["densvar", "linear", "x.anilin", "x.aniexpo", "x.anipow", "x.aniplast", "x.p2n", "x.p2nits", "x.ls", "x.astvol", "x.hotani", "x.safe"]
INEX = {"x.ss2", "x.tmpl2", "densvar", "x.bals", "x.stepani", "x.hotani", "x.vxW2", "x.vxE2", "x.vzS2", "x.vNS", "x.safe"} | {f for f in list(FEATURES) + list(XFEATURES) if f.startswith(("aniso", "x.ani", "x.anoisy"))}      # the derivative is known not to be exact
STAB = {"surfstab", "x.gxstab", "x.nsurf", "x.sp5stab", "x.stepstab", "x.dn0s"}
NOSTAB = {"dilat", "powerlaw", "x.hotpow", "x.softharm", "x.softgeo", "x.psisoft"}
TOLS = ((1e-11, 1e-11, 1e-11, 1e-11), (1e-4, 1e-11, 1e-11, 1e-11), (1e-11, 1e-3, 1e-11, 1e-3), (1e-30, 1e-30, 1e-30, 1e-30), (1e-11, 1e-2, 1e30, 1e-11), (1e30, 1e-11, 1e-11, 1e-5), (1e30, 1e30, 1e30, 1e30))
KEYS = ("nonlin_abs_mom", "nonlin_rel_mom", "nonlin_abs_div", "nonlin_rel_div")


def i_(s, n):
    return int(s[n][0])


def f_(s, n):
    return float(s[n][0])


def steps(S):
    """per time step: list of [residual snapshot, snapshot after the correction or None, residuals along the correction]"""
    r = []
    for s in S:
        if s.tag == "nl:res":
            if not r or i_(r[-1][0][0], "p.step") != i_(s, "p.step"):
                r.append([])
            r[-1].append([s, None, []])
        elif s.tag == "nl:post":
            r[-1][-1][1] = s
        elif s.tag == "nl:fd":
            r[-1][-1][2].append(s)
    return r


def direct(res, fd):
    """(alpha, errors): change of the residual along the correction against minus alpha times the residual, blocks x, z, continuity"""
    F, D, E = [], [], []
    h = float(fd[0]["nl.h"][0])
    for n, b in (("ru", "BCu.type"), ("rv", "BCv.type"), ("rp", "BCp.type")):
        a0, a1, a2 = [q["m." + n] for q in (res, fd[0], fd[1])]
        ok = np.isin(res["m." + b].astype(np.int8), (-1, 2, -2)) & np.isfinite(a0)
        F.append(a0[ok]); D.append((a1 - a2)[ok] / (2 * h)); E.append((a1 + a2 - 2 * a0)[ok] / h)
    rms = [np.sqrt(np.mean(q * q)) if len(q) else 0.0 for q in F]
    w = max(rms[0], rms[1], 1e-300)
    A, B = np.concatenate(F[:2]) / w, np.concatenate(D[:2]) / w
    al = -A.dot(B) / A.dot(A) if A.dot(A) > 0 else 0.0
    g = G(res)
    es = max(np.sqrt(np.mean(np.where(g.air, 0, g.C("exxd")) ** 2)), np.sqrt(np.mean(np.where(g.airv, 0, g.V("exz")) ** 2))) * g.dx * g.dz
    sc = [w, w, max(rms[2], 1e-2 * es) if i_(res, "p.lin_solver") != 1 else np.inf]
    rm = lambda a: float(np.sqrt(np.mean(a ** 2))) if len(a) else 0.0
    return al, [rm(d + al * f) / c for f, d, c in zip(F, D, sc)], [rm(e) / c for e, c in zip(E, sc)]


class CHECK(Check):
    pid = "P21"
    level = "exploration"
    rule = ("scenario = (lin) a set of linear options, or a pair; (newt) Newton x rheology x option; (pic) rheology x option with frozen viscosities; (ctl) targets x limit of corrections x line search x switch to Newton x rheology; "
            "(stag) option set x corrections at which stagnation is injected x divisor of the time step; the real program is run, every iterate of every step is judged: the real residual is evaluated in forked copies on both sides of the iterate along its correction and its "
            "derivative must cancel the residual; the stop, the switch to Newton and the recorded history must be those the residuals command; a restarted step must equal one made with the divided time step")
    assumptions = ["grids 8x7", "derivative by central differences of step 1e-4 of the correction, judged at 1e-5 (linear), 1e-3 plus three times the curvature (Newton, local iterations are not exact)", "iterates with relative residual below 1e-6 are not differentiated",
                   "size of the residual = root mean square over the velocity nodes that are not next to the south and north (Vx) or west and east (Vz) sides, and over all cells, as the code defines it",
                   "option sets whose derivative is not exact on the unchanged code are listed in the check (INEX, NOSTAB) and judged on the other aspects only"]

    def space(self, tier):
        r = []
        A = [f for f in list(FEATURES) + list(XFEATURES) if f not in NEVER]
        L = [f for f in A if f not in NONL]
        for f in L:
            r.append(dict(k="lin", f=[f]))
        for a, b in itertools.combinations([f for f in L if f in FEATURES] if tier == "quick" else L, 2):
            r.append(dict(k="lin", f=[a, b]))
        for a in NONLIN if tier != "quick" else NONLIN[:12]:
            for b in A:
                if a != b and b != "newton" and not (b in NONLIN and NONLIN.index(b) < NONLIN.index(a)) and b not in INEX and not (b in STAB and a in NOSTAB) and not (b == "x.surfper" and a == "x.slim"):
                    r.append(dict(k="newt", f=["newton", a] + ([b] if b != "base" else [])))
        for a in NONLIN:
            for b in A if tier != "quick" else [f for f in A if f in FEATURES]:
                if a != b and not (b in NONLIN and NONLIN.index(b) < NONLIN.index(a)) and b not in ("newton", "pic2newt", "x.p2n", "x.p2nits", "x.stepnew"):
                    r.append(dict(k="pic", f=[a] + ([b] if b != "base" else [])))
        for f in (["base"], ["powermix"], ["newton", "powermix"], ["newton", "expo"], ["powermix", "surf"], ["newton", "powermix", "aniso"], ["elcomp", "powerlaw"]):
            for t in range(len(TOLS)):
                for n in (0, 1, 2, 6, 20):
                    for ls in (0, 1):
                        for g in (0, 1):
                            r.append(dict(k="ctl", f=f, t=t, n=n, ls=ls, g=g))
        for f in (["powermix"], ["expo"], ["elcomp", "powerlaw"], ["powermix", "surf"]):
            for p in (1e30, 1e-1, 1e-3, 1e-30):
                for mp in (0, 1, 3, 100):
                    for t in (0, 1, 3):
                        for n in (1, 6):
                            r.append(dict(k="ctl", f=f, t=t, n=n, ls=0, g=0, p2n=p, mp=mp))
        for f in A:
            if (tier != "quick" or f in FEATURES) and f not in ("courant", "dtred", "dtmax"):
                for at, dv in (([1], 4.0), ([2], 3.0), ([1, 2], 2.0), ([1, 3], 5.0)):
                    r.append(dict(k="stag", f=[f], at=at, dv=dv))
        return r

    def key(self, sc):
        return sc["k"] + "/" + "+".join(sc["f"]) + "".join("/%s%s" % (k, sc[k]) for k in sc if k not in ("k", "f"))

    def job(self, sc):
        k = sc["k"]
        i = sum(map(ord, self.key(sc)))
        mod = dict(Nt=1)
        if k == "pic":
            mod["nit_max"] = 4
        if k == "ctl":
            mod = dict(Nt=2, nit_max=sc["n"], diag_scaling=i % 2, line_search=sc["ls"], let_res_grow=sc["g"], **dict(zip(KEYS, TOLS[sc["t"]])))
            if "p2n" in sc:
                mod.update(Picard2Newton=1, Newton=1, Picard2Newton_tol=sc["p2n"], max_its_Pic=sc["mp"])
        if k == "stag":
            ats, dv = sc.get("at"), sc["dv"]
            mod = dict(Nt=1, elastic=1, safe_mode=1, max_num_stag=4, nit_max=80, safe_dt_div=dv, dt=(1.5e12 if ats else 1.5e12 / dv ** sc.get("n", 0)))
        j = make(sc["f"], model=mod, hooks=("nl", "out"))
        if k == "stag" and sc.get("at"):
            j.extra = list(j.extra) + ["env MC_STAG " + ",".join("1:%d" % q for q in sc["at"])]
        if k in ("lin", "newt"):
            j.extra = list(j.extra) + ["env MC_FD 1e-4"]
        return j

    def evaluate(self, scs):
        jobs = [self.job(s) for s in scs]
        run_jobs(jobs)
        out = []
        for sc, j in zip(scs, jobs):
            r = Res()
            if not j.ok():
                r.note = "did not end: %s" % (j.status(),)
            else:
                S = j.snaps(None)
                getattr(self, sc["k"])(sc, j, S, r)
                r.states = len(S); r.trans = sum(s.tag == "nl:post" for s in S)
            j.clean()
            out.append(r)
        return out

    # ---- corrections are exact
    def lin(self, sc, j, S, r):
        for st in steps(S)[:1]:
            for it, (res, post, fd) in enumerate(st):
                rel = max(f_(res, "n.resx") / f_(res, "n.resx0"), f_(res, "n.resz") / f_(res, "n.resz0"))
                if len(fd) < 2:
                    continue
                al, e, e2 = direct(res, fd)
                N = i_(res, "p.Newton")
                if sc["k"] == "lin" and it > 0 or sc["k"] == "newt" and (it == 0 or not N):
                    continue
                if rel < 1e-6 or (it and i_(post, "n.stagnated")):
                    continue
                r.sub += 1
                if max(e) > (1e-3 + 3 * max(e2) if it else 1e-4 if i_(res, "p.lin_solver") == 1 else 1e-5) or abs(al - 1) > 1e-5 and not i_(res, "p.line_search"):
                    r.bad("iteration %d (relative residual %.1e): along the correction the residual changes by %.9f of itself with errors %s" % (it, rel, al, " ".join("%.1e" % x for x in e)) + " (curvature %s)" % " ".join("%.1e" % x for x in e2))
                    return
    newt = lin

    def pic(self, sc, j, S, r):
        """the change of the flow from one iterate to the next restores the balance for the viscosities of the first"""
        for st in steps(S)[:1]:
            for (a, post, _), (b, _, _) in zip(st, st[1:]):
                if i_(a, "p.Newton") or i_(post, "n.stagnated") or i_(a, "p.line_search"):
                    return
                v = dict(a); ga, gb = G(a), G(b)
                for n in ("sxxd", "szzd"):
                    v["m." + n] = a["m." + n] + 2 * a["m.eta_n"] * (b["m." + n.replace("s", "e", 1) if n == "sxxd" else "m.ezzd"] - a["m.exxd" if n == "sxxd" else "m.ezzd"])
                v["m.sxz"] = a["m.sxz"] + 2 * a["m.eta_s"] * (b["m.exz"] - a["m.exz"])
                for n in ("p_in", "u_in", "v_in", "exxd", "ezzd", "exz", "div_u", "wxz"):
                    v["m." + n] = b["m." + n]
                v["m.p_corr"] = a["m.p_corr"] + b["m.p_in"] - a["m.p_in"]
                r.sub += 1
                f0 = {}; balance(a, oop="oop" in sc["f"], fields=f0)
                for n, e, s in balance(v, oop="oop" in sc["f"]):
                    if ("force" in n or "mass" in n) and e > (1e-3 if i_(a, "p.lin_solver") == 1 else 1e-6) * s:
                        r.bad("iteration %d: %s misses by %.2e of %.2e with the viscosities of that iterate (residual before %.2e)" % (i_(a, "n.nit"), n, e, s, max(np.abs(f0["fx"]).max(), np.abs(f0["fz"]).max())))
                        return

    def ctl(self, sc, j, S, r):
        """the iterations stop at the first iterate that meets the request, and never otherwise but at the limit or at stagnation"""
        want = TOLS[sc["t"]]
        outs = {i_(s, "p.step"): s for s in S if s.tag.startswith("out")}
        for st in steps(S):
            step = i_(st[0][0], "p.step"); where = "step %d: " % step
            hist = []; newton = "p2n" not in sc and "newton" in sc["f"]
            for it, (a, post, _) in enumerate(st):
                r.sub += 1
                q = [f_(a, "n." + n) for n in ("resx", "resz", "resp")]
                if it == 0:
                    q0 = q
                rel = [x / y if y else (0.0 if not x else np.inf) for x, y in zip(q, q0)]
                ok = all(x < want[m] or y < want[m + 1] for x, y, m in zip(q, rel, (0, 0, 2)))
                if i_(a, "n.nit") != it:
                    return r.bad(where + "iteration %d counted as %d" % (it, i_(a, "n.nit")))
                if it and "p2n" in sc and (newton or min(hist[-1][1]) < sc["p2n"] or it >= sc["mp"]):
                    newton = True
                if i_(a, "p.Newton") != int(newton):
                    return r.bad(where + "iteration %d is %s, the request is %s" % (it, "Newton" if i_(a, "p.Newton") else "Picard", "Newton" if newton else "Picard"))
                if it and sc["ls"] and not sc["g"] and i_(a, "p.Newton") == i_(st[it - 1][0], "p.Newton") and not i_(a, "p.diag_scaling"):
                    o = hist[-1][0]
                    if not any(x < y for x, y in zip(q, o)):
                        return r.bad(where + "correction %d of the line search made all residuals grow: %s from %s" % (it, q, o))
                hist.append((q, rel, int(newton)))
                last = it == len(st) - 1
                if ok and (post is not None or not last):
                    return r.bad(where + "a correction was computed although iteration %d meets the request: residuals %s, relative %s" % (it, q, rel))
                if not ok and post is None:
                    return r.bad(where + "stopped at iteration %d, residuals %s, relative %s, requested %s" % (it, q, rel, want))
                if post is not None and last and it != sc["n"] and not i_(post, "n.stagnated"):
                    return r.bad(where + "stopped after correction %d of %d without reaching the request" % (it, sc["n"]))
                if it > sc["n"]:
                    return r.bad(where + "more than the requested corrections")
                if post is not None and not last and i_(post, "n.stagnated"):
                    return r.bad(where + "went on after stagnation")
                if not i_(a, "p.diag_scaling"):
                    self.norm(a, q, where + "iteration %d: " % it, r)
                    if r.viol:
                        return
            o = outs.get(step)
            if o is None:
                return r.bad(where + "no output")
            for it, (q, rel, nw) in enumerate(hist):
                for n, v in zip(("rx", "rz", "rp"), range(3)):
                    if o["n.%s_abs" % n][it] != q[v] or rel[v] != np.inf and q0[v] and abs(o["n.%s_rel" % n][it] - rel[v]) > 1e-14 * rel[v]:
                        return r.bad(where + "recorded history of iteration %d is %s %.9g, the iterate had %.9g" % (it, n, o["n.%s_abs" % n][it], q[v]))
                if int(o["n.isNewton"][it]) != nw:
                    return r.bad(where + "iteration %d recorded as %d" % (it, int(o["n.isNewton"][it])))

    @staticmethod
    def norm(a, q, where, r):
        """the residuals are the imbalance of the iterate"""
        g = G(a)
        f = {}; balance(a, fields=f)
        vol = g.dx * g.dz
        bu, bv = g.U("BCu.type").astype(np.int8), g.W("BCv.type").astype(np.int8)
        for n, F, t, on, v in (("horizontal force balance", f["fx"], g.U("ru")[1:-1], bu[1:-1] == -1, 0), ("vertical force balance", f["fz"], g.W("rv")[:, 1:-1], bv[:, 1:-1] == -1, 1), ("mass balance", f.get("m"), g.C("rp"), ~g.air, 2)):
            if F is None:
                continue
            sc = (f["scale"] if v < 2 else f["es"]) * vol
            d = np.where(on, np.abs(np.abs(t) - np.abs(F) * vol), 0).max()
            if d > 1e-9 * sc:
                return r.bad(where + "%s misses by %.6g but the residual says %.6g (scale %.3g)" % (n, np.abs(F * vol).max(), np.abs(np.where(on, t, 0)).max(), sc))
        for v, (F, t, rows) in enumerate(((g.U("ru"), bu, slice(3, g.Nz - 1)), (g.W("rv").T, bv.T, slice(3, g.Nx - 1)), (g.C("rp"), None, slice(None)))):
            on = ~np.isin(t, (0, 30, 11, 13, -12))[rows] if t is not None else ~g.air
            n = np.sqrt(np.mean(F[rows][on] ** 2)) if on.any() else np.nan
            if not abs(n - q[v]) <= 1e-9 * n:
                return r.bad(where + "residual %d is %.9g, the imbalance of the flow has the size %.9g" % (v, q[v], n))

    def stag(self, sc, j, S, r):
        """after stagnation the step is the one that would have been made with the divided time step from the start"""
        n = sum(i_(s, "n.stagnated") for s in S if s.tag == "nl:post")
        j2 = self.job(dict(sc, at=None, n=n)); run_jobs([j2])
        if not j2.ok():
            r.note = "reference did not end: %s" % (j2.status(),); j2.clean(); return
        O = [[s for s in q if s.tag.startswith("out")] for q in (S, j2.snaps(None))]
        j2.clean()
        if len(O[0]) != len(O[1]):
            return r.bad("%d outputs after stagnation, %d without" % (len(O[0]), len(O[1])))
        for a, b in zip(O[0][1:], O[1][1:]):
            r.sub += 1
            for n in ("p.dt", "p.time"):
                if abs(f_(a, n) - f_(b, n)) > 1e-12 * abs(f_(b, n)):
                    return r.bad("step %d: %s is %.9g after the restart, a run with that time step has %.9g" % (i_(a, "p.step"), n[2:], f_(a, n), f_(b, n)))
            g = G(a); live = ~g.air.ravel()
            for n in ("u_in", "v_in", "p_in", "sxxd", "szzd", "sxz", "eta_n", "eta_s", "exxd", "T", "rho_n", "strain_n", "eII_pl"):
                if "m." + n not in a:
                    continue
                x, y = a["m." + n], b["m." + n]
                if len(x) == len(live):
                    x, y = x[live], y[live]
                x, y = x[np.isfinite(x) & np.isfinite(y)], y[np.isfinite(x) & np.isfinite(y)]
                d = np.abs(x - y).max() if len(x) else 0.0
                if d > 1e-5 * np.abs(y).max():
                    return r.bad("step %d: %s differs by %.3g of %.3g from a run made with that time step" % (i_(a, "p.step"), n, d, np.abs(y).max()))
            for n in ("x", "z", "sxxd", "sxz", "T", "P", "strain"):
                k = "k." + n
                if k in a and len(a[k]) == len(b[k]):
                    d = np.abs(a[k] - b[k]).max(); s = np.abs(b[k]).max()
                    if d > 1e-5 * s:
                        return r.bad("step %d: marker field %s differs by %.3g of %.3g from a run made with that time step" % (i_(a, "p.step"), n, d, s))
