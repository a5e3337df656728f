"""P15 setup file: a run starts from exactly the values written, whatever the layout of the file; absent parameters take their documented values."""
import itertools
from mc import *
from runner import Check, Res
from setup import MODEL, PHASE, TEXT, expected

SEP = (" = ", "=", "   =      ", "\t=\t", " =")
TRAIL = ("", "   ", "  // note = 5", " /* 1e9 */", "\r")
VAL = {"i": (2, -3), "d": (3.7e-3, -1.25e6)}
ONLY = {"interp_stencil": (9,), "lin_solver": (1, 0), "Nx": (23, 6), "Nz": (23, 6), "ani_average": (0, 2), "eta_average": (1, 2), "writer": (1,), "istep": (2,), "shear_style": (2, 1)}
PVAL = {"C": 3e7, "Slim": 6e8, "n_vp": 0.5, "coh_soft": 1, "phi_soft": 1, "psi_soft": 1, "pwlv": 40, "linv": 40, "gbsv": 40, "expv": 40, "gs": 40, "kin": 9, "reac_soft": 1, "reac_phase": 0, "density_model": 1, "phase_diagram": 3, "cstv": 2, "gsel": 1,
        "psi": 7.0, "phi": 12.5, "phie": 4.5, "psie": 3.25, "Ce": 1.5e6, "aniso_angle": 33.0, "phase_mix": 1, "phase_two": 0, "melt": 11, "yield": 2, "plast": 0, "transmutation": -1, "transmutation_phase": 0, "ani_fstrain": 1}
NEEDS = {"coh_soft": {"Ce": 1e5}, "phi_soft": {"phie": 5.0}, "psi_soft": {"psie": 2.0}}
SCALES = (dict(eta=2.5, L=3.0, V=0.7, T=11.0), dict(), dict(eta=1e22, L=1e4, V=1e-9, T=100.0))
RUNKEYS = [r for r in MODEL if r[2][:2] in ("n.", "k.")]
RVAL = {"i": (3, 5), "d": (3.7e-3, 2.5e-7)}
REFUSE = {"stencil": (dict(interp_stencil=2), [{}]), "dilation": ({}, [dict(psi=5.0)]), "dilsoft": ({}, [dict(psi_soft=1, psie=3.0)]), "limit": ({}, [dict(C=5e7, Slim=4e7)]), "nolaw": ({}, [dict(cstv=0)]), "nvp": ({}, [dict(n_vp=2.0, eta_vp=1e20)]),
          "reac": ({}, [dict(reac_soft=1, reac_phase=3)]), "cohsoft": ({}, [dict(coh_soft=1)]), "phisoft": ({}, [dict(phi_soft=1)]), "nolaw2": ({}, [{}, dict(cstv=0)]), "limit2": ({}, [{}, dict(C=5e7, Slim=4e7)])}
BASE = dict(noisy=0)


def text(model, phases, sep=0, trail=0, order="std", perm=None, nl=True, decoy=None, nph=None):
    s, t = SEP[sep], TRAIL[trail]
    f = lambda k, v: "%s%s%s%s" % (k, s, v if isinstance(v, str) else fmt(v), t)
    M = [f(k, v) for k, v in model.items()]
    if order == "rev":
        M = M[::-1]
    M = ["/**** SWITCHES ****/"] + M
    if decoy:
        M = ["// %s = 77" % decoy, "/* %s = 78 */" % decoy, "x%s = 79" % decoy, "%sx = 80" % decoy, "%s_ = 81" % decoy, "", "# %s=82" % decoy, "this %s = 83" % decoy] + M
    P = []
    for i in perm or range(len(phases)):
        P += ["", "/**** PHASE ****/", f("ID", i)] + [f(k, v) for k, v in phases[i].items()]
    N = [f("Nb_phases", len(phases) if nph is None else nph)]
    L = {"std": M + N + P, "rev": N + M + P, "last": N + P + [""] + M, "mid": M[:len(M) // 2] + N + M[len(M) // 2:] + P}[order]
    return "\n".join(L) + ("\n" if nl else "")


class CHECK(Check):
    pid = "P15"
    level = "exploration"
    rule = ("scenario = a parameter x values x spacing x trailing text x line end x position in the file x decoy lines with similar names, material parameters x every subset of the phases defining them x every order of the phase blocks, all parameters at once, "
            "every combination of parameters that imply others, contradictory setups; the real program reads the file and every parameter it starts from is compared with the values written, the documented defaults and units")
    assumptions = ["parameter names start at the beginning of a line, each parameter is given once", "values within the range of the parameter; three phases at most"]

    def space(self, tier):
        r = []
        for n, (key, kind, *_) in enumerate(MODEL):
            if (key, kind) in [(k[0], k[1]) for k in RUNKEYS]:
                continue
            vs = ONLY.get(key, VAL[kind])
            for v in vs:
                for s in range(len(SEP)):
                    for t in range(len(TRAIL)):
                        r.append(dict(k="one", key=key, v=v, s=s, t=t, o="std", nl=1, d=0))
                for o, nl, d in itertools.product(("std", "rev", "last", "mid"), (1, 0), (0, 1)):
                    r.append(dict(k="one", key=key, v=v, s=0, t=0, o=o, nl=nl, d=d))
        for key, *_ in TEXT:
            for ln in (1, 8, 31, 52, 120):
                for s in range(len(SEP)):
                    for o, nl in itertools.product(("std", "last"), (1, 0)):
                        r.append(dict(k="txt", key=key, n=ln, s=s, o=o, nl=nl))
        for n in (2, 3, 4):
            for ks in itertools.permutations([k for k, _ in TEXT], n):
                for s in range(len(SEP)):
                    for o in ("std", "last"):
                        r.append(dict(k="txts", ks=list(ks), s=s, o=o))
        for key, *_ in PHASE:
            for sub in range(1, 8):
                for pi in range(6):
                    r.append(dict(k="ph", key=key, sub=sub, pi=pi, s=0, t=0, nl=1))
            for s in range(len(SEP)):
                for t in range(len(TRAIL)):
                    r.append(dict(k="ph", key=key, sub=5, pi=3, s=s, t=t, nl=0))
        for sc in range(len(SCALES)):
            for o in ("std", "rev", "last", "mid"):
                for s in range(len(SEP)):
                    for t in range(len(TRAIL)):
                        for vi in (0, 1):
                            r.append(dict(k="all", sc=sc, o=o, s=s, t=t, vi=vi))
        for c in itertools.product((0, 1), (0, 1), (0, 1), (0, 1, 2), (0, 1)):
            r.append(dict(k="imp", m=dict(anisotropy=c[0], finite_strain=c[1], Newton=c[2], lin_solver=c[3], line_search=c[4])))
        for c in itertools.product((0, 1, 2), (0, 1), (0, 3), (0, 1)):
            r.append(dict(k="imp", m=dict(shear_style=c[0], periodic_x=c[1], istep=c[2], irestart=c[3])))
        for key, kind, *_ in RUNKEYS:
            for v in RVAL[kind]:
                for nw in (0, 1):
                    for s in range(len(SEP)):
                        r.append(dict(k="run", key=key, v=v, nw=nw, s=s))
        for n in REFUSE:
            r.append(dict(k="no", n=n))
        r.append(dict(k="no", n="phase"))
        return list({self.key(x): x for x in r}.values())

    def key(self, sc):
        k = sc["k"]
        if k == "one":
            return "one/%s=%s/s%dt%d/%s%s%s" % (sc["key"], fmt(sc["v"]), sc["s"], sc["t"], sc["o"], "" if sc["nl"] else "/nonl", "/decoy" if sc["d"] else "")
        return k + "/" + "/".join("%s=%s" % (a, b) for a, b in sc.items() if a != "k")

    def setup(self, sc):
        """model and phase parameters, text"""
        k = sc["k"]
        one = [dict(cstv=1)]
        if k == "one":
            m = dict(SCALES[0]); m[sc["key"]] = sc["v"]
            return m, one, text(m, one, sc["s"], sc["t"], sc["o"], nl=sc["nl"], decoy=sc["key"] if sc["d"] else None)
        if k == "txt":
            m = dict(SCALES[0]); m[sc["key"]] = ("ab/c.d_e-f" * 20)[:sc["n"]]
            return m, one, text(m, one, sc["s"], 0, sc["o"], nl=sc["nl"])
        if k == "txts":
            m = {q: "d%d/%s.x" % (i, q[:5]) for i, q in enumerate(sc["ks"])}
            m["Nx"] = 9
            return m, one, text(m, one, sc["s"], 0, sc["o"])
        if k == "ph":
            perm = list(itertools.permutations(range(3)))[sc["pi"]]
            m = dict(SCALES[0], compressible=1)
            ph = []
            for i in range(3):
                p = dict(cstv=1)
                if sc["sub"] >> i & 1:
                    v = PVAL.get(sc["key"], 0.37 * (i + 1) if i else 4.2e3)
                    p[sc["key"]] = v if not isinstance(v, float) else v * (1 + 0.1 * i) if sc["key"] != "n_vp" else v
                    p.update(NEEDS.get(sc["key"], {}))
                ph.append(p)
            return m, ph, text(m, ph, sc["s"], sc["t"], "std", perm=perm, nl=sc["nl"])
        if k == "all":
            m = dict(SCALES[sc["sc"]])
            for key, kind, *_ in MODEL:
                v = ONLY.get(key, VAL[kind]); m[key] = v[sc["vi"] % len(v)]
            m["compressible"] = 1
            ph = []
            for i in range(3):
                p = dict(cstv=1)
                for key, kind, *_ in PHASE:
                    if key in ("pwlv", "linv", "gbsv", "expv", "gs", "kin", "n_vp", "npwl", "Qpwl", "gs_ref", "reac_phase"):
                        continue
                    v = PVAL.get(key, 0.37 * (i + 1))
                    p[key] = v * (1 + 0.07 * i) if isinstance(v, float) else v
                ph.append(p)
            return m, ph, text(m, ph, sc["s"], sc["t"], sc["o"], perm=(2, 0, 1))
        if k == "imp":
            m = dict(sc["m"])
            return m, one, text(m, one)
        if k == "run":
            m = dict(DEF_MODEL, Nt=0, nit_max=2, Newton=sc["nw"])
            if sc["nw"]:
                m["Picard2Newton"] = 1
            m[sc["key"]] = sc["v"]
            ph = [dict(DEF_PHASE)]
            return m, ph, text(m, ph, sc["s"])
        if sc["n"] == "phase":
            return {}, one, text({}, one, nph=2)
        m, ph = REFUSE[sc["n"]]
        ph = [dict(dict(cstv=1), **p) for p in ph]
        return m, ph, text(m, ph)

    def job(self, sc):
        m, ph, t = self.setup(sc)
        j = Job(intext=t, hooks=("out",) if sc["k"] == "run" else ("input",))
        j.meta = dict(m=m, ph=ph)
        return j

    def evaluate(self, scs):
        return pmap(self._batch, scs, 200)

    def _batch(self, scs):
        jobs = [self.job(sc) for sc in scs]
        run_jobs(jobs)
        res = []
        for sc, j in zip(scs, jobs):
            r = Res(); res.append(r)
            S = j.snaps(None)
            if sc["k"] == "no":
                r.states += 1; r.sub += 1
                if S:
                    r.bad("a contradictory or incomplete setup (%s) is accepted" % sc["n"])
            elif not S:
                r.bad("the setup file is not accepted: %s" % j.log(300)[-200:].replace("\n", " "))
            else:
                r.states += 1; r.trans += 1
                self.compare(sc, S[0], j.meta, r)
            j.clean()
        return res

    def compare(self, sc, s, meta, r):
        e, M, u = expected(meta["m"], meta["ph"])
        if "k.N" in s:
            s["k.min_part_cell"], s["k.Nx_part"], s["k.Nz_part"] = s["k.N"][2:3], s["k.N"][4:5], s["k.N"][5:6]
        name = {f: k for k, _, f, _, _ in MODEL}
        for f, v in e.items():
            if f not in s:
                continue
            r.sub += 1
            w = float(s[f][0])
            if not abs(w - v) <= 1e-12 * max(abs(v), abs(w)):
                r.bad("parameter %s is %r, the setup file says %r" % (name.get(f, f[2:]), w, float(v)))
        if sc["k"] == "run":
            return
        law = {k for p in meta["ph"] for k in ("pwlv", "linv", "gbsv", "expv", "gs", "kin") if p.get(k)}
        for k, _, f, _, _ in PHASE:
            if f not in s or (law and k in ("npwl", "Qpwl", "gs_ref")) or (k == "eta_vp" and any("n_vp" in p for p in meta["ph"])):
                continue
            r.sub += 1
            v, w = np.array(M[f], float), np.array(s[f][:len(M[f])], float)
            if not (np.abs(v - w) <= 1e-12 * np.maximum(np.abs(v), np.abs(w))).all():
                r.bad("material parameter %s is %s, the setup file says %s" % (k, w.tolist(), v.tolist()))
        for f in ("k_eff", "T0", "P0"):
            v, w = np.array(M["mat." + f]), s["mat." + f][:len(meta["ph"])]
            if not (np.abs(v - w) <= 1e-12 * np.abs(v)).all():
                r.bad("reference value %s is %s instead of %s" % (f, w.tolist(), v.tolist()))
        for k in ("t", "a", "E", "S", "rho", "J", "W", "Cp", "k", "L", "eta", "V", "T"):
            r.sub += 1
            if not abs(float(s["s." + k][0]) - u[k]) <= 1e-12 * abs(u[k]):
                r.bad("characteristic scale %s is %r instead of %r" % (k, float(s["s." + k][0]), u[k]))
        for k, d in TEXT:
            r.sub += 1
            w = "".join(map(chr, s["p." + k])) if "p." + k in s else ""
            if w != meta["m"].get(k, d):
                r.bad("parameter %s is '%s', the setup file says '%s'" % (k, w, meta["m"].get(k, d)))
