"""P14 flow-law data base: every law number supplies its published constants, converted to the scaling of the run, for the phase that asks for it only."""
import itertools, json, math, os
from mc import *
from runner import Check, Res
from setup import units
from p15 import text

TABLE = {k: {int(i): v for i, v in t.items()} for k, t in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib/flowlaws.json"))).items()}
SUF = dict(pwlv="pwl", linv="lin", gbsv="gbs", expv="exp", gs="pzm", kin="kin")
FIELDS = dict(pwlv="tnmrQVAfaF", linv="tnmrQVAfaF", gbsv="tnmrQVAfaF", expv="tqGSQVEn", gs="pKQVGcL", kin="SkQ")
SCALES = (dict(eta=1.0, L=1.0, V=1.0, T=1.0), dict(eta=2.5, L=3.0, V=0.7, T=11.0), dict(eta=1e22, L=1e4, V=1e-9, T=100.0))
OWN = (dict(npwl=3.0, eta0=2e4, Qpwl=0.0), dict(npwl=1.0, eta0=1e20, Qpwl=1.5e5), dict(npwl=4.5, eta0=7.0, Qpwl=3.2e5), dict(eta0=5e3))
REF = (dict(npwl=3.0, eps0=1e-14, tau0=2e6), dict(npwl=1.0, eps0=3e-2, tau0=5.0, Qpwl=1e5), dict(npwl=5.2, eps0=0.5, tau0=0.25), dict())
OPT = ({}, dict(force_melt_weak=1, melt_weak=37.5), dict(force_act_vol_ast=1, act_vol_dis_ast=2.3e-6, act_vol_dif_ast=6.1e-6), dict(force_act_vol_ast=0, act_vol_dis_ast=2.3e-6, act_vol_dif_ast=6.1e-6, force_melt_weak=0, melt_weak=12.0))


def constants(kind, number, ph, m):
    """the scaled constants a phase must get from this law number"""
    u = units(m)
    L, S, t, T, E, J = u["L"], u["S"], u["t"], u["T"], u["E"], u["J"]
    i = abs(number)
    if kind == "pwlv" and i in (1, 2):
        n = ph.get("npwl", 1.0)
        d = dict(t=0.0, n=n, m=0.0, r=0.0, Q=ph.get("Qpwl", 0.0), V=0.0, f=0.0, a=0.0)
        d["A"] = ph.get("eta0", 1e20) ** -n if i == 1 else 2.0 ** n * ph.get("eps0", 1e-14) / ph.get("tau0", 2e6) ** n
    else:
        d = dict(TABLE[kind][i])
    if kind in ("pwlv", "linv", "gbsv"):
        if m.get("force_act_vol_ast") == 1 and i == 40:
            d["V"] = {"pwlv": m["act_vol_dis_ast"], "linv": m["act_vol_dif_ast"]}.get(kind, d["V"])
        if m.get("force_melt_weak") == 1 and kind == "pwlv":
            d["a"] = m["melt_weak"]
        n = d["n"]
        d["F"] = 1.0 if number < 0 or d["t"] == 0 else 2 ** (1 / n) * 3 ** ((n - 1) / (2 * n)) / 6 if d["t"] == 1 else 2 ** (1 / n) / 4
        # strain rate = A stress^n fugacity^r grainsize^-m
        d["A"] *= S ** n * S ** d["r"] * L ** -d["m"] * t
        d["Q"] /= J; d["V"] /= L ** 3; d["f"] /= S
    elif kind == "expv":
        if number < 0:
            d["t"] = 0.0
        d["S"] /= S; d["Q"] /= J; d["V"] /= L ** 3; d["E"] *= S ** d["n"] / E
    elif kind == "gs":
        # piezometers: size = K stress^-p; otherwise growth rate K / (p size^(p-1))
        d["K"] /= L * S ** d["p"] if i in (11, 12) else L ** d["p"] / t
        d["Q"] /= J; d["V"] /= L ** 3; d["G"] /= J / L ** 2
    else:
        d["S"] *= L; d["k"] /= L / t / T; d["Q"] /= J
    return d


class CHECK(Check):
    pid = "P14"
    level = "exploration"
    rule = ("scenario = every number of every family of laws x sign x scaling of the run x phase that asks x options that override constants; every ordered pair of numbers of a family in two phases; every pair of "
            "families in one phase with all their numbers; user-defined laws x parameters; every unknown number; the real program reads the setup file and every constant of every family and phase is compared with the published table")
    assumptions = ["three phases at most; numbers up to 60 for the refusal of unknown laws", "the published constants are those of the frozen table lib/flowlaws.json (SI units)"]

    def space(self, tier):
        r = []
        ids = {k: sorted(t) for k, t in TABLE.items()}
        for k in ids:
            for i in ids[k]:
                for sg in (1, -1):
                    for sc in range(3):
                        for ph in range(3):
                            for o in range(len(OPT)):
                                r.append(dict(sc=sc, o=o, p=[{k: sg * i} if q == ph else {} for q in range(3)]))
            for a, b in itertools.permutations(ids[k], 2):
                r.append(dict(sc=1, o=0, p=[{k: a}, {k: b}]))
            for i in range(1, 61):
                if i not in ids[k] and not (k == "pwlv" and i < 3) and not (k == "linv" and i == 1):
                    for sg in (1, -1):
                        r.append(dict(no=1, sc=2, o=0, p=[{k: sg * i}]))
                        r.append(dict(no=1, sc=2, o=0, p=[{}, {k: sg * i}]))
        for k, l in itertools.combinations(ids, 2):
            for a, b in itertools.product(ids[k], ids[l]):
                r.append(dict(sc=2, o=1, p=[{k: a, l: b}]))
                r.append(dict(sc=1, o=2, p=[{k: a}, {l: b}]))
        for c in itertools.product((0, 40), (0, 41), (0, -41), (0, 40), (0, 42), (0, 9)):
            r.append(dict(sc=2, o=0, p=[{}, {k: v for k, v in zip(SUF, c) if v}]))
        for n, L in ((1, OWN), (2, REF)):
            for i, q in enumerate(L):
                for sc in range(3):
                    for ph in range(3):
                        for sg in (1, -1):
                            for o in range(2):
                                r.append(dict(sc=sc, o=o, p=[dict(q, pwlv=sg * n) if x == ph else {} for x in range(3)]))
        r.append(dict(lin1=1, sc=0, o=0, p=[{"linv": 1}]))
        if tier == "thorough":
            for k in ids:
                for a, b, c in itertools.product(ids[k][:12] if k == "pwlv" else ids[k], repeat=3):
                    r.append(dict(sc=2, o=0, p=[{k: a}, {k: -b}, {k: c}]))
            for a, b, c in itertools.product(ids["pwlv"], ids["linv"], ids["expv"]):
                for o in range(len(OPT)):
                    r.append(dict(sc=1, o=o, p=[{}, dict(pwlv=a, linv=b, expv=c)]))
        return r

    def key(self, sc):
        return "%s%s/o%d/%s" % ("unknown/" if sc.get("no") else "linear-law-1/" if sc.get("lin1") else "", "s%d" % sc["sc"], sc["o"], "+".join(",".join("%s:%s" % (k, fmt(v)) for k, v in p.items()) or "none" for p in sc["p"]))

    def setup(self, sc):
        m = dict(SCALES[sc["sc"]], **OPT[sc["o"]])
        ph = [dict(dict(cstv=1), **p) for p in sc["p"]]
        return m, ph

    def job(self, sc):
        m, ph = self.setup(sc)
        return Job(intext=text(m, ph), hooks=("input",))

    def evaluate(self, scs):
        return pmap(self._batch, scs, 200)

    def _batch(self, scs):
        jobs = [self.job(sc) for sc in scs]
        run_jobs(jobs)
        res = []
        for sc, j in zip(scs, jobs):
            r = Res(); res.append(r)
            S = j.snaps(None)
            r.states += 1; r.sub += 1; r.trans += 1
            if sc.get("no"):
                if S:
                    r.bad("a law number that does not exist is accepted")
            elif not S:
                r.bad("the setup is not accepted: %s" % j.log(300)[-200:].replace("\n", " "))
            elif sc.get("lin1"):
                if float(S[0]["mat.Alin"][0]) == 0 or float(S[0]["mat.Apwl"][0]) != 0:
                    r.bad("number 1 of the linear laws supplies no constants and changes those of the power law")
            else:
                self.compare(sc, S[0], r)
            j.clean()
        return res

    def compare(self, sc, s, r):
        m, phs = self.setup(sc)
        J = units(m)["J"]
        for p, ph in enumerate(phs):
            for kind, suf in SUF.items():
                if ph.get(kind):
                    d = constants(kind, ph[kind], ph, m)
                else:
                    d = dict.fromkeys(FIELDS[kind], 0.0)
                    if kind == "pwlv":      # the user's exponent and energy are kept as read
                        d["n"], d["Q"] = ph.get("npwl", 1.0), ph.get("Qpwl", 0.0)
                for f, v in d.items():
                    r.sub += 1
                    w = float(s["mat." + f + suf][p])
                    if not abs(v - w) <= 1e-9 * max(abs(v), abs(w)):
                        r.bad("phase %d: constant %s of %s is %r instead of %r" % (p, f, "%s=%s" % (kind, ph.get(kind, 0)), w, v))
