"""P04 unit invariance: the results in physical units do not depend on the units chosen for the computation."""
import itertools
from mc import *
from space import FEATURES, XFEATURES, make, chaotic
from diff import DiffCheck, report
import obs

SCALES = {"eta4": dict(eta=4e21), "L2": dict(L=2e4), "V4": dict(V=4e-9), "T2": dict(T=200.0), "T1": dict(T=100.0 / 128), "far": dict(eta=1e21 / 64, L=1e4 / 32, V=1e-9 * 16, T=100.0 / 128), "mix": dict(eta=0.25e21, L=4e4, V=0.5e-9, T=50.0)}
SKIP = {"lin1", "wstep2", "x.anidbg", "x.surfdbg", "x.safe"}     # lin1: the penalty is a number in internal units by definition; debug outputs; safe mode aborts


class CHECK(DiffCheck):
    pid = "P04"
    rule = ("scenario = a set of input switches (one, or two) x a choice of the four characteristic scales (viscosity, length, velocity, temperature); the real program is run in the reference "
            "units and in the changed ones, and all fields, markers, surface, times and time series of every output are compared in SI")
    assumptions = ["8x7 grid, two materials, 2 time steps; scales changed by powers of two", "tolerance 1e-6 of each dimension group"]

    def space(self, tier):
        r = []
        F = [f for f in list(FEATURES) + list(XFEATURES) if f not in SKIP]
        for f in F:
            for s in SCALES:
                r.append(dict(f=[f], s=s))
        P = [f for f in FEATURES if f not in SKIP]
        for a, b in itertools.combinations(P, 2):
            if not chaotic((a, b)):
                for s in (("mix",) if tier == "quick" else SCALES):
                    r.append(dict(f=[a, b], s=s))
        return r

    def key(self, sc):
        return "+".join(sc["f"]) + "/" + sc["s"]

    def base(self, sc):
        k = "+".join(sc["f"])
        return k, make(sc["f"], model=dict(Nt=2))

    def other(self, sc):
        return make(sc["f"], model=dict(SCALES[sc["s"]], Nt=2))

    def judge(self, sc, A, B, r):
        for a, b in zip(A, B):
            skip = () if a["p.elastic"][0] else ("m.Wel",)
            d = obs.compare(obs.observe(a, ts_si=True), obs.observe(b, ts_si=True), tol=2e-6, skip=skip, slack={"m.div_u_el": 100.0})
            if d:
                report(r, int(a["p.step"][0]), d)
                break
