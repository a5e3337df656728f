"""P09 markers to grid: every grid property and every remembered field is the distance-weighted mean of the markers around the node."""
import itertools
from mc import *
from space import FEATURES, XFEATURES, make, chaotic
from runner import Check, Res
from ref import G, Grid, weights, p2g

NEVER = {"x.anidbg", "x.surfdbg", "x.maps", "x.safe"}
GRIDS = ((8, 7), (6, 9), (11, 6))
EXTRA = {"e.mk": dict(Nx_part=5, Nz_part=3), "e.mk2": dict(Nx_part=2, Nz_part=2, min_part_cell=4), "e.s9": dict(interp_stencil=9, Nx_part=5, Nz_part=3, elastic=1)}
# grid field at the end of a step, marker field it was made from at the beginning of the step, node kind, always one-cell stencil
OLD = [("T0_n", "T", "c", 1), ("p0_n", "P", "c", 0), ("X0_n", "X", "c", 0), ("X0_s", "X", "v", 0), ("d0_n", "d", "c", 0), ("phi0_n", "phi", "c", 0), ("noise_n", "noise", "c", 0), ("noise_s", "noise", "v", 0), ("rho0_n", "rho", "c", 0), ("divth0_n", "divth", "c", 1)]
ELA = [("sxxd0", "sxxd", "c", 0), ("szzd0", "szzd", "c", 0), ("sxz0", "sxz", "v", 0)]
MAT = [("Cp", "Cp", "c"), ("Qr", "Qr", "c"), ("kx", "k_eff", "u"), ("kz", "k_eff", "w")]
FIELDS = dict(X=("lin", 0.5, 5e-6, 4e-6), d=("lin", 1e-3, 1e-9, 3e-9), phi=("lin", 0.1, 2e-7, 1e-7), noise=("lin", 0.1, 1e-6, -2e-6), P=("lin", 5e8, 2e3, -3e4))


class CHECK(Check):
    pid = "P09"
    level = "exploration"
    rule = ("scenario = a set of input switches (one or two) x a grid x a marker layout; the real program is run for three steps with moving markers, and after every step each grid property and each remembered field is recomputed, node by node, "
            "from all markers of the previous output")
    assumptions = ["grids 8x7, 6x9 and 11x6 with cells that are not square", "tolerance 1e-10 of the range of the field", "option sets that convert markers between the output and the interpolation are judged on the fields that do not depend on the phase"]

    def space(self, tier):
        r = []
        A = [f for f in list(FEATURES) + list(XFEATURES) if f not in NEVER]
        for f in A:
            for gi in range(len(GRIDS)):
                r.append(dict(f=[f], g=gi, e=""))
            for e in EXTRA:
                r.append(dict(f=[f], g=0, e=e))
        for a, b in itertools.combinations([f for f in FEATURES if f not in NEVER], 2):
            for gi in (0,) if tier == "quick" else range(len(GRIDS)):
                r.append(dict(f=[a, b], g=gi, e=""))
        return r

    def key(self, sc):
        return "+".join(sc["f"]) + "/%dx%d" % GRIDS[sc["g"]] + sc["e"]

    def job(self, sc):
        nx, nz = GRIDS[sc["g"]]
        fl = {} if len(sc["f"]) > 1 else FIELDS
        o = FEATURES.get(sc["f"][0]) or XFEATURES[sc["f"][0]]
        return make(sc["f"], model=dict(dict(Nt=3, Nx=nx, Nz=nz, xmax=2.3e4), **EXTRA.get(sc["e"], {})), fields={k: v for k, v in fl.items() if k not in o["fields"]})

    def evaluate(self, scs):
        return pmap(self._batch, scs, 30)

    def _batch(self, scs):
        jobs = [self.job(sc) for sc in scs]
        run_jobs(jobs)
        res = []
        for sc, j in zip(scs, jobs):
            r = Res(); res.append(r)
            if not j.ok():
                r.note = "run does not complete: " + "+".join(sc["f"])
                j.clean(); continue
            S = j.snaps("out")
            for q, s in zip(S, S[1:]):
                if int(s["p.step"][0]) != int(q["p.step"][0]) + 1:
                    continue
                r.states += 1; r.trans += 1
                self.step(j, sc, q, s, r)
                if r.viol:
                    break
            j.clean()
        return res

    def step(self, j, sc, q, s, r):
        g = Grid(q)
        live = q["k.phase"] != -1
        x, z, ph = q["k.x"][live], q["k.z"][live], q["k.phase"][live]
        st0, per = int(s["p.interp_stencil"][0]), int(s["p.periodic_x"][0])
        tr = any(p.get("transmutation") for p in j.phases)
        gq = G(q)
        first = int(q["p.step"][0]) == 0
        air = dict(c=gq.air, v=gq.airv, u=gq.U("BCu.type") == 30, w=gq.W("BCv.type") == 30)
        cache = {}

        def W(kind, st):
            if (kind, st) not in cache:
                cache[kind, st] = weights(g, kind, x, z, st, per)
            return cache[kind, st]

        def cmp(name, got, val, kind, st, avg=0):
            r.sub += 1
            ref = p2g(g, kind, x, z, val, st, per, avg, W(kind, st))
            got = got.reshape(ref.shape)
            m = ~air[kind] & np.isfinite(ref)
            e = np.abs(np.where(m, got - ref, 0)).max()
            sc_ = max(np.abs(val).max(), 1e-300)
            if not e <= 1e-9 * sc_:
                r.bad("step %d: %s is not the weighted mean of the markers (off by %.3g of %.3g)" % (int(s["p.step"][0]), name, e, sc_))
        for n, k, kind, one in OLD + (ELA if int(s["p.elastic"][0]) else []):
            if "m." + n not in s or n == "rho0_n" and j.model.get("free_surface") or n == "T0_n" and j.model.get("fix_temperature"):
                continue
            cmp(n, s["m." + n], q["k." + k][live], kind, 1 if one else st0)
        if not tr:
            for n, k, kind in MAT:
                if n == "Cp" and j.model.get("melting"):
                    continue
                v = s["mat." + k].copy()
                if n[0] == "k" and first and "crazy" in sc["f"]:       # raised conductivity during the first step
                    v[1] *= 3.0
                cmp(n, s["m." + n], v[ph], kind, 1)
        # phase fractions belong to the markers of the same output
        g = Grid(s); cache.clear()
        live = s["k.phase"] != -1
        x, z, ph = s["k.x"][live], s["k.z"][live], s["k.phase"][live]
        gs = G(s)
        air = dict(c=gs.air, v=gs.airv)
        for p in range(len(j.phases)):
            cmp("fraction of phase %d in the cells" % p, s["m.phase_perc_n%d" % p], (ph == p) * 1.0, "c", st0)
            cmp("fraction of phase %d at the vertices" % p, s["m.phase_perc_s%d" % p], (ph == p) * 1.0, "v", st0)
