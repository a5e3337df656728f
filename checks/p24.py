"""P24 melting: melt fraction, latent heat and the effective expansivity of every cell are those of the melting model of its phases."""
import itertools
from mc import *
from space import FEATURES, XFEATURES, make, HOT, LOOSE
from runner import Res
import p19, matref
from ref import G

MODELS = (0, 1, 10, 11, 40, 41)
DEEP = ("lin", 6e9, 0, -3e5)          # pressures beyond the kinks of the solidus curves
PF = {"": None, "p1": ("lin", 1.4e9, 2e4, -2e4), "p2": ("lin", 1.0e10, 1e5, -1e5), "low": ("lin", 1e8, 0, -5e3)}


class CHECK(p19.CHECK):
    pid = "P24"
    rule = ("scenario = melting model of each phase (every pair) x kinetic time of each phase x pressure range x initial melt x temperature field x option set, and all option sets containing melting; "
            "after every update in the real program melt fraction, heat capacity and expansivity of each cell are compared with the solidus and liquidus curves of its phases")
    assumptions = ["grids 8x7 and 6x9", "derivatives of the melt fraction compared to 1e-4, not within 1e-4 of a kink (solidus, liquidus, joints of the curves)"]
    tags = ("MeltFractionGrid", "UpdateAlphaCp")

    def space(self, tier):
        r = []
        ENVS = ("", "surf", "comp", "chem") if tier == "quick" else ("", "surf", "comp", "thermal", "simple", "sten", "reac", "ale", "chem")
        for a, b in itertools.product(MODELS, repeat=2):
            if not a and not b:
                continue
            for tk in ((0, 0), (1e12, 0), (3e11, 3e13)):
                for e in ENVS:
                    for pf in PF:
                        if e and pf == "low" and tier == "quick":
                            continue
                        r.append(dict(melt=[a, b], tk=list(tk), env=e, pf=pf, phi=int(tk[0] > 0)))
        A = [f for f in list(FEATURES) + list(XFEATURES) if f not in ("melt", "x.hotmelt", "x.hotmelt11")]
        for a in A:
            for b in ("melt", "x.hotmelt", "x.hotmelt11"):
                r.append(dict(f=[a, b]))
        return r

    def job(self, sc):
        if "f" in sc:
            return p19.CHECK.job(self, sc)
        env = p19.ENV.get(sc["env"], dict(f=sc["env"]))
        i = sum(map(ord, self.key(sc)))
        base = dict(Nt=2, nit_max=3, Nx=(8, 6)[i % 2], Nz=(7, 9)[i % 2], xmax=2.3e4, melting=1, thermal=1, **LOOSE)
        base.update(env.get("model", {}))
        fields = dict(T=("nodes", HOT))
        if PF[sc["pf"]]:
            fields["P"] = PF[sc["pf"]]
        if sc["phi"]:
            fields["phi"] = ("lin", 0.3, 1e-6, 5e-6)
        j = make([env.get("f", "base")], model=base, hooks=("mat",), fields=fields)
        for p, k, t in zip(j.phases, sc["melt"], sc["tk"]):
            p.update(melt=k, tau_kin=t, alp=3.2e-5)
        return j

    def state(self, sc, s, r):
        g = G(s)
        m = {k[4:]: v for k, v in s.items() if k.startswith("mat.")}
        sS, sT, sJ, sm = (float(s["s." + n][0]) for n in ("S", "T", "J", "m"))
        nph, step, dt = int(s["p.Nb_phases"][0]), int(s["p.step"][0]), float(s["p.dt"][0])
        rock = ~g.air
        T, P, f0 = g.C("T"), g.C("p_in"), g.C("phi0_n")
        phi, Cp, al = 0.0, 0.0, 0.0
        kink = np.zeros(rock.shape, bool)
        for p in range(nph):
            w = g.C("phase_perc_n%d" % p)
            k, tk = int(m["melt"][p]), float(m["tau_kin"][p])
            M = lambda P_, T_: matref.melt(k, P_, T_, f0, tk, dt, sS, sT)
            v = M(P, T)
            on = np.abs(w) > 1e-13
            phi = phi + np.where(on, w * v, 0.0)
            L = matref.LATENT.get(k, 0.0) / (sJ / sm)
            with np.errstate(all="ignore"):
                h, q = 1e-6 * T, 1e-6 * P
                dT, dP = (M(P, T + h) - M(P, T - h)) / (2 * h), (M(P + q, T) - M(P - q, T)) / (2 * q)
                for a, b in ((1e-4, 0), (-1e-4, 0), (0, 1e-4), (0, -1e-4)):           # near a joint of the curves
                    u = M(P * (1 + b), T * (1 + a))
                    kink |= on & ((u <= 1e-13) != (v <= 1e-13)) | on & ((u >= 1) != (v >= 1))
                for c in (1600, 1200, 1e4):
                    kink |= on & (np.abs(P * sS / 1e6 / c - 1) < 1e-3)
                dT, dP = np.where(v > 1e-13, dT, 0.0), np.where(v > 1e-13, dP, 0.0)
                Cp = Cp + np.where(on, w * (float(m["Cp"][p]) + L * dT), 0.0)
                al = al + np.where(on, w * (float(m["alp"][p]) - L * dP / T * g.C("rho_n")), 0.0)
        L = max(matref.LATENT.values()) / (sJ / sm)
        with np.errstate(all="ignore"):                   # the program's differences of the melt fraction carry its rounding error (1e-11) over a step of 2e-6
            eC, eA = 2e-5 * L / T, 2e-5 * L / T * g.C("rho_n") / np.abs(P)
        todo = [("melt fraction", "phi_n", phi, rock, 1e-9, 1.0, 0.0)] if s.tag.endswith("Grid") else [("effective heat capacity", "Cp", Cp, rock & ~kink, 1e-4, np.abs(Cp), eC), ("effective expansivity", "alp", al, rock & ~kink, 1e-4, np.abs(al), eA)]
        for what, n, ref, on, tol, sca, ab in todo:
            got = g.C(n)
            d = np.where(on, np.abs(got - ref) / (tol * sca + ab), 0.0)
            r.sub += int(on.sum())
            if not d.max() <= 1:
                l, k = np.unravel_index(int(np.nan_to_num(d, nan=np.inf).argmax()), d.shape)
                r.bad("step %d: %s of cell (%d,%d) is %.9g, its phases give %.9g" % (step, what, k, l, got[l, k], ref[l, k]))
                return
