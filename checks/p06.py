"""P06 symmetry: reflected and axis-exchanged models evolve as the reflected (axis-exchanged) originals."""
import itertools
from mc import *
from space import FEATURES, XFEATURES, make, chaotic
from diff import DiffCheck
import obs, sym

NAMES = ["m." + n for g in obs.MESH.values() for n in g] + ["m.phase_perc_%s%d" % (a, i) for a in "ns" for i in range(3)] + ["m." + n for n in obs.MCHR]
GEOM = dict(xmin=-4.0e4, xmax=2.3e4)           # cells of 9 km x 10 km
NEVER = {"lin1", "wstep2", "x.anidbg", "x.surfdbg", "x.safe", "x.ini", "x.lay", "x.tmpl2", "x.tmpl1", "x.ss2", "x.bals", "x.maps"}
MXNO = {"fixT"}                     # the temperature is taken from the pressure of one corner cell by definition
MXNO |= {"ale", "x.alesurf", "x.ale2"}         # markers that the moving sides leave behind are clamped to one side: a tie
TRNO = {"minpart", "x.vNS", "x.anicomp"}       # mz and tr: the marker layout has ties (minpart); nothing drives the flow (x.vNS)
ANI, EL = {"aniso", "anifs"}, {f for f in FEATURES if FEATURES[f]["model"].get("elastic")}    # an averaged director angle in a mixed cell depends on the axis it is measured from
UPDOWN = {"surf", "surfstab", "surfdiff", "surfsed", "zerotopo", "polar", "adiab1", "litho", "fixT", "simple", "densvar", "x.btN0"}


def updown(f):
    """switches that single out the vertical direction (free surface, polar geometry, basal flux, layered cooling) or the x direction (periodicity)"""
    o = FEATURES.get(f) or XFEATURES.get(f)
    m = o["model"]
    return (f in UPDOWN or m.get("free_surface") or m.get("polar") or m.get("shear_style") or m.get("initial_cooling") or m.get("periodic_x") or m.get("adiab_heating") == 1
            or o["kw"].get("topo") or m.get("pure_shear_ALE") == -1 or o["kw"].get("bcp") or m.get("gx"))


def live(s):
    o = dict(s)
    for pre in ("k.", "tc."):
        if pre + "phase" in s:
            l = s[pre + "phase"] != -1
            for k in s:
                if k.startswith(pre) and k != pre + "N" and s[k].size == l.size:
                    o[k] = s[k][l]
    return o


class CHECK(DiffCheck):
    pid = "P06"
    rule = ("scenario = a set of input switches (one or two) x a symmetry of the continuum problem (x -> -x; z -> -z and x <-> z where neither gravity nor a free surface or periodicity singles out a direction); "
            "the real program is run on the input and on its image, and all fields, markers (matched one to one by position), surface, times and time series must be images of each other")
    assumptions = ["8x7 grid with cells of 9 x 10 km, two materials, 2 time steps; reflections keep gravity, the others run without gravity under a background pressure", "tolerance 1e-6 of each dimension group (1e-3 with dilatant plasticity or reactions, which stop short of full convergence); outputs in which the surface has reached the top of the box are not compared"]

    def space(self, tier):
        r = []
        A = [f for f in list(FEATURES) + list(XFEATURES) if f not in NEVER]
        for f in A:
            if f not in MXNO:
                r.append(dict(f=[f], t="mx"))
            if not updown(f) and f not in TRNO:
                r += [dict(f=[f], t="mz"), dict(f=[f], t="tr")]
        P = [f for f in FEATURES if f not in NEVER]
        for a, b in itertools.combinations(P, 2):
            if {a, b} & MXNO or chaotic((a, b)) or {a, b} in ({"simple", "bkgdiv"}, {"simple", "polar"}):    # periodic with a net divergence or a radial grid
                continue
            r.append(dict(f=[a, b], t="mx"))
            if not updown(a) and not updown(b) and not {a, b} & TRNO and not ({a, b} & ANI and {a, b} & EL):
                r.append(dict(f=[a, b], t="tr"))
                if tier == "thorough":
                    r.append(dict(f=[a, b], t="mz"))
        return r

    def key(self, sc):
        return "+".join(sc["f"]) + "/" + sc["t"]

    def mk(self, sc):
        m = dict(GEOM, Nt=2)
        if "bkg_strain_rate" in (XFEATURES.get(sc["f"][0]) or FEATURES["base"])["model"]:
            m.pop("xmin"); m.pop("xmax")
        if sc["t"] != "mx":
            m.update(gx=0.0, gz=0.0, bkg_pressure=4e8)
        return make(sc["f"], model=m)

    def base(self, sc):
        return ("+".join(sc["f"]), sc["t"] == "mx"), self.mk(sc)

    def other(self, sc):
        return sym.tjob(self.mk(sc), sc["t"])

    def judge(self, sc, A, B, r):
        per = int(A[0]["p.periodic_x"][0])
        for x, y in zip(A, B):
            st = int(x["p.step"][0])
            if "tc.x" in x and max(x["tc.z"].max(), y["tc.z"].max()) > x["p.zmax"][0] - 0.3 * x["p.dz"][0]:
                r.note = "the surface reaches the top of the box"; return
            if "dilat" in sc["f"] and st and max(int(q["n.nit"][0]) / max(1, int(q["n.nit_max"][0])) for q in (x, y)) >= 1:
                r.note = "the plastic iterations do not converge"; return
            x, y = sym.tsnap(live(x), sc["t"], NAMES), live(y)
            skip = {"m.BCt_fine.type", "m.div_u_el" if not x["p.compressible"][0] else ""}
            if not x["p.elastic"][0]:
                skip.add("m.Wel")
            if per:
                skip |= {"m.BCu.type", "m.BCv.type"}
            if sc["t"] == "tr":
                skip.add("ts.Short_time")
            if per and (st == 0 or not x["p.advection"][0]):
                skip |= {"k.Vx", "k.Vz"}
            y, e = sym.match(x, y)
            if e:
                r.bad("output %d: %s" % (st, e)); return
            if "tc.x" in x:
                y, e = sym.match(x, y, "tc.")
                if e:
                    r.bad("output %d: surface: %s" % (st, e)); return
            if "k.nx" in x and x["k.nx"].size == y["k.nx"].size:
                s = np.sign(x["k.nx"] * y["k.nx"] + x["k.nz"] * y["k.nz"])
                y["k.nx"] = y["k.nx"] * s; y["k.nz"] = y["k.nz"] * s
            d = obs.compare(obs.observe(x), obs.observe(y), tol=1e-3 if {"dilat", "densvar"} & set(sc["f"]) else 1e-6, skip=skip)
            if d:
                d.sort(key=lambda q: -q[1])
                r.bad("output %d: %d quantities are not the image of the original, e.g. %s" % (st, len(d), "; ".join("%s %s" % (q[0], q[2]) for q in d[:4])))
                return
