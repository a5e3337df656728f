"""P05 conservation: the flow that is written satisfies the momentum and mass balance cell by cell, with strain rates that are its gradients."""
import itertools
from mc import *
from space import FEATURES, XFEATURES, make
from runner import Check, Res
from ref import G

NEVER = {"x.anidbg", "x.surfdbg", "x.still", "x.maps"}
GRIDS = ((8, 7), (6, 9), (11, 6))


def balance(s, oop=False, body=None, fields=None):
    """list of (name, max residual, scale): the discrete balance equations and kinematic relations of the dumped flow"""
    g = G(s)
    dx, dz, dt = g.dx, g.dz, g.dt
    per = int(g.p("periodic_x"))
    air = g.air
    live = ~air
    p = g.C("p_corr")
    tx = np.where(live, g.C("sxxd") - p, 0.0)
    tz = np.where(live, g.C("szzd") - p, 0.0)
    sxz = np.where(~g.airv, g.V("sxz"), 0.0)
    bu, bv = g.U("BCu.type"), g.W("BCv.type")
    rho, rhos = g.C("rho_n"), g.V("rho_s")
    om = float(g.p("free_surface_stab"))
    polar = int(g.p("polar"))
    out = []
    sur = air.copy()            # cells whose density is corrected for the surface crossing them
    sur[:-1] |= air[1:]; sur[:, 1:] |= air[:, :-1]; sur[:, :-1] |= air[:, 1:]
    # ---- x: nodes l = 1..Nz-1, k = 0..Nx-1
    sh = (g.ncz, g.Nx)
    E, Wt, rE, rW = (np.zeros(sh) for _ in range(4))
    near = np.zeros(sh, bool)
    E[:, :-1] = tx; Wt[:, 1:] = tx; rE[:, :-1] = rho; rW[:, 1:] = rho
    near[:, :-1] |= sur; near[:, 1:] |= sur
    if per:
        Wt[:, 0] = tx[:, -1]; E[:, -1] = tx[:, 0]; rW[:, 0] = rho[:, -1]; rE[:, -1] = rho[:, 0]
    b = bu[1:-1]
    bfx = g.U("roger_x")[1:-1]
    on = b == -1
    on[:, -1] = False
    on[:, 0] = bool(per) & (b[:, 0] != 30)
    x = [E / dx, -Wt / dx, sxz[1:] / dz, -sxz[:-1] / dz, bfx]
    fx = sum(x)
    if om:
        fx = np.where(near, 0.0, np.minimum(np.abs(fx), np.abs(fx - om * dt * g.U("gx")[1:-1] * (rE - rW) / dx * g.U("u_in")[1:-1])))
    fx = np.where(on, fx, 0.0)
    # ---- z: nodes l = 0..Nz-1, k = 1..Nx-1
    sh = (g.Nz, g.ncx)
    N, S, rN, rS = (np.zeros(sh) for _ in range(4))
    nearz = np.zeros(sh, bool)
    N[:-1] = tz; S[1:] = tz; rN[:-1] = rho; rS[1:] = rho
    nearz[:-1] |= sur; nearz[1:] |= sur
    b = bv[:, 1:-1]
    onz = b == -1
    onz[0] = False; onz[-1] = False
    bfz = g.W("roger_z")[:, 1:-1]
    z = [N / dz, -S / dz, sxz[:, 1:] / dx, -sxz[:, :-1] / dx, bfz]
    fz = sum(z)
    if om:
        fz = np.where(nearz, 0.0, np.minimum(np.abs(fz), np.abs(fz - om * dt * g.W("gz")[:, 1:-1] * (rN - rS) / dz * g.W("v_in")[:, 1:-1])))
    fz = np.where(onz, fz, 0.0)
    sc = max([np.abs(np.where(on, a, 0)).max() for a in x] + [np.abs(np.where(onz, a, 0)).max() for a in z])
    out.append(("horizontal force balance", np.abs(fx).max(), sc))
    out.append(("vertical force balance", np.abs(fz).max(), sc))
    if fields is not None:
        fields.update(fx=fx, fz=fz, scale=sc)
    # ---- the body force is the weight of the material
    if body:
        ok = on & ~near
        if not polar:
            r = np.full((g.ncz, g.Nx), float(g.p("gx"))) * 0.5 * (rhos[1:] + rhos[:-1])
            bs = max(abs(float(g.p("gx"))), abs(float(g.p("gz")))) * np.abs(rho).max()
            out.append(("horizontal body force", np.abs(np.where(ok, bfx - r, 0)).max(), bs))
        gz = float(g.p("gz")) if not polar else g.W("gz")[:, 1:-1]
        ok = onz & ~nearz
        out.append(("vertical body force", np.abs(np.where(ok, bfz - gz * 0.5 * (rN + rS), 0)).max(), max(abs(float(g.p("gx"))), abs(float(g.p("gz")))) * np.abs(rho).max()))
    # ---- strain rates are the gradients of the velocity
    u, v = g.U("u_in"), g.W("v_in")
    ex = (u[1:-1, 1:] - u[1:-1, :-1]) / dx
    ez = (v[1:, 1:-1] - v[:-1, 1:-1]) / dz
    div = (ex + ez) * (1.5 if oop else 1.0)
    comp = float(g.p("compressible"))
    a, c = (u[1:] - u[:-1]) / dz, (v[:, 1:] - v[:, :-1]) / dx
    exz = np.where(g.airv, 0, 0.5 * (a + c))
    wxz = np.where(g.airv, 0, 0.5 * (c - a))
    es = max(np.abs(np.where(live, ex, 0)).max(), np.abs(exz).max(), np.abs(np.where(live, ez, 0)).max())
    for n, a, r in (("divergence", div, g.C("div_u")), ("horizontal strain rate", ex - comp / 3 * div, g.C("exxd")), ("vertical strain rate", ez - comp / 3 * div, g.C("ezzd"))):
        out.append((n + " as velocity gradient", np.abs(np.where(live, a - r, 0)).max(), es))
    out.append(("shear strain rate as velocity gradient", np.abs(exz - g.V("exz")).max(), es))
    out.append(("vorticity as velocity gradient", np.abs(wxz - g.V("wxz")).max(), es))
    # ---- mass balance
    m = None
    if not comp:
        m = div
    elif not int(g.p("density_variations")):
        m = div + np.where(g.C("comp_cells") == 1, 1, 0) * g.C("bet_n") * (p - g.C("p0_n")) / dt - g.C("div_u_pl") - g.C("rhs_p")
    if fields is not None and m is not None:
        fields.update(m=np.where(live, m, 0), es=es)
    if m is not None:
        out.append(("mass balance", np.abs(np.where(live, m, 0)).max(), es))
    return out


SLOW = {"powerlaw", "powermix", "power0", "expo", "plast", "dilat", "soft", "densvar"}      # iterations that do not always reach their target within 25 steps
NOEND = {"x.safe", "x.aniplast", "x.vNS", "aniso+pic2newt", "aniso+densvar", "anifs+pic2newt", "anifs+densvar", "courant+dilat", "gbs+expo", "dilat+dtred", "dilat+dtmax",
         "pic2newt+densvar", "densvar+dtred", "densvar+dtmax"}      # iterations that diverge; the program says so and stops
NODENS = {"drho3", "densvar", "reac", "x.den4", "x.den5", "phasemix", "x.mix1"}


def slow(f):
    o = FEATURES.get(f) or XFEATURES.get(f)
    b = [o["both"], o["phases"][0], o["phases"][1]]
    return f in SLOW or any(q.get("plast") or q.get("pwlv") or q.get("expv") or q.get("linv") for q in b)


class CHECK(Check):
    pid = "P05"
    level = "exploration"
    rule = ("scenario = a set of input switches (one or two) x a grid; the real program is run for two steps, and at every output the discrete force balance of every velocity node, the mass balance and the strain rates of every cell, "
            "and the weight of the material are recomputed from the written velocities, stresses, pressures and densities")
    assumptions = ["grids 8x7, 6x9 and 11x6, cells that are not square, markers not moved between solve and output", "linear and nonlinear tolerances 1e-11; balance judged at 1e-6 of the largest term",
                   "runs whose iterations stop at their limit before the target (plasticity or strongly nonlinear creep with 25 iterations) are judged on kinematics only",
                   "next to a stabilised free surface the force balance is not judged", "option sets whose iterations diverge on the unchanged code (the program stops with a message) are listed in the check and not judged"]

    def space(self, tier):
        r = []
        A = [f for f in list(FEATURES) + list(XFEATURES) if f not in NEVER]
        for f in A:
            for gi in range(len(GRIDS)):
                r.append(dict(f=[f], g=gi))
        for a, b in itertools.combinations([f for f in FEATURES if f not in NEVER], 2):
            for gi in (0,) if tier == "quick" else range(len(GRIDS)):
                r.append(dict(f=[a, b], g=gi))
        return r

    def key(self, sc):
        return "+".join(sc["f"]) + "/%dx%d" % GRIDS[sc["g"]]

    def job(self, sc):
        nx, nz = GRIDS[sc["g"]]
        dens = {} if NODENS & set(sc["f"]) else dict(density_model=0)
        j = make(sc["f"], model=dict(Nt=2, advection=0, Nx=nx, Nz=nz, xmax=2.3e4), hooks=("out", "rheo") if "densvar" in sc["f"] else ("out",))
        for p in j.phases:
            p.update(dens)
        return j

    def evaluate(self, scs):
        return pmap(self._batch, scs, 30)

    def _batch(self, scs):
        jobs = [self.job(sc) for sc in scs]
        run_jobs(jobs)
        res = []
        for sc, j in zip(scs, jobs):
            r = Res(); res.append(r)
            if not j.ok():
                if "+".join(sc["f"]) in NOEND or any(slow(f) for f in sc["f"]):
                    r.note = "run does not complete: " + "+".join(sc["f"])
                else:
                    r.bad("the run does not complete (%s)" % j.status())
                j.clean(); continue
            dens = bool(NODENS & set(sc["f"]))
            tol = 1e-3 if "lin1" in sc["f"] else 1e-6      # a penalty solver without refinement
            sl = any(slow(f) for f in sc["f"])
            for s in j.snaps("out")[1:]:
                r.states += 1; r.trans += 1
                lim = sl and (int(s["n.nit"][0]) >= int(s["n.nit_max"][0]) or int(s["n.stagnated"][0]))
                for n, e, sc_ in balance(s, bool(j.model.get("out_of_plane")), not (NODENS & set(sc["f"])) and not j.model.get("melting") and not j.model.get("free_surface")):
                    r.sub += 1
                    if "balance" in n and (lim or dens and s["p.free_surface_stab"][0]):
                        continue
                    if not e <= tol * sc_:
                        r.bad("output %d: %s violated by %.3g (largest term %.3g)" % (int(s["p.step"][0]), n, e, sc_))
                q = next((q for q in j.snaps("rheo:final")[::-1] if int(q["p.step"][0]) == int(s["p.step"][0])), None) if "densvar" in sc["f"] and not lim else None
                if q is not None:                          # volume follows density: the velocity diverges where the rock gets lighter
                    gq = G(q)
                    dil = gq.C("div_u_pl")
                    v = gq.C("div_u") + np.where(gq.C("comp_cells") == 1, 1, 0) * (np.log(np.where(gq.air, 1, gq.C("rho_n"))) - np.log(np.where(gq.air, 1, gq.C("rho0_n")))) / float(q["p.dt"][0]) - gq.C("rhs_p")
                    e = np.abs(np.where(gq.air, 0, v)).max()
                    sc_ = np.abs(gq.C("div_u")).max() + np.abs(gq.C("exxd")).max()
                    r.sub += 1
                    if not np.abs(dil).max() > 0 and not e <= 1e-6 * sc_:
                        r.bad("output %d: mass balance with changing density violated by %.3g (largest term %.3g)" % (int(s["p.step"][0]), e, sc_))
                if r.viol:
                    break
            j.clean()
        return res
