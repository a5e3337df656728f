"""P20 boundary conditions: the flow that is written takes the prescribed velocities, slip conditions and tractions on every side."""
import itertools
from mc import *
from space import FEATURES, XFEATURES, make
from runner import Check, Res
from ref import G

XMIN, XMAX, ZMIN, ZMAX = -4.0e4, 2.3e4, -5.0e4, 1.0e4
LX, LZ = XMAX - XMIN, ZMAX - ZMIN
EPS = 2e-14
S2V = 1e-17                                      # a traction in Pa, in the velocity units in which the driver scales boundary values
# prescribed values (a + b x + c z): the four normal velocities have zero net flux
NW_ = (0, 3e-10, 0.0, 4e-15)
NORM = dict(vxW=NW_, vxE=(0, NW_[1] - EPS * LX, 0.0, 4e-15), vzS=(0, -2e-10, 3e-15, 0.0), vzN=(0, -2e-10 + EPS * LZ, 3e-15, 0.0))
TRAC = dict(vxW=(2, -6e8 * S2V, 0, 5e3 * S2V), vxE=(2, -5e8 * S2V, 0, 6e3 * S2V), vzS=(2, -1.5e9 * S2V, 1e3 * S2V, 0), vzN=(2, -1e7 * S2V, -5e2 * S2V, 0))
TANG = dict(vxS=(11, 4e-10, 5e-15, 0), vxN=(11, -3e-10, -4e-15, 0), vzW=(11, 2e-10, 0, 6e-15), vzE=(11, -5e-10, 0, -3e-15))
SLIP = (13, 0.0, 0.0, 0.0)
SLOTS = ("vxW", "vxE", "vzS", "vzN", "vxS", "vxN", "vzW", "vzE")
RUNS = {"base": [], "elastic": ["elastic"], "comp": ["elcomp"], "newton": ["newton"], "aniso": ["aniso"], "therm": ["shearheat"]}
TMPL = [f for f in FEATURES if f not in ("plast", "soft", "dilat", "densvar", "expo", "bkgdiv")] + ["x.alesurf", "x.insurf", "x.step", "x.nsurf", "x.tmpl1", "x.elth", "x.npow"]


def spec(sc):
    """boundary specification of each slot; None = side above the free surface"""
    r = {}
    for s, c in zip(SLOTS, sc["c"]):
        if s in NORM:
            r[s] = NORM[s] if c == "D" else TRAC[s]
        else:
            r[s] = TANG[s] if c == "D" else SLIP
    return r


class CHECK(Check):
    pid = "P20"
    level = "exploration"
    rule = ("scenario = one of the two admissible kinds of condition on each of the eight (side, component) slots, all 256 combinations, with values that vary along the side, x a material model; or an option set with the built-in pure and simple shear "
            "conditions; the real program is run and the boundary velocities and tractions are read off every output")
    assumptions = ["grids 8x7 and 6x9 of non-square cells; 2 steps", "tractions with the Newton or anisotropic solver are left out (those iterations do not converge with them)", "tolerance 1e-7 of the largest velocity, 1e-6 of the largest stress"]

    def space(self, tier):
        r = []
        for m in RUNS:
            for c in itertools.product("DF", repeat=8):
                if m in ("newton", "aniso") and "F" in c[:4]:
                    continue
                c = "".join(c)
                if c[2:4] + c[6:] == "FFFF" or c[:2] + c[4:6] == "FFFF":       # a rigid translation is left undetermined
                    continue
                for gi in (0,) if tier == "quick" or m != "base" else (0, 1):
                    r.append(dict(m=m, c="".join(c), g=gi))
        for m in ("base", "elastic"):
            for c in itertools.product("DF", repeat=6):          # free surface on top
                if c[2] + "".join(c[4:]) == "FFF" or "".join(c[:2]) + c[3] == "FFF":
                    continue
                r.append(dict(m=m, c="".join(c[:3]) + "F" + c[3] + "F" + "".join(c[4:]), g=0, surf=1))
        for f in TMPL:
            r.append(dict(t=f, adv=1))
        if tier == "thorough":
            for a, b in itertools.combinations([f for f in TMPL if not f.startswith("x.")], 2):
                r.append(dict(t=a, t2=b, adv=1))
        return r

    def key(self, sc):
        if "t" in sc:
            return "template/" + sc["t"] + ("+" + sc["t2"] if "t2" in sc else "")
        return "%s/%s%s%s" % (sc["m"], sc["c"], "/%d" % sc["g"] if sc["g"] else "", "/surface" if sc.get("surf") else "")

    def job(self, sc):
        if "t" in sc:
            return make([sc["t"]] + ([sc["t2"]] if "t2" in sc else []), model=dict(Nt=2) if sc["t"].startswith("x.") else dict(Nt=2, xmax=XMAX))
        s = spec(sc)
        vx, vz = {}, {}
        for k in SLOTS:
            d = vx if k[1] == "x" else vz
            d[k[2]] = s[k]
            if k in ("vxS", "vxN"):
                d[k[2] + "W"] = d[k[2] + "E"] = s[k]
            if k in ("vzW", "vzE"):
                d["N" + k[2]] = d["S" + k[2]] = s[k]
        nx, nz = ((8, 7), (6, 9))[sc["g"]]
        return make((["surf"] if sc.get("surf") else []) + (RUNS[sc["m"]] or ["base"]), model=dict(Nt=2, advection=0, xmax=XMAX, Nx=nx, Nz=nz), bcvx=vx, bcvz=vz)

    def evaluate(self, scs):
        return pmap(self._batch, scs, 30)

    def _batch(self, scs):
        jobs = [self.job(sc) for sc in scs]
        run_jobs(jobs)
        res = []
        for sc, j in zip(scs, jobs):
            r = Res(); res.append(r)
            if not j.ok():
                if "c" in sc and sc["c"][:4].count("F") > 2:
                    r.note = "iterations do not converge: " + self.key(sc)
                else:
                    r.bad("the run does not complete (%s)" % j.status())
                j.clean(); continue
            S = j.snaps("out")
            for q, s in zip(S, S[1:]):
                r.states += 1; r.trans += 1
                (self.template if "t" in sc else self.sides)(sc, q, s, r)
                if r.viol:
                    break
            j.clean()
        return res

    def cmp(self, r, s, name, got, want, scale, tol=1e-7):
        r.sub += 1
        e = np.max(np.abs(np.asarray(got) - want)) if np.size(got) else 0.0
        if not e <= tol * scale:
            r.bad("output %d: %s is off by %.3g (largest value %.3g)" % (int(s["p.step"][0]), name, e, scale))

    def sides(self, sc, q, s, r):
        g = G(s)
        L, V, St = s["s.L"][0], s["s.V"][0], s["s.S"][0]
        dx, dz = g.dx, g.dz
        xg = s["p.xmin"][0] + dx * np.arange(g.Nx); zg = s["p.zmin"][0] + dz * np.arange(g.Nz)
        xc = xg[0] - dx / 2 + dx * np.arange(g.Nx + 1); zc = zg[0] - dz / 2 + dz * np.arange(g.Nz + 1)
        u, v = g.U("u_in"), g.W("v_in")
        vs = max(np.abs(u).max(), np.abs(v).max())
        air = g.air
        ucol = np.ones(g.Nz + 1, bool); ucol[0] = ucol[-1] = False
        top = {}
        live = ~air
        tx = g.C("sxxd") - g.C("p_corr"); tz = g.C("szzd") - g.C("p_corr")
        ts = max(np.abs(np.where(live, tx, 0)).max(), np.abs(np.where(live, tz, 0)).max())
        sxz = np.where(g.airv, 0.0, g.V("sxz"))
        for k, (t, a, b, c) in spec(sc).items():
            f = lambda x, z: (a + b * x * L + c * z * L) / V
            side = k[2]
            if k[1] == "x" and side in "WE":
                kk = 0 if side == "W" else g.Nx - 1
                cc = 0 if side == "W" else g.ncx - 1
                m = live[:, cc]
                if t == 0:
                    self.cmp(r, s, "the velocity across side " + side, u[1:-1, kk][m], f(xg[kk], zc[1:-1])[m], vs)
                else:
                    val = f(xg[kk], zc[1:-1]) * np.ones(g.ncz)
                    sg = 1.0 if side == "W" else -1.0
                    e = (sg * (tx[:, cc] - val) / dx + 0.5 * (sxz[1:, kk] - sxz[:-1, kk]) / dz) * dx
                    if not sc.get("surf"):
                        self.cmp(r, s, "the traction on side " + side, e[m], 0.0, ts, 1e-6)
            elif k[1] == "z" and side in "SN":
                ll = 0 if side == "S" else g.Nz - 1
                cc = 0 if side == "S" else g.ncz - 1
                if sc.get("surf") and side == "N":
                    continue
                if t == 0:
                    self.cmp(r, s, "the velocity across side " + side, v[ll, 1:-1], f(xc[1:-1], zg[ll]), vs)
                else:
                    val = f(xc[1:-1], zg[ll]) * np.ones(g.ncx)
                    sg = 1.0 if side == "S" else -1.0
                    e = (sg * (tz[cc] - val) / dz + 0.5 * (sxz[ll, 1:] - sxz[ll, :-1]) / dx) * dz
                    self.cmp(r, s, "the traction on side " + side, e, 0.0, ts, 1e-6)
            elif k[1] == "x":
                if sc.get("surf") and side == "N":
                    continue
                i, o = (0, 1) if side == "S" else (g.Nz, g.Nz - 1)
                if t == 11:
                    self.cmp(r, s, "the velocity along side " + side, 0.5 * (u[i, 1:-1] + u[o, 1:-1]), f(xg[1:-1], zc[i]), vs)
                else:
                    self.cmp(r, s, "the velocity gradient at the free-slip side " + side, u[i, 1:-1] - u[o, 1:-1], 0.0, vs)
            else:
                i, o = (0, 1) if side == "W" else (g.Nx, g.Nx - 1)
                m = ~g.airv[:, 0 if side == "W" else g.Nx - 1]
                m[0] = m[-1] = False
                if sc.get("surf"):                # rows whose cells on either side of the node are rock
                    cl = live[:, 0 if side == "W" else -1]
                    m[1:-1] &= cl[1:] & cl[:-1]
                if t == 11:
                    self.cmp(r, s, "the velocity along side " + side, 0.5 * (v[m, i] + v[m, o]), (f(xc[i], zg) * np.ones(g.Nz))[m], vs)
                else:
                    self.cmp(r, s, "the velocity gradient at the free-slip side " + side, v[m, i] - v[m, o], 0.0, vs)

    def template(self, sc, q, s, r):
        """built-in pure shear (also with a moving box) and simple shear (periodic)"""
        g = G(s)
        u, v = g.U("u_in"), g.W("v_in")
        vs = max(np.abs(u).max(), np.abs(v).max())
        x0, x1, z0, z1 = (float(q["p." + n][0]) for n in ("xmin", "xmax", "zmin", "zmax"))   # the box during the solve
        eps = float(s["p.bkg_strain_rate"][0])
        surf = int(g.p("free_surface"))
        if int(g.p("shear_style")):
            lz = z1 - z0
            self.cmp(r, s, "the velocity along the bottom (simple shear)", 0.5 * (u[0, 1:-1] + u[1, 1:-1]), -eps * lz, vs)
            if not surf:
                self.cmp(r, s, "the velocity along the top (simple shear)", 0.5 * (u[-1, 1:-1] + u[-2, 1:-1]), eps * lz, vs)
                self.cmp(r, s, "the velocity across the top (simple shear)", v[-1, 1:-1], 0.0, vs)
                self.cmp(r, s, "the periodicity of the horizontal velocity", u[1:-1, 0], u[1:-1, -1], vs)
                self.cmp(r, s, "the periodicity of the vertical velocity", v[:, 0], v[:, -2], vs)
                self.cmp(r, s, "the periodicity of the vertical velocity", v[:, -1], v[:, 1], vs)
            self.cmp(r, s, "the velocity across the bottom (simple shear)", v[0, 1:-1], 0.0, vs)
            return
        rows = slice(1, -1)
        m = np.ones(g.Nz - 1, bool)
        if surf:
            m = (~g.air)[:, 0] & (~g.air)[:, -1]
            m[np.argmin(m) - 1 if not m.all() else -1:] = False        # the surface has moved since the solve: leave out its row
        self.cmp(r, s, "the velocity across the left side (pure shear)", u[rows, 0][m], -x0 * eps, vs)
        self.cmp(r, s, "the velocity across the right side (pure shear)", u[rows, -1][m], -x1 * eps, vs)
        self.cmp(r, s, "the velocity across the bottom (pure shear)", v[0, 1:-1], z0 * eps, vs)
        self.cmp(r, s, "the velocity gradient at the bottom (pure shear)", u[0, 1:-1] - u[1, 1:-1], 0.0, vs)
        if not surf:
            self.cmp(r, s, "the velocity across the top (pure shear)", v[-1, 1:-1], z1 * eps, vs)
            self.cmp(r, s, "the velocity gradient at the top (pure shear)", u[-1, 1:-1] - u[-2, 1:-1], 0.0, vs)
            self.cmp(r, s, "the velocity gradient at the left side (pure shear)", v[1:-1, 0] - v[1:-1, 1], 0.0, vs)
            self.cmp(r, s, "the velocity gradient at the right side (pure shear)", v[1:-1, -1] - v[1:-1, -2], 0.0, vs)
