"""P03 results do not depend on the number of threads or on their schedule.  The OpenMP build of the library runs on a controlled runtime
(harness/vomp.c) whose virtual threads are executed in every given order between barriers and whose memory accesses are all recorded."""
import itertools
from mc import *
from space import FEATURES, XFEATURES, make
from runner import Check, Res
import obs

EXTRA = {
    "lin0": (["base"], dict(lin_solver=0)), "lin-1": (["base"], dict(lin_solver=-1)), "lin-1comp": (["elcomp"], dict(lin_solver=-1)), "lin0comp": (["elcomp"], dict(lin_solver=0)),
    "noisy": (["base"], dict(noisy=1)), "noisyT": (["shearheat"], dict(noisy=1)), "noisysurf": (["surfsed"], dict(noisy=1)),
    "reseed": (["base"], dict(min_part_cell=18, Nt=3, dt=6e12)), "reseedsurf": (["surfsed"], dict(min_part_cell=18, Nt=3, dt=6e12)),
    "grid15": (["elcomp"], dict(Nx=15, Nz=12)), "grid5": (["base"], dict(Nx=5, Nz=5)), "aniel": (["aniso", "elcomp"], {}), "aninewt": (["aniso", "elastic", "newton"], {}),
    "newtplast": (["newton", "dilat"], {}), "simpleani": (["simple", "anifs"], {}), "simpletherm": (["simple", "shearheat", "elastic"], {}), "per": (["simple"], dict(RK=1)),
    "smooth": (["soft"], dict(smooth_softening=1)), "maps": (["powermix"], dict(deformation_maps=0)), "markers": (["fstrain", "track"], dict(writer_markers=1)),
    "restart": (["elcomp"], dict(Nt=3)), "restartsurf": (["surfsed"], dict(Nt=3)), "restartani": (["anifs"], dict(Nt=3)),
}
CORE = "elcomp shearheat fstrain track ale inflow simple anifs newton courant surfsed chem melt conserv subgrid2 powerlaw plast dilat soft rot2 reac densvar transm oop sten9 preload".split()


def perms(n):
    return [list(p) for p in itertools.permutations(range(n))]


class CHECK(Check):
    pid = "P03"
    level = "exploration"
    rule = ("scenario = input configuration x number of threads x order in which the threads of every parallel region run; checked: no location written by one thread is touched by another between two barriers "
            "(so every interleaving of the region is equivalent to the executed one; accesses inside critical/atomic sections commute-checked by the orders), and all outputs agree with the one-thread run")
    assumptions = ["8x7 (one 15x12, one 4x4) grid, 2-3 steps", "library routines outside the repository (CHOLMOD, HDF5, libm) are taken as thread-safe: they are not instrumented",
                   "round-off level differences of reduction orders are tolerated (1e-6 relative)"]

    def prepare(self, tier):
        self.tier = tier
        self.exe = driver("vomp")

    def space(self, tier):
        sched = [(2, [0, 1]), (2, [1, 0])] + [(3, p) for p in (perms(3) if tier == "thorough" else [[0, 1, 2], [2, 1, 0], [1, 2, 0]])] + [(4, [3, 1, 2, 0]), (7, [6, 5, 4, 3, 2, 1, 0])]
        if tier == "thorough":
            sched += [(4, p) for p in perms(4)[:-1]] + [(5, [4, 2, 0, 1, 3]), (8, [0, 1, 2, 3, 4, 5, 6, 7]), (16, list(range(15, -1, -1)))]
            sched = [s for i, s in enumerate(sched) if s not in sched[:i]]
        r = []
        for f in FEATURES:
            for n, o in sched:
                r.append(dict(f=[f], n=n, o=o, m={}))
        for x, (f, m) in EXTRA.items():
            for n, o in sched:
                r.append(dict(f=f, n=n, o=o, m=m, x=x))
        for f in XFEATURES:
            for n, o in (sched if tier == "thorough" else [(2, [1, 0]), (3, [2, 0, 1])]):
                r.append(dict(f=[f], n=n, o=o, m={}))
        pairs = itertools.combinations(CORE if tier == "quick" else [f for f in FEATURES if f != "base"], 2)
        for a, b in pairs:
            r.append(dict(f=[a, b], n=3 if tier == "quick" else 4, o=[2, 0, 1] if tier == "quick" else [2, 3, 0, 1], m=dict(Nt=1)))
        return r

    def key(self, sc):
        return (sc.get("x") or "+".join(sc["f"])) + "/%d:%s" % (sc["n"], ",".join(map(str, sc["o"])))

    def base(self, sc):
        return json.dumps([sc["f"], sc["m"], sc.get("x")])

    def mk(self, sc, n, o):
        m = dict(Nt=2)
        if "wstep2" in sc["f"]:
            m["Nt"] = 4 if sc["m"].get("Nt") != 1 else 2
        m.update({k: v for k, v in sc["m"].items() if not ("wstep2" in sc["f"] and k == "Nt")})
        j = make(sc["f"], model=m, hooks=("out",), realwrite=2 if "restart" in (sc.get("x") or "") else (1 if sc.get("x") == "markers" else 0))
        j.extra += ["env VOMP_N %d" % n, "env VOMP_ORDER %s" % ",".join(map(str, o))]
        return j

    def chaotic(self, sc, step):
        """does the one-thread run itself react to round-off sized changes of its input by more than the tolerance?"""
        k = self.base(sc)
        self.chaos = getattr(self, "chaos", {})
        if k not in self.chaos:
            J = [self.mk(sc, 1, [0]) for _ in range(5)]
            for j, e in zip(J, (0, 1e-13, -1e-13, 3e-14, 5e-13)):
                for q in ("dt", "bkg_strain_rate", "gz"):
                    j.model[q] = j.model[q] * (1 + e)
            run_jobs(J, exe=self.exe, timeout=120)
            o = [{int(s["p.step"][0]): obs.observe(s) for s in j.snaps("out")} for j in J]
            first = 10 ** 6
            for t in sorted(o[0]):
                if any(t not in x or obs.compare(o[0][t], x[t], tol=1e-8) for x in o[1:]):
                    first = t
                    break
            self.chaos[k] = first
            for j in J:
                j.clean()
        return step >= self.chaos[k]

    def symb(self, addrs):
        addrs = sorted(set(addrs))
        if not addrs:
            return {}
        base = 0x400000
        o = subprocess.run(["addr2line", "-e", self.exe, "-f", "-s"] + ["0x%x" % (int(a, 16) + base - 1) for a in addrs], stdout=subprocess.PIPE).stdout.decode().split("\n")
        return {a: "%s (%s)" % (o[2 * i], o[2 * i + 1]) for i, a in enumerate(addrs)}

    def evaluate(self, scs):
        out = pmap(self._batch, scs, 30, ())
        self.extra_cov = dict(parallel_regions_exercised=len(set().union(*[r.tag or () for r in out])))
        return out

    def _batch(self, scs):
        ref = {}
        jobs = []
        for sc in scs:
            b = self.base(sc)
            if b not in ref:
                ref[b] = self.mk(sc, 1, [0])
            jobs.append(self.mk(sc, sc["n"], sc["o"]))
        run_jobs(list(ref.values()) + jobs, exe=self.exe, timeout=120)
        # restart variants: resume from step 1 with the other number of threads
        for i, (sc, j) in enumerate(zip(scs, jobs)):
            if "restart" in (sc.get("x") or "") and j.ok():
                fn = os.path.join(j.dir, "Breakpoint00001.dat")
                if os.path.exists(fn):
                    c = self.mk(dict(sc, m=dict(sc["m"], irestart=1, istep=1)), sc["n"], sc["o"])
                    c.files = {"Breakpoint00001.dat": open(fn, "rb").read()}
                    c.meta = j
                    jobs[i] = c
        run_jobs([j for j in jobs if j.dir is None], exe=self.exe, timeout=120)
        res = []
        cache = {}
        for sc, j in zip(scs, jobs):
            r = Res()
            res.append(r)
            b = ref[self.base(sc)]
            if not b.ok():
                r.note = "one-thread run does not complete for " + (sc.get("x") or "+".join(sc["f"]))
                if "exit 1" not in b.status() and "signal" in b.status():
                    r.note += " " + b.status()
                continue
            if id(b) not in cache:
                cache = {id(b): {int(s["p.step"][0]): obs.observe(s) for s in b.snaps("out")}}
            A = cache[id(b)]
            dirs = [j.dir] + ([j.meta.dir] if isinstance(j.meta, Job) else [])
            lines = []
            for d in dirs:
                try:
                    v = open(os.path.join(d, "vomp")).read().split()
                    r.trans += int(v[2]) * sc["n"]; r.sub += 1
                    r.tag = set(v[6:]) | (r.tag or set())
                except (OSError, IndexError):
                    pass
                if os.path.exists(os.path.join(d, "conflicts")):
                    lines += open(os.path.join(d, "conflicts")).read().split("\n")
            lines = sorted({l for l in lines if l.strip()})
            if lines:
                m = self.symb([w for l in lines for w in l.split()[1:3] if w != "0"])
                for l in lines[:5]:
                    w = l.split()
                    t = "conflicting accesses of two threads without synchronisation (%s): %s and %s" % (w[0], m.get(w[1], w[1]), m.get(w[2], w[2]))
                    r.bad(t, "race")
            if not j.ok():
                r.bad("the run with %d threads does not complete: %s %s" % (sc["n"], j.status(), j.log(150).replace("\n", " ")), "fail")
            else:
                B = {int(s["p.step"][0]): s for s in j.snaps("out")}
                want = sorted(t for t in A if not isinstance(j.meta, Job) or t > 1)
                if [t for t in want if t not in B]:
                    r.bad("outputs missing", "out")
                else:
                    for t in want:
                        r.states += 1
                        d = obs.compare(A[t], obs.observe(B[t]), tol=1e-6)
                        if d:
                            d.sort(key=lambda x: -x[1])
                            if self.chaotic(sc, t):
                                r.note = "round-off amplified by the iterations of " + "+".join(sc["f"]) + ": only the access sets are judged"
                                break
                            r.bad("step %d: %d quantities differ from the one-thread run, e.g. %s" % (t, len(d), "; ".join("%s %s" % (x[0], x[2]) for x in d[:4])), "diff")
                            break
            j.clean()
            if isinstance(j.meta, Job):
                j.meta.clean()
        for b in ref.values():
            b.clean()
        return res
