"""P01 restart equivalence: a run resumed from any of its checkpoints continues exactly as the uninterrupted run."""
import itertools
from mc import *
from space import FEATURES, XFEATURES, make
from runner import Check, Res
import obs


class CHECK(Check):
    pid = "P01"
    level = "exploration"
    rule = ("scenario = a set of input switches (one or two in quick, up to three in thorough) x a restart step; both the uninterrupted run and the resumed run are the real RunMDOODZ; "
            "non-trivial = the uninterrupted run completes and the resumed one is compared on every later output")
    assumptions = ["8x7 grid, two materials, 3 time steps; same binary and same machine for both runs", "single-threaded run (thread schedules are P03)"]

    def space(self, tier):
        F = list(FEATURES)
        r = []
        for a in F:
            for rs in ((1, 2) if a != "wstep2" else (2,)):
                r.append(dict(f=[a], rs=rs))
        for a, b in itertools.combinations(F, 2):
            if "wstep2" in (a, b):
                r.append(dict(f=[a, b], rs=2))
                continue
            for rs in ((1,) if tier == "quick" else (1, 2)):
                r.append(dict(f=[a, b], rs=rs))
        if tier == "thorough":
            core = [f for f in F if f in ("elcomp", "shearheat", "fstrain", "track", "ale", "simple", "anifs", "newton", "courant", "surfsed", "surf", "chem", "melt", "conserv",
                                          "subgrid2", "plast", "dilat", "reac", "densvar", "transm", "dual", "noise", "adiab2", "powermix", "powerlaw", "preload")]
            for c in itertools.combinations(core, 3):
                r.append(dict(f=list(c), rs=1))
        for a in XFEATURES:
            for rs in (1, 2):
                r.append(dict(f=[a], rs=rs))
        # checkpoint management modes and longer histories
        for a in ("elcomp", "surfsed", "courant", "anifs", "chem"):
            for dele in (0, 1, 2, -1):
                for rs in (1, 2, 3, 4):
                    r.append(dict(f=[a], rs=rs, Nt=5, dele=dele))
        return r

    def key(self, sc):
        return "+".join(sc["f"]) + "@%d" % sc["rs"] + ("" if "dele" not in sc else "/del%d" % sc["dele"])

    def mk(self, sc, rs=None, files=None):
        m = dict(Nt=sc.get("Nt", 3) if "wstep2" not in sc["f"] else 4)
        if "dele" in sc:
            m["delete_breakpoints"] = sc["dele"]
        if rs is not None:
            m.update(irestart=1, istep=rs)
        return make(sc["f"], model=m, hooks=("out",), realwrite=2, files=files)

    def bp(self, sc):
        # the checkpoint that the run left under the name it is restarted from
        if sc.get("dele") == -1:
            return "BreakpointXXXXX.dat"
        return "Breakpoint%05d.dat" % sc["rs"]

    def evaluate(self, scs):
        return pmap(self._batch, scs, 40)

    def _batch(self, scs):
        base = {}
        for sc in scs:
            k = ("+".join(sc["f"]), sc.get("Nt"), sc.get("dele"))
            if k not in base:
                base[k] = self.mk(sc)
                if sc.get("dele") is not None:
                    base[k].extra = base[k].extra + []
        run_jobs(list(base.values()))
        res = [Res() for _ in scs]
        jobs = []
        for sc, r in zip(scs, res):
            k = ("+".join(sc["f"]), sc.get("Nt"), sc.get("dele"))
            b = base[k]
            if not b.ok():
                r.note = "reference run does not complete for " + k[0]
                continue
            rs, src = sc["rs"], b
            if sc.get("dele") not in (None, 0):
                # older checkpoints are recycled: obtain the checkpoint from a run that stops at the restart step
                c = self.mk(dict(sc, Nt=rs))
                jobs.append((sc, r, b, c))
                continue
            p = os.path.join(src.dir, self.bp(sc))
            if not os.path.exists(p):
                r.bad("no checkpoint for step %d" % rs)
                continue
            jobs.append((sc, r, b, self.mk(sc, rs, {self.bp(sc): open(p, "rb").read()})))
        first = [c for sc, r, b, c in jobs if not c.model.get("irestart")]
        if first:
            run_jobs(first)
            nj = []
            for sc, r, b, c in jobs:
                if not c.model.get("irestart"):
                    p = os.path.join(c.dir, self.bp(sc))
                    if not c.ok() or not os.path.exists(p):
                        r.bad("no checkpoint for step %d (%s)" % (sc["rs"], c.status()))
                        c.clean()
                        continue
                    d = self.mk(sc, sc["rs"], {self.bp(sc): open(p, "rb").read()})
                    c.clean()
                    nj.append((sc, r, b, d))
                else:
                    nj.append((sc, r, b, c))
            jobs = nj
        run_jobs([c for _, _, _, c in jobs])
        cache = {}
        for sc, r, b, c in jobs:
            if id(b) not in cache:
                cache = {id(b): {int(s["p.step"][0]): s for s in b.snaps("out")}}
            A = cache[id(b)]
            if not c.ok():
                r.bad("resumed run does not complete: %s; %s" % (c.status(), c.log(200).replace("\n", " ")))
                continue
            Bn = {int(s["p.step"][0]): s for s in c.snaps("out")}
            want = sorted(t for t in A if t > sc["rs"])
            got = sorted(t for t in Bn if t > sc["rs"])
            if want != got:
                r.bad("outputs written after the restart: steps %s, expected %s" % (got, want))
                continue
            for t in want:
                r.states += 2
                d = obs.compare(obs.observe(A[t]), obs.observe(Bn[t]), tol=1e-6)
                if d:
                    d.sort(key=lambda x: -x[1])
                    r.bad("step %d after restart from %d: %d quantities differ, e.g. %s" % (t, sc["rs"], len(d), "; ".join("%s %s" % (x[0], x[2]) for x in d[:4])))
                    break
            r.trans += len(want) * 2
            c.clean()
        for b in base.values():
            b.clean()
        return res
