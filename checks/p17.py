"""P17 memory safety and determinism: every execution in the bounded configuration space stays inside its objects (ASan/UBSan build as
monitor) and yields bit-identical results whatever the contents of fresh heap and stack memory are."""
import itertools, re
from mc import *
from space import FEATURES, XFEATURES, make
from runner import Check, Res
from p03 import EXTRA, CORE

EX2 = dict(EXTRA)
EX2.update({
    "mech0": (["thermal"], dict(mechanical=0)), "fast1": (["simple"], dict(Nx=9, Nz=5)), "rect": (["elcomp"], dict(Nx=6, Nz=11)), "npart2": (["base"], dict(Nx_part=2, Nz_part=2, min_part_cell=4)),
    "npart5": (["surf"], dict(Nx_part=5, Nz_part=3, min_part_cell=15)), "bigdt": (["surfsed"], dict(dt=6e12, Nt=4)), "ext": (["inflow"], dict(bkg_strain_rate=-2e-14)), "aleext": (["ale"], dict(bkg_strain_rate=-2e-14)),
    "shearneg": (["simple"], dict(bkg_strain_rate=-2e-14)), "debug": (["base"], dict(writer_debug=1)), "noout": (["base"], dict(writer=0)),
})
PAT = [("initz", 0), ("initp", 0x55), ("initp", 0xAA)]


class CHECK(Check):
    pid = "P17"
    level = "exploration"
    rule = ("scenario = input configuration (+ restart) run to completion under the address/undefined-behaviour monitor, or under three different fillings of fresh heap and stack memory whose outputs must be bit-identical; "
            "non-trivial = the run reaches its end or a diagnosed exit")
    assumptions = ["leaks are not judged", "CHOLMOD, HDF5 and libm are not instrumented"]

    def prepare(self, tier):
        self.asan = driver("asan")
        self.exes = {v: driver(v) for v, _ in PAT}

    def space(self, tier):
        F = [f for f in FEATURES]
        r = []
        sets = [([f], {}, None) for f in F + list(XFEATURES)] + [(f, m, x) for x, (f, m) in EX2.items()]
        pr = CORE if tier == "quick" else [f for f in F if f != "base"]
        sets += [(list(p), dict(Nt=1), None) for p in itertools.combinations(pr, 2)]
        if tier == "thorough":
            sets += [(list(p), dict(Nt=1), None) for p in itertools.combinations(CORE, 3)]
        r.append(dict(kind="mem", f=[], m=dict(Nt=1), x="names"))
        for kind in ("mem", "fill"):
            for f, m, x in sets:
                r.append(dict(kind=kind, f=f, m=m, x=x))
        return r

    def key(self, sc):
        return sc["kind"] + ":" + (sc["x"] or "+".join(sc["f"])) + ("/1" if sc["m"].get("Nt") == 1 else "")

    def mk(self, sc, extra=(), **kw):
        m = dict(Nt=2)
        m.update(sc["m"])
        if "wstep2" in sc["f"]:
            m["Nt"] = 2 if m.get("Nt") == 1 else 4
        j = make(sc["f"], model=dict(m, **kw), hooks=() if sc["kind"] == "mem" else ("out",), realwrite=3 if sc["kind"] == "mem" else 0)
        j.extra += list(extra) + (["env MC_NAMES 1"] if sc["x"] == "names" else [])
        return j

    def evaluate(self, scs):
        return pmap(self._batch, scs, 30)

    def _batch(self, scs):
        res = [Res() for _ in scs]
        mem = [(s, r) for s, r in zip(scs, res) if s["kind"] == "mem"]
        if mem:
            J = [self.mk(s) for s, _ in mem]
            env = dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=78")
            run_jobs(J, exe=self.asan, timeout=300, env=env)
            second = []
            for (s, r), j in zip(mem, J):
                self.judge(s, r, j)
                fn = os.path.join(j.dir, "Breakpoint00001.dat")
                if not r.viol and j.ok() and j.model["Nt"] > 1 and os.path.exists(fn):
                    c = self.mk(s, irestart=1, istep=1)
                    c.files = {"Breakpoint00001.dat": open(fn, "rb").read()}
                    second.append((s, r, c))
                j.clean()
            if second:
                run_jobs([c for _, _, c in second], exe=self.asan, timeout=300, env=env)
                for s, r, c in second:
                    self.judge(s, r, c, "resumed ")
                    c.clean()
        fill = [(s, r) for s, r in zip(scs, res) if s["kind"] == "fill"]
        if fill:
            Js = []
            for v, p in PAT:
                J = [self.mk(s, ["env PERTURB %d" % p] if p else []) for s, _ in fill]
                run_jobs(J, exe=self.exes[v])
                Js.append(J)
            for i, (s, r) in enumerate(fill):
                a = Js[0][i]
                A = a.snaps("out")
                for q in range(1, len(PAT)):
                    b = Js[q][i]
                    r.trans += 1
                    if a.status() != b.status():
                        r.bad("the outcome depends on the contents of uninitialised memory: %s / %s" % (a.status(), b.status()), "fill")
                        break
                    B = b.snaps("out")
                    for x, y in zip(A, B):
                        r.states += 1
                        first = int(x["p.step"][0]) == 0
                        d = [k for k in x if k[:2] in ("m.", "k.", "p.", "ts", "t.", "tc", "n.") and not (first and (k[:2] == "n.")) and k != "p.nit" and not k.startswith("n.res") and not np.array_equal(x[k], y[k], equal_nan=True)]
                        if d:
                            r.bad("output of step %d depends on the contents of uninitialised memory: %s" % (int(x["p.step"][0]), ", ".join(d[:8])), "fill")
                            break
                    if r.viol:
                        break
                for J in Js:
                    J[i].clean()
        return res

    def judge(self, s, r, j, pre=""):
        st = j.status()
        if s["x"] == "names" and j.ok():
            for a, b in (q.split() for q in open(os.path.join(j.dir, "names"))):
                r.states += 1
                if b != re.split(r"[/\\\\]", a)[-1].rsplit(".", 1)[0] + ".txt":
                    r.bad("default setup file of %s is %s" % (a, b), "mem"); break
        r.trans += j.model["Nt"]; r.states += 1
        l = j.log(30000)
        m = re.search(r"(ERROR: AddressSanitizer: [\w-]+|runtime error: [^\n]*)", l)
        if m:
            fr = re.findall(r"#\d+ 0x\w+ in (\w+) (\S+?:\d+)", l)[:3]
            r.bad("%srun: %s at %s" % (pre, m.group(1), "; ".join("%s %s" % f for f in fr)), "mem")
        elif st.startswith("signal"):
            r.bad("%srun dies with %s; %s" % (pre, st, l[-150:].replace("\n", " ")), "mem")
        elif "exit" not in st:
            r.note = "time limit: " + self.key(s)
        elif not j.ok():
            r.note = "ends with a diagnosed error: " + self.key(s)
