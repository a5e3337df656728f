"""P02 crash and fault consistency of checkpoints: every crash point, torn write and failing file operation of a run is injected with
ptrace, then every surviving checkpoint is offered to a new run."""
import hashlib
from concurrent.futures import ThreadPoolExecutor
from mc import *
from space import make
from runner import Check, Res
import obs

SMALL = dict(Nx=5, Nz=5, Nx_part=2, Nz_part=2, min_part_cell=4)
CONFS = {
    "keep": (["surfsed"], dict(Nt=3, delete_breakpoints=0)),
    "recycle": (["elcomp"], dict(Nt=5, delete_breakpoints=1)),
    "overwrite": (["elastic"], dict(Nt=4, delete_breakpoints=-1)),
    "recycle_w2": (["chem"], dict(Nt=8, delete_breakpoints=1, writer_step=2)),
    "recycle_surf": (["surfsed"], dict(Nt=5, delete_breakpoints=1)),
    "overwrite_surf": (["surfsed"], dict(Nt=4, delete_breakpoints=-1)),
}


def injector():
    src = os.path.join(HARN, "pt.c")
    k = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "pt." + k)
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        rc, o = _run_([ "gcc", "-O1", "-w", src, "-o", tmp])
        if rc:
            raise RuntimeError(o)
        os.rename(tmp, out)
    return out


def _run_(c):
    p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")


class CHECK(Check):
    pid = "P02"
    level = "exploration"
    rule = ("scenario = run configuration x (crash before the k-th file operation | k-th write torn after b bytes | k-th file operation fails with an error | disk full from the k-th operation on | "
            "checkpoint cut at byte b | checkpoint missing); after each, every file with a checkpoint name is offered to a new run in the directory as the crash left it; non-trivial = the fault was actually delivered")
    assumptions = ["a crash loses nothing the kernel accepted before it (process crash, not power loss)", "5x5 grid, 3 to 8 steps"]

    def prepare(self, tier):
        self.tier = tier
        self.exe = driver()
        self.pt = injector()
        self.ref = {}
        self.cache = {}
        self.n = 0
        for c in CONFS:
            self.reference(c)

    def mk(self, c, model=None, files=None):
        f, m = CONFS[c]
        return make(f, model=dict(SMALL, **m, **(model or {})), hooks=("out",), realwrite=2, files=files)

    def newdir(self):
        self.n += 1
        return os.path.join(scratch(), "c%06d" % self.n)

    def go(self, j, mode, k, par, lst="-"):
        if j.dir is None:
            j.write(self.newdir())
        p = subprocess.run([self.pt, str(mode), str(k), str(par), lst, j.dir, self.exe, "-1", j.dir], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        return p.returncode

    def reference(self, c):
        j = self.mk(c)
        j.write(self.newdir())
        lst = os.path.join(scratch(), "lst_" + c)
        rc = self.go(j, 0, 0, 0, lst)
        ops = open(lst).read().split("\n")[:-1]
        A = {int(s["p.step"][0]): obs.observe(s) for s in j.snaps("out")}
        files = {f: open(os.path.join(j.dir, f), "rb").read() for f in os.listdir(j.dir) if f.startswith("Breakpoint")}
        self.ref[c] = dict(rc=rc, ops=ops, out=A, files=files)
        j.clean()

    def space(self, tier):
        r = []
        confs = list(CONFS)
        for c in confs:
            ref = self.ref[c]
            r.append(dict(c=c, kind="none"))
            if ref["rc"] != 0:
                continue
            for k, op in enumerate(ref["ops"]):
                r.append(dict(c=c, kind="crash", k=k))
                w = op.split()
                if w[0] == "write":
                    n = int(w[1])
                    sizes = {0, 1, 4, n // 2, n - 1}
                    if tier == "thorough":
                        sizes |= set(range(0, n, 97))
                    for b in sorted(x for x in sizes if 0 <= x < n):
                        r.append(dict(c=c, kind="torn", k=k, b=b))
                for e in (5, 28, 13):
                    r.append(dict(c=c, kind="fail", k=k, e=e))
                r.append(dict(c=c, kind="full", k=k, e=28))
            # every length of a checkpoint
            if c in ("keep", "recycle"):
                for name, data in sorted(ref["files"].items())[:1]:
                    n = len(data)
                    L = set(range(n)) if tier == "thorough" else set(range(0, 700)) | set(range(n - 700, n)) | set(range(0, n, 41))
                    for b in sorted(x for x in L if 0 <= x < n):
                        r.append(dict(c=c, kind="cut", name=name, b=b))
                    r.append(dict(c=c, kind="missing", name=name))
        return r

    def key(self, sc):
        return ":".join(str(sc[k]) for k in ("c", "kind", "k", "b", "e", "name") if k in sc)

    # resume in the directory as it was left; verdict per (set of files, step)
    def resume(self, c, files, step):
        hk = (c, step, tuple(sorted((n, hashlib.sha256(d).hexdigest()) for n, d in files.items())))
        if hk in self.cache:
            return self.cache[hk]
        j = self.mk(c, dict(irestart=1, istep=step), files)
        j.write(self.newdir())
        p = subprocess.run([self.exe, "-1", j.dir], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        v = ("refused", "")
        if p.returncode < 0:
            v = ("died", "signal %d when resuming: %s" % (-p.returncode, j.log(150).replace("\n", " ")))
        elif p.returncode == 0 and os.path.exists(os.path.join(j.dir, "done")):
            A = self.ref[c]["out"]
            B = {int(s["p.step"][0]): s for s in j.snaps("out")}
            want = sorted(t for t in A if t > step)
            got = sorted(t for t in B if t > step)
            if want != got:
                v = ("differs", "outputs after the resume %s, expected %s" % (got, want))
            else:
                v = ("good", "")
                for t in want:
                    d = obs.compare(A[t], obs.observe(B[t]), tol=1e-6)
                    if d:
                        v = ("differs", "step %d: %s" % (t, "; ".join("%s %s" % (x[0], x[2]) for x in d[:3])))
                        break
                if v[0] == "good" and want:
                    last = max(want)
                    nm = "BreakpointXXXXX.dat" if j.model["delete_breakpoints"] == -1 else "Breakpoint%05d.dat" % last
                    if not os.path.exists(os.path.join(j.dir, nm)):
                        v = ("differs", "the resumed run leaves no checkpoint for step %d" % last)
        elif p.returncode == 0:
            v = ("differs", "the resumed run ends with status 0 without completing")
        j.clean()
        self.cache[hk] = v
        return v

    def one(self, sc):
        r = Res()
        c = sc["c"]; ref = self.ref[c]
        f, m = CONFS[c]
        ws = m.get("writer_step", 1); Nt = m["Nt"]; over = m["delete_breakpoints"] == -1
        if sc["kind"] == "none":
            if ref["rc"] != 0:
                r.bad("undisturbed run ends with status %d" % ref["rc"])
                return r
            files, delivered, done = ref["files"], True, list(range(ws, Nt + 1, ws))
            r.states = len(ref["out"])
        elif sc["kind"] in ("cut", "missing"):
            data = ref["files"][sc["name"]]
            files = {sc["name"]: data[:sc["b"]]} if sc["kind"] == "cut" else {}
            step = int(sc["name"][10:15])
            v = self.resume(c, files, step)
            r.states = 1; r.trans = 1
            if v[0] not in ("refused", "good"):
                r.bad("checkpoint %s %s: %s %s" % (sc["name"], "cut after %d of %d bytes" % (sc["b"], len(data)) if files else "missing", {"died": "the program crashes", "differs": "accepted, but"}[v[0]], v[1]), "load")
            return r
        else:
            j = self.mk(c)
            j.write(self.newdir())
            mode = dict(crash=1, torn=2, fail=3, full=4)[sc["kind"]]
            rc = self.go(j, mode, sc["k"], sc.get("b", sc.get("e", 0)))
            files = {n: open(os.path.join(j.dir, n), "rb").read() for n in os.listdir(j.dir) if n.startswith("Breakpoint")}
            done = [int(s["p.step"][0]) for s in j.snaps("out")]
            log = j.log(200).replace("\n", " ")
            r.states = max(1, len(done)); r.trans = len(ref["ops"][:sc["k"] + 1])
            if mode >= 3 and rc >= 128:
                r.bad("%s: the program dies with signal %d when a file operation fails; %s" % (self.key(sc), rc - 128, log), "signal")
            # the checkpoint of step s is written before output s; steps whose output was reached have completed their checkpoint
            done = [s for s in done if s > 0]
            if mode >= 3 and rc != 0:
                done = [s for s in done]
            j.clean()
        cps = sorted(n for n in files if n.endswith(".dat"))
        good = []
        for n in cps:
            steps = range(ws, Nt + 1, ws) if over else [int(n[10:15])]
            vs = {}
            for s in steps:
                vs[s] = self.resume(c, files, s)
                r.sub += 1
            g = [s for s in vs if vs[s][0] == "good"]
            if any(v[0] == "died" for v in vs.values()):
                r.bad("resuming from %s: %s" % (n, [v[1] for v in vs.values() if v[0] == "died"][0]), "died")
            if g:
                good += g
            elif any(v[0] == "differs" for v in vs.values()):
                r.bad("%s is accepted but the resumed run is not the original one: %s" % (n, [v[1] for v in vs.values() if v[0] == "differs"][0]), "differs")
        complete = [s for s in done if s % ws == 0]
        if complete:
            last = max(complete)
            need = last if m["delete_breakpoints"] != -1 else last
            if not [s for s in good if s >= need]:
                r.bad("steps %s were completed with their checkpoints, but no usable checkpoint of step %d or later is left (files: %s)" % (complete, need, ", ".join("%s %d bytes" % (n, len(files[n])) for n in sorted(files))), "lost")
            if m["delete_breakpoints"] == 0:
                miss = [s for s in complete if s not in good]
                if miss:
                    r.bad("checkpoints of steps %s are unusable although nothing was to be deleted" % miss, "lost")
        return r

    def evaluate(self, scs):
        self.cache = {}
        with ThreadPoolExecutor(NPROC) as ex:
            return list(ex.map(self.one, scs))
