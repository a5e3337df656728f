"""Shared machinery: build the code under test from /repo's working tree, run scenario sets on it, read
the state dumps, write evidence, report violations."""
import os, sys, re, json, time, struct, hashlib, subprocess, shutil, tempfile, atexit, traceback
os.environ["OPENBLAS_NUM_THREADS"] = "1"                # the workers are processes; small systems do not profit from threads
import numpy as np

REPO = os.environ.get("MC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.environ.get("MC_HARN", os.path.join(VERIF, "harness"))
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
NPROC = max(1, min(8, os.cpu_count() or 8))
ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", LANG="C", LC_ALL="C")

HDF5I = "/usr/include/hdf5/serial"
SSI = "/usr/include/suitesparse"
LIBS = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial",
        "-lcholmod", "-lcxsparse", "-lumfpack", "-lamd", "-lccolamd", "-lcolamd", "-lbtf", "-lhdf5", "-lm", "-lpthread", "-ldl"]
VARIANTS = {
    "fast": dict(cc="gcc", cflags=["-O1", "-g0", "-w", "-std=gnu11"], ld=[]),
    "asan": dict(cc="gcc", cflags=["-O1", "-g1", "-w", "-std=gnu11", "-fsanitize=address,undefined", "-fno-omit-frame-pointer",
                                    "-fno-sanitize=alignment,float-divide-by-zero", "-fno-sanitize-recover=undefined"], ld=["-fsanitize=address,undefined"]),
    "initz": dict(cc="gcc", cflags=["-O1", "-g0", "-w", "-std=gnu11", "-ftrivial-auto-var-init=zero"], ld=[]),
    "initp": dict(cc="gcc", cflags=["-O1", "-g0", "-w", "-std=gnu11", "-ftrivial-auto-var-init=pattern"], ld=[]),
    "vomp": dict(cc="gcc", cflags=["-O1", "-g1", "-w", "-std=gnu11", "-fopenmp", "-D_OMP_", "-fsanitize=thread", "-fno-builtin-memset", "-fno-builtin-memcpy"], ld=["-rdynamic"], plain=["vomp.c"],
                 wraps=["memset", "memcpy", "memmove", "free"], link=["-no-pie"]),
    "oom": dict(cc="gcc", cflags=["-O1", "-g0", "-w", "-std=gnu11"], ld=[], plain=["oom.c"]),
    "omp": dict(cc="gcc", cflags=["-O1", "-g1", "-w", "-std=gnu11", "-fopenmp", "-D_OMP_"], ld=["-fopenmp"]),
}

if os.environ.get("MC_OPT"):                  # robustness experiments: other rounding of the same source
    for _v in VARIANTS.values():
        _v["cflags"] = [c for c in _v["cflags"] if c != "-O1"] + os.environ["MC_OPT"].split()


def lib_sources():
    txt = open(os.path.join(REPO, "MDLIB", "CMakeLists.txt")).read()
    m = re.search(r"add_library\s*\(\s*mdoodz\s+\w+(.*?)\)", txt, re.S)
    names = [n for n in m.group(1).split() if n.endswith(".c")]
    return [os.path.join(REPO, "MDLIB", n) for n in names]


def _hash(files, extra):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def repo_headers():
    r = []
    for d in ("MDLIB", "MDLIB/include"):
        p = os.path.join(REPO, d)
        r += [os.path.join(p, f) for f in os.listdir(p) if f.endswith(".h")]
    return r


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return p.returncode, p.stdout.decode(errors="replace")


def build_objs(variant):
    """compile the library sources of /repo's working tree, return the list of objects"""
    v = VARIANTS[variant]
    srcs = lib_sources()
    hdrs = repo_headers()
    od = os.path.join(BUILD, variant)
    os.makedirs(od, exist_ok=True)
    jobs, objs = [], []
    for s in srcs:
        k = _hash([s] + hdrs, v)
        o = os.path.join(od, os.path.basename(s)[:-2] + "." + k + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))
    inc = ["-I" + os.path.join(REPO, "MDLIB"), "-I" + os.path.join(REPO, "MDLIB", "include"), "-I" + HDF5I, "-I" + SSI]
    procs = []
    fails = []

    def reap(limit):
        while len(procs) > limit:
            p, s, o = procs.pop(0)
            out, _ = p.communicate()
            if p.returncode:
                fails.append((s, out.decode(errors="replace")))
            else:
                os.rename(o + ".tmp%d" % os.getpid(), o)
    # largest first, for an even makespan
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    for s, o in jobs:
        reap(NPROC - 1)
        # drop stale objects of the same source
        base = os.path.basename(s)[:-2] + "."
        for f in os.listdir(od):
            if f.startswith(base) and f.endswith(".o") and os.path.join(od, f) != o and time.time() - os.path.getmtime(os.path.join(od, f)) > 7200:
                try: os.remove(os.path.join(od, f))
                except OSError: pass
        procs.append((subprocess.Popen([v["cc"]] + v["cflags"] + inc + ["-c", s, "-o", o + ".tmp%d" % os.getpid()],
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT), s, o))
    reap(0)
    if fails:
        raise BuildError("\n".join(s + ":\n" + o for s, o in fails))
    return objs


def build_prog(variant, name, sources, wraps=(), extra_cflags=(), extra_ld=()):
    v = VARIANTS[variant]
    objs = build_objs(variant)
    hf = [os.path.join(HARN, f) for f in os.listdir(HARN) if f.endswith((".h", ".txt"))]
    srcs = [os.path.join(HARN, s) for s in sources]
    k = _hash(srcs + hf + [os.path.join(HARN, q) for q in v.get("plain", [])], (v, objs, list(wraps), list(extra_cflags), list(extra_ld)))
    out = os.path.join(BUILD, variant, "%s.%s" % (name, k))
    if os.path.exists(out):
        return out
    for f in os.listdir(os.path.join(BUILD, variant)):
        p = os.path.join(BUILD, variant, f)
        if f.startswith(name + ".") and time.time() - os.path.getmtime(p) > 7200:
            try: os.remove(p)
            except OSError: pass
    for pl in v.get("plain", []):
        po = os.path.join(BUILD, variant, pl[:-2] + ".plain.%s.o" % _hash([os.path.join(HARN, pl)], 1))
        if not os.path.exists(po):
            rc, o = _run(["gcc", "-O2", "-w", "-c", os.path.join(HARN, pl), "-o", po + ".%d" % os.getpid()])
            if rc:
                raise BuildError(o)
            os.rename(po + ".%d" % os.getpid(), po)
        objs = objs + [po]
    wraps = list(wraps) + v.get("wraps", [])
    inc = ["-I" + HARN, "-I" + os.path.join(REPO, "MDLIB"), "-I" + os.path.join(REPO, "MDLIB", "include"), "-I" + HDF5I, "-I" + SSI]
    tmp = out + ".tmp%d" % os.getpid()
    if "link" in v:
        no = []
        for q in srcs:
            oo = tmp + os.path.basename(q) + ".o"
            rc, o = _run([v["cc"]] + v["cflags"] + list(extra_cflags) + inc + ["-c", q, "-o", oo])
            if rc:
                raise BuildError(o)
            no.append(oo)
        rc, o = _run([v["cc"]] + v["link"] + no + objs + ["-Wl,--wrap=" + w for w in wraps] + v["ld"] + list(extra_ld) + LIBS + ["-o", tmp])
        for oo in no:
            os.remove(oo)
    else:
        rc, o = _run([v["cc"]] + v["cflags"] + list(extra_cflags) + inc + srcs + objs + ["-Wl,--wrap=" + w for w in wraps] + v["ld"] + list(extra_ld) + LIBS + ["-o", tmp])
    if rc:
        raise BuildError(o)
    os.rename(tmp, out)
    return out


def driver(variant="fast"):
    wraps = open(os.path.join(HARN, "wrapnames.txt")).read().split()
    return build_prog(variant, "drv", ["drv.c"], wraps)


# ----------------------------------------------------------------------------------------------- scratch
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (3 << 30) else tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix="mdmc_", dir=base)
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


# ----------------------------------------------------------------------------------------------- scenarios
DEF_MODEL = dict(istep=0, irestart=0, writer=1, writer_step=1, writer_subfolder="./", noisy=0,
                 eta=1, L=1, V=1, T=1, Nx=7, Nz=7, xmin=-0.5, xmax=0.5, zmin=-0.5, zmax=0.5, Nx_part=4, Nz_part=4, min_part_cell=16,
                 Nt=1, constant_dt=1, dt=0.1, Courant=0.3, RK=4, penalty=1e5, lin_solver=2, diag_scaling=0, lin_abs_div=1e-13, lin_rel_div=1e-13,
                 lin_abs_mom=1e-13, lin_rel_mom=1e-13, max_its_PH=20, nit_max=20, nonlin_abs_mom=1e-11, nonlin_rel_mom=1e-11, nonlin_abs_div=1e-11, nonlin_rel_div=1e-11,
                 min_eta=1e-3, max_eta=1e6, shear_style=0, periodic_x=0, pure_shear_ALE=0, bkg_strain_rate=1, gx=0, gz=0)
DEF_PHASE = dict(rho=1, G=1, Cp=1, k=1, Qr=0, C=1e90, phi=30, Slim=1e100, alp=0, bet=1e-11, drho=0, cstv=1, pwlv=0, linv=0, gbsv=0, expv=0, gsel=0, eta0=1, npwl=1, Qpwl=0)


def fmt(v):
    if isinstance(v, (float, np.floating)):
        return repr(float(v))
    return str(v)


class Job:
    """one bounded execution: an input file, the user callbacks (fields, boundary conditions), observers"""
    def __init__(self, name="", model=None, phases=None, fields=None, topo=None, topophase=None, bcvx=None, bcvz=None, bct=None, bcc=None, bcp=None,
                 tmpl=None, hooks=("out",), realwrite=0, extra=(), files=None, meta=None, intext=None, box=None, base_model=DEF_MODEL, base_phase=DEF_PHASE):
        self.name = name
        self.model = dict(base_model); self.model.update(model or {})
        self.phases = [dict(base_phase, **p) for p in (phases or [{}])]
        self.fields = fields or {}
        self.topo, self.topophase = topo, topophase
        self.bcvx, self.bcvz, self.bct, self.bcc, self.bcp = bcvx or {}, bcvz or {}, bct or {}, bcc or {}, bcp or {}
        self.tmpl = tmpl
        self.hooks = hooks
        self.realwrite = realwrite
        self.extra = list(extra)
        self.files = files or {}
        self.meta = meta or {}
        self.intext = intext
        self.box = box
        self.dir = None

    def in_txt(self):
        if self.intext is not None:
            return self.intext
        o = []
        for k, v in self.model.items():
            o.append("%s = %s" % (k, fmt(v)))
        o.append("Nb_phases = %d" % len(self.phases))
        for i, p in enumerate(self.phases):
            o.append("ID = %d" % i)
            for k, v in p.items():
                o.append("%s = %s" % (k, fmt(v)))
        return "\n".join(o) + "\n"

    def job_txt(self):
        m = self.model
        b = self.box or (m["xmin"], m["xmax"], m["zmin"], m["zmax"])
        o = ["box %r %r %r %r" % tuple(float(x) for x in b)]
        for f, s in self.fields.items():
            if s[0] == "lin":
                o.append("field %s lin %r %r %r" % ((f,) + tuple(float(x) for x in s[1:])))
            else:
                a = np.asarray(s[1], float)
                o.append("field %s %s %d %d %s" % (f, s[0], a.shape[1], a.shape[0], " ".join(repr(float(x)) for x in a.ravel())))
        if self.topo is not None:
            o.append("topo %d %s" % (len(self.topo), " ".join(repr(float(x)) for x in self.topo)))
        if self.topophase is not None:
            o.append("topophase %d" % self.topophase)
        for k in ("bcvx", "bcvz", "bct", "bcc"):
            for p, s in getattr(self, k).items():
                s = tuple(s) + (0.0,) * (4 - len(s))
                o.append("%s %s %d %r %r %r" % (k, p, s[0], float(s[1]), float(s[2]), float(s[3])))
        for p, t in self.bcp.items():
            o.append("bcp %s %d" % (p, t))
        if self.tmpl:
            o.append("tmpl %d %d" % self.tmpl)
        for h in self.hooks:
            o.append("hook %s" % h)
        o.append("realwrite %d" % self.realwrite)
        o += self.extra
        return "\n".join(o) + "\n"

    def write(self, d):
        os.makedirs(d, exist_ok=True)
        self.dir = d
        open(os.path.join(d, "in.txt"), "w").write(self.in_txt())
        open(os.path.join(d, "job.txt"), "w").write(self.job_txt())
        for n, data in self.files.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "wb").write(data)

    # results
    def status(self):
        try:
            return open(os.path.join(self.dir, "status")).read().strip()
        except OSError:
            return "missing"

    def ok(self):
        return self.status() == "exit 0" and os.path.exists(os.path.join(self.dir, "done"))

    def log(self, n=4000):
        try:
            b = open(os.path.join(self.dir, "log"), "rb").read()
            return b[-n:].decode(errors="replace")
        except OSError:
            return ""

    def snaps(self, prefix=None, cut=False):
        return load_dump(os.path.join(self.dir, "dump.bin"), prefix, cut)

    def clean(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)


class Snap(dict):
    __slots__ = ("tag",)

    def __getattr__(self, k):
        raise AttributeError(k)

    def f(self, k):
        return self[k]

    def s(self, k):
        return self[k][0]


_DT = {b"d": (np.float64, 8), b"i": (np.int32, 4), b"c": (np.int8, 1)}


def load_dump(fn, prefix=None, cut=False):
    try:
        b = open(fn, "rb").read()
    except OSError:
        return []
    r = []
    i = 0
    n = len(b)
    while i < n:
        if b[i:i + 4] != b"SNAP":
            break
        i += 4
        l = b[i]; tag = b[i + 1:i + 1 + l].decode(); i += 1 + l
        s = Snap(); s.tag = tag
        while i < n:
            l = b[i]; i += 1
            if l == 0:
                break
            name = b[i:i + l].decode(); i += l
            ty = b[i:i + 1]; i += 1
            if cut and i + 8 > n:
                return r
            cnt = struct.unpack_from("<q", b, i)[0]; i += 8
            dt, sz = _DT[ty]
            if cut and i + sz * cnt > n:
                return r
            s[name] = np.frombuffer(b, dt, cnt, i)
            i += sz * cnt
        else:
            break
        if prefix is None or tag.startswith(prefix):
            r.append(s)
    return r


_jobn = [0]


def run_jobs(jobs, exe=None, variant="fast", nproc=None, timeout=60, env=None):
    exe = exe or driver(variant)
    root = scratch()
    _jobn[0] += 1
    lst = os.path.join(root, "list%d" % _jobn[0])
    with open(lst, "w") as f:
        for k, j in enumerate(jobs):
            if j.dir is None:
                j.write(os.path.join(root, "b%d_%d" % (_jobn[0], k)))
            f.write(j.dir + "\n")
    e = dict(ENV)
    e.update(env or {})
    p = subprocess.run([exe, lst, str(nproc or NPROC), str(timeout)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
    if p.returncode:
        raise RuntimeError("driver failed: " + p.stdout.decode(errors="replace")[-2000:])
    return jobs


def _pinit(root):
    global _scratch, NPROC
    _scratch = os.path.join(root, "p%d" % os.getpid())
    os.makedirs(_scratch, exist_ok=True)
    NPROC = 1


def pmap(fn, items, chunk=24, variants=("fast",)):
    """apply fn (a list of scenarios -> a list of results) to chunks of items, in forked workers that each run one job at a time"""
    import multiprocessing as mp
    for v in variants:
        driver(v)
    if len(items) <= 2:
        return fn(items)
    chunk = max(1, min(chunk, (len(items) + NPROC - 1) // NPROC))
    parts = [items[i:i + chunk] for i in range(0, len(items), chunk)]
    with mp.get_context("fork").Pool(NPROC, initializer=_pinit, initargs=(scratch(),)) as p:
        return [r for part in p.map(fn, parts, 1) for r in part]
