"""Self-assessment only (no check reads this): mutate executed lines of a scratch clone, keep the mutants that build and
pass the stable tests, run the checks on each until one reports a violation, list the survivors.
  python3-vt tools/mutate.py CLONE COVDIR N SEED OUT.jsonl [file.c ...]
CLONE: a git clone of /repo outside /repo and /verif; COVDIR: directory of X.c.gcov-like json {file: [executed lines]}"""
import sys, os, re, json, random, subprocess, hashlib, time, shutil
clone, cov, n, seed, out = sys.argv[1], json.load(open(sys.argv[2])), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
only = sys.argv[6:]
rng = random.Random(seed)
TIME = dict(P03=60, P25=15, P21=120, P20=7, P14=7, P19=12, P13=13, P22=15, P15=17, P07=22, P24=24, P09=25, P08=28, P10=33, P12=30, P23=35, P01=38, P17=35, P16=90, P02=50, P06=60, P05=45)
ORDER = os.environ.get("CHECKS", " ".join(TIME)).split()
SWAP = [("dx", "dz"), ("Nx", "Nz"), ("Ncx", "Ncz"), ("nx", "nz"), ("ncx", "ncz"), ("nxvz", "nx"), ("sxxd", "szzd"), ("xg_coord", "xvz_coord"), ("zg_coord", "zvx_coord"),
        ("xc_coord", "xg_coord"), ("zc_coord", "zg_coord"), ("inE", "inW"), ("inN", "inS"), ("iVxE", "iVxW"), ("iVzN", "iVzS"), ("T", "T0_n"), ("eta_n", "eta_phys_n"), ("exxd", "ezzd"), ("u_in", "v_in"), ("xmin", "xmax"), ("zmin", "zmax"), ("k", "l"), ("c1", "c2"), ("c0", "c2"), ("W", "E"), ("S", "N")]
LIT = {"0.5": ["0.25", "1.0"], "1.0": ["0.0", "2.0"], "2.0": ["1.0"], "0.0": ["1.0"], "0": ["1"], "1": ["0", "2"], "2": ["1"], "0.25": ["0.5"], "3.0": ["2.0"], "-1": ["0"], "30": ["31"]}

def mutants(line):
    s = re.sub(r'"[^"]*"', lambda m: " " * len(m.group()), re.sub(r"//.*", "", line))
    if re.search(r"printf|exit\s*\(|#|MinMax|^\s*(int|double|char|clock_t|DoodzFP)\b[^=]*;|Doodz(Free|Malloc|Calloc)|/\*|\*/|strcmp|LOG_|MC_|mc_hook", s): return []
    r = []
    def sub(a, b, new, k): r.append((line[:a] + new + line[b:], k))
    for m in re.finditer(r"(?<=[\w\])])\s*([+\-])\s*(?=[\w(.])", s):
        if re.search(r"\d[eE]$", s[:m.start(1)]): continue
        sub(m.start(1), m.end(1), "-" if m.group(1) == "+" else "+", "pm")
    for m in re.finditer(r"(?<=[\w\])])\s*([*/])\s*(?=[\w(.])", s):
        if re.match(r"^\s*(int|double|char|grid|params|markers|mat_prop|scale|surface)\b", s[:m.start(1)]) and "=" not in s[:m.start(1)]: continue
        sub(m.start(1), m.end(1), "/" if m.group(1) == "*" else "*", "md")
    for m in re.finditer(r"(<=|>=|==|!=|<|>)", s):
        if s[m.start()-1:m.start()] == "-" : continue
        for t in {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="]}[m.group()]: sub(m.start(), m.end(), t, "cmp")
    for m in re.finditer(r"&&|\|\|", s): sub(m.start(), m.end(), "||" if m.group() == "&&" else "&&", "log")
    for m in re.finditer(r"(?<![\w.])(\d+\.\d+|\d+)(?![\w.])", s):
        for t in LIT.get(m.group(), []): sub(m.start(), m.end(), t, "lit")
    if re.match(r"^\s*[\w\->.\[\]+*() ]+\s*[+\-*/]?=[^=].*;\s*$", s) and not re.match(r"^\s*(int|double|char|const)\b", s):
        r.append(("    ;\n", "del")); r.append(("    ;\n", "del"))
        m = re.search(r"([+\-])=", s)
        if m: sub(m.start(), m.end(), "=", "acc"); sub(m.start(1), m.end(1), "-" if m.group(1) == "+" else "+", "acc")
    m = re.match(r"^\s*if\s*(\(.*\))\s*(\{?.*)$", s)
    if m and m.group(1).count("(") == m.group(1).count(")"):
        r.append((line[:m.start(1)] + "(0 && " + line[m.start(1):m.end(1)] + ")" + line[m.end(1):], "if0"))
        r.append((line[:m.start(1)] + "(1 || " + line[m.start(1):m.end(1)] + ")" + line[m.end(1):], "if1"))
    for a, b in SWAP:
        for x, y in ((a, b), (b, a)):
            ms = list(re.finditer(r"(?<![\w])%s(?![\w(])" % re.escape(x), s))
            if ms:
                q = rng.choice(ms); sub(q.start(), q.end(), y, "swap")
    return [(l, k) for l, k in r if l != line]

def sh(cmd, t=900, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env, cwd=cwd); return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, ""

def obj(f):
    o = "/tmp/mut_obj.o"
    rc, _ = sh(["gcc", "-O2", "-w", "-std=gnu11", "-I" + clone + "/MDLIB", "-I" + clone + "/MDLIB/include", "-I/usr/include/hdf5/serial", "-I/usr/include/suitesparse", "-c", f, "-o", o], 200)
    return None if rc else hashlib.sha256(open(o, "rb").read()).hexdigest()

B = clone + "/cmake-build"
def tests():
    rc, o = sh(["ninja", "-C", B, "-j8", "NewtownIterationConvergence_test"], 300)
    if rc: return False
    b = B + "/TESTS/NewtownIterationConvergence_test"
    ps = []
    for c in ["%s%sshear%s" % (a, b_, i) for a in ("Linear", "NonLinear") for b_ in ("Pure", "Simple") for i in ("Isotropic", "Anisotropic")]:
        c = "ShearTemplate." + c.replace("NonLinearSimpleshearAnisotropic", "NonLinearSimpleshearAnisotropi")
        d = B + "/vp-run/" + c
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d); shutil.copytree(clone + "/TESTS/ShearTemplate", d + "/ShearTemplate")
        ps.append(subprocess.Popen(["timeout", "100", b, "--gtest_filter=" + c], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")))
    ok = True
    for p in ps:
        o = p.communicate()[0].decode("utf8", "replace")
        ok &= p.returncode == 0 and "[  PASSED  ] 1 test." in o
    return ok

env = dict(os.environ, MC_REPO=clone, MC_BUILD="/tmp/bmut")
stat = {}
if os.path.exists(out):
    for l in open(out):
        j = json.loads(l)
        for c, rc in j.get("runs", {}).items():
            a = stat.setdefault((j["file"], c), [0, 0]); a[0] += rc == 1; a[1] += 1
pool = [(f, i) for f in cov for i in cov[f] if (not only or f in only)]
done = 0
while done < n:
    f, i = rng.choice(pool)
    p = "%s/MDLIB/%s" % (clone, f)
    src = open(p).read().split("\n")
    src = [x + "\n" for x in src]
    ms = mutants(src[i - 1])
    if not ms: continue
    new, kind = rng.choice(ms)
    orig = "".join(src)[:-1]
    h0 = obj(p)
    try:
        open(p, "w").write("".join(src[:i - 1] + [new] + src[i:])[:-1])
        h1 = obj(p)
        if h1 is None or h1 == h0: continue
        if not tests():
            continue
        done += 1
        runs, t0 = {}, time.time()
        def score(c):
            k, t = stat.get((f, c), [0, 0]); g = [sum(v[q] for (ff, cc), v in stat.items() if cc == c) for q in (0, 1)]
            return -((k + (g[0] + .3) / (g[1] + 1)) / (t + 1)) / TIME[c]
        for c in sorted(ORDER, key=score):
            shutil.rmtree("/tmp/bmut_old", ignore_errors=True)
            rc, o = sh([os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/run.sh", c, "quick"], 900, env)
            runs[c] = rc
            a = stat.setdefault((f, c), [0, 0]); a[0] += rc == 1; a[1] += 1
            if rc == 1 : break
        j = dict(file=f, line=i, kind=kind, old=src[i - 1].strip(), new=new.strip(), runs=runs, killed=[c for c in runs if runs[c] == 1], odd=[c for c in runs if runs[c] not in (0, 1)], t=round(time.time() - t0))
        open(out, "a").write(json.dumps(j) + "\n")
        print(("killed by " + j["killed"][0] if j["killed"] else "SURVIVED"), f, i, kind, "|", j["old"][:100], "->", j["new"][:100], flush=True)
    finally:
        open(p, "w").write(orig)
    if shutil.disk_usage("/tmp").free < 5e9 or done % 20 == 0: shutil.rmtree("/tmp/bmut", ignore_errors=True)
