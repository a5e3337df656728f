"""python3 tools/mkseed.py ID PROP  < meta text ("needs" line, then "breaks" line); takes the diff of /tmp/w (scratch worktree of /repo), demo.py from /tmp/demo.py"""
import sys, os, json, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop = sys.argv[1:3]
d = os.path.join(V, "seeded", sid)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d + "/kit")
for f in os.listdir(V + "/harness"):
    shutil.copy(os.path.join(V, "harness", f), d + "/kit")
for f in ("mc.py", "space.py", "obs.py", "ref.py"):
    shutil.copy(os.path.join(V, "lib", f), d + "/kit")
shutil.copy(V + "/tools/seedkit/demo.sh", d)
shutil.copy("/tmp/demo.py", d)
diff = subprocess.run(["git", "-C", "/tmp/w", "diff", "HEAD"], stdout=subprocess.PIPE).stdout
open(d + "/patch.diff", "wb").write(diff)
needs, breaks = [l for l in sys.stdin.read().strip().split("\n") if l.strip()][:2]
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
def demo(repo):
    return subprocess.run(["bash", d + "/demo.sh"], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
a = demo("/repo"); b = demo("/tmp/w")
print("clean:", a.returncode, a.stdout.decode()[-300:]); print("patched:", b.returncode, b.stdout.decode()[-300:])
