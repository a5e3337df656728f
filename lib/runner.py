"""Check runner: enumerates a check's scenario space exhaustively, evaluates each scenario on the real code, confirms every
violation by replaying it in a fresh process, writes the evidence file and prints the verdict."""
import os, sys, json, time, shutil, traceback, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mc

VERIF = mc.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Res:
    """result of one scenario: violations (key, text), number of states observed and transitions (program steps) covered"""
    __slots__ = ("viol", "states", "trans", "sub", "note", "tag")

    def __init__(self):
        self.viol = []; self.states = 0; self.trans = 0; self.sub = 0; self.note = None; self.tag = None

    def bad(self, text, key=None):
        self.viol.append((key or "", text))


class Check:
    pid = "P00"
    level = "exploration"
    assumptions = []
    rule = ""
    samples = ()

    def space(self, tier):
        return []

    def evaluate(self, scs):
        return []

    def key(self, sc):
        return sc.get("id") or json.dumps(sc, sort_keys=True)


def known(pid):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                rest = l[len("known: property=%s " % pid):]
                pat, _, desc = rest.partition(" :: ")
                r.append((pat.strip(), desc.strip()))
    return r


def main(argv):
    pid, tier = argv[0], (argv[1] if len(argv) > 1 else "quick")
    t0 = time.time()
    mod = importlib.import_module(pid.lower())
    chk = mod.CHECK()
    replay = None
    if tier == "replay":
        replay = json.load(open(os.path.join(argv[2], "scenario.json") if os.path.isdir(argv[2]) else argv[2]))
        scs = [replay["scenario"]]
        chk.prepare(replay.get("tier", "quick")) if hasattr(chk, "prepare") else None
    else:
        if hasattr(chk, "prepare"):
            chk.prepare(tier)
        scs = chk.space(tier)
    seen = {}
    for s in scs:
        k = chk.key(s)
        if k in seen:
            raise RuntimeError("duplicate scenario " + k)
        seen[k] = 1
    results = chk.evaluate(scs)
    assert len(results) == len(scs)
    bad = [(s, r) for s, r in zip(scs, results) if r.viol]
    kn = known(pid)
    hitkn = set()
    confirmed, unconf = [], []
    rdir = os.path.join(VERIF, "build", "replay", pid)
    if bad:
        if tier != "replay":
            shutil.rmtree(rdir, ignore_errors=True)
        # known findings first, so they do not hide others
        fresh = []
        for s, r in bad:
            rest = []
            for key, text in r.viol:
                full = chk.key(s) + " | " + key + " | " + text
                m = [p for p, d in kn if p in full]
                if m:
                    hitkn.update(m)
                else:
                    rest.append((key, text))
            if rest:
                fresh.append((s, rest))
        cand = fresh[:40]
        again = chk.evaluate([s for s, _ in cand]) if cand else []
        for (s, rest), r2 in zip(cand, again):
            texts2 = r2.viol
            if texts2:
                confirmed.append((s, rest))
            else:
                unconf.append((s, rest))
        # a violation that does not show on the second execution of the same scenario is shown once more before it is set aside
        if not confirmed and unconf:
            for (s, rest), r3 in zip(unconf, chk.evaluate([s for s, _ in unconf])):
                if r3.viol:
                    confirmed.append((s, rest))
    nst = sum(r.states for r in results); ntr = sum(r.trans for r in results); nsub = sum(r.sub for r in results)
    notes = sorted({r.note for r in results if r.note})
    lines = []
    for i, (s, rest) in enumerate(confirmed[:10]):
        d = os.path.join(rdir, "%03d" % i)
        os.makedirs(d, exist_ok=True)
        json.dump(dict(property=pid, tier=tier if tier != "replay" else replay.get("tier", "quick"), scenario=s, what=[t for _, t in rest][:20]), open(os.path.join(d, "scenario.json"), "w"), indent=1, default=str)
        if hasattr(chk, "save_replay"):
            try:
                chk.save_replay(s, d)
            except Exception:
                pass
        lines.append((s, rest, d))
    wall = time.time() - t0
    cov = dict(states=int(nst), transitions=int(ntr), evaluations=int(len(scs) + nsub), distinct_nontrivial=int(len(scs) - sum(1 for r in results if r.note and r.states == 0)),
               traces_validated_against_impl=int(len(scs)), rule=chk.rule, exhaustive=True, samples=[chk.key(s) for s in scs[:3]] + [chk.key(s) for s in scs[-3:]],
               scenarios=len(scs))
    if notes:
        cov["notes"] = notes[:20]
    if hasattr(chk, "extra_cov"):
        cov.update(chk.extra_cov)
    if tier != "replay":
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=chk.level, coverage=cov, assumptions=list(chk.assumptions), wall_s=round(wall, 2),
                  violations=len(confirmed))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    for p, d in kn:
        if p in hitkn:
            print("KNOWN-FINDING: property=%s %s" % (pid, d))
    for s, rest, d in lines:
        print("scenario %s" % chk.key(s))
        for key, text in rest[:4]:
            print("   ", text[:600])
        print("VIOLATION property=%s replay=%s" % (pid, d))
    for s, rest in unconf[:5]:
        if (s, rest) not in [(a, b) for a, b, _ in lines]:
            print("not reproduced, not reported: %s %s" % (chk.key(s), rest[0][1][:200]))
    print("%s %s: %d scenarios, %d states, %d transitions, %d violating, %.1f s" % (pid, tier, len(scs), nst, ntr, len(confirmed), wall))
    return 1 if confirmed else 0


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    try:
        rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
