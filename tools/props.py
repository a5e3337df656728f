"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, level="exploration", note="", state=(), hook=False):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=list(state), mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook),
                  _t=technique, _l=level, _n=note))
exec(open(os.path.join(V, "tools", "proptable.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
M = dict(version=1, setup_cmd="python3-vt /verif/tools/setup.py", checks=[dict(property=p["id"], quick_cmd="/verif/run.sh %s quick" % p["id"], thorough_cmd="/verif/run.sh %s thorough" % p["id"],
         evidence_file="/verif/evidence/%s.json" % p["id"], technique=p["_t"], level=p["_l"], level_note=p["_n"]) for p in P if p["_t"]],
         not_applicable=[dict(property=p["id"], reason=p["_n"]) for p in P if not p["_t"]],
         notes="All checks build the library from /repo's working tree into /verif/build (git-ignored) and run it there; nothing in /repo is modified. No hooks in /repo.")
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
