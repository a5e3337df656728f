"""rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
rows = ["<!-- table by tools/seedtable.py -->", "", "| id | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
c = lambda t: re.sub(r"\s+", " ", t).replace("|", "/")
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (f.split("/")[1], m["property"], c(m["what_it_breaks"]), c(m["needs"]), m.get("caught_by", m["property"])))
d = open("DESIGN.md").read()
h = "## Planted changes\n"
i = d.index(h) + len(h)
j = d.find("\n## ", i)
open("DESIGN.md", "w").write(d[:i] + "\nEvery change below builds, passes the eight stable tests and has a demonstration; the last column names the checks (quick) that catch it.\n\n" + "\n".join(rows) + "\n" + (d[j:] if j >= 0 else ""))
