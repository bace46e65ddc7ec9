"""refresh the table of planted changes in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | needs | breaks |", "|---|---|---|---|"]
for p in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda p: (json.load(open(p))["property"], p)):
    m = json.load(open(p))
    rows.append("| %s | %s | %s | %s |" % (p.split("/")[-2], m["property"], m["needs"], m["what_it_breaks"]))
d = open(V + "/DESIGN.md").read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
d = d.replace("SEEDTABLE", t) if "SEEDTABLE" in d else re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda m: t, d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
