"""Rewrites the table of seeded bugs in DESIGN.md from seeded/*/meta.json (development tool, not used by any check)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f)); sid = f.split("/")[-2]
    files = sorted(set(re.findall(r"^\+\+\+ b/abcvoting/(\S+)", open(os.path.dirname(f) + "/patch.diff").read(), re.M)))
    rows.append("| %s | %s | %s | %s |" % (sid, ", ".join(files), d["needs"].replace("|", "/"), d.get("caught_by", d["property"] + " quick")))
t = open(V + "/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
new = a + "| seeded bug | changes | needs, to manifest | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + b
t = t[:t.index(a)] + new + t[t.index(b) + len(b):]
open(V + "/DESIGN.md", "w").write(t)
print(len(rows), "seeds")
