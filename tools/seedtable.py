"""Fill the planted-bug table of DESIGN.md from seeded/*/meta.json (run by hand)."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | needs | caught by |", "|---|---|---|"]
try:
    caught = json.load(open(os.path.join(here, "tools", "caught.json")))
except OSError:
    caught = {}
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    d = json.load(open(f)); n = f.split("/")[-2]
    rows.append("| %s | %s | %s |" % (n, d["needs"].replace("|", "/"), caught.get(n, d["property"])))
p = os.path.join(here, "DESIGN.md")
t = open(p).read()
head = t[:t.index("## 6.")]
open(p, "w").write(head + "## 6. Planted bugs and which checks catch them\n\nDetected at quick tier, seed 1 (own property's check unless noted).\n\n" + "\n".join(rows) + "\n")
