"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = root + "/DESIGN.md"
s = open(p).read()
s = s[:s.index("<!-- table -->")] + "<!-- table -->\n| id | what it breaks | needs | caught by |\n|----|----|----|----|\n"
extra = json.load(open(root + "/tools/caught_also.json"))
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    n = f.split("/")[-2]
    s += "| %s | %s | %s | %s |\n" % (n, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), ", ".join([m["property"]] + extra.get(n, [])))
open(p, "w").write(s)
