"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(R, "tools", "caught.json")))
rows = ["## 6. Planted bugs and the checks that catch them", "",
        "Each was written from the text of its property, passes the stable tests, and has a demonstration. \"caught by\": quick tier, seed 1.", "",
        "| planted bug | needs | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    i = f.split(os.sep)[-2]
    d = json.load(open(f))
    rows.append(f"| {i} | {d['needs']} | {', '.join(caught.get(i, ['?']))} |")
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
mark = "@@SEEDED@@"
if mark in s:
    a, b = s.split(mark)
else:
    a, rest = s.split("## 6. Planted bugs", 1)
    b = "\n## 7." + rest.split("\n## 7.", 1)[1] if "\n## 7." in rest else "\n"
open(p, "w").write(a + "\n".join(rows) + "\n" + b)
