"""Writes /verif/DESIGN.md from tools/design.md, the planted bugs and tools/design_end.md."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda n: open(os.path.join(R, "tools", n)).read()
s = os.path.join(R, "seeded")
t = ["## 5. Planted bugs and which checks catch them", "",
     "Each is a change to one or two places of the original code that passes the repository's tests and fails its own demonstration. "
     "All are caught by the check of the property they were written against (last full sweep; several are also caught by others).", "",
     "| id | caught by | what it breaks | needs |", "|---|---|---|---|"]
for i in sorted(os.listdir(s)):
    m = json.load(open(os.path.join(s, i, "meta.json")))
    t.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"]))
open(os.path.join(R, "DESIGN.md"), "w").write(rd("design.md") + "\n".join(t) + "\n\n" + rd("design_end.md"))
