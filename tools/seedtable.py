"""Rewrites the table of planted bugs in DESIGN.md (between the seedtable markers) from seeded/*/meta.json."""
import os, json, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = open(os.path.join(root, "tools", "first_missed.txt")).read().split()
still = open(os.path.join(root, "tools", "still_missed.txt")).read().split()
by = {}
for i in sorted(os.listdir(root + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (root, i)))
    by.setdefault(m["property"], []).append((i, m))
n = sum(map(len, by.values()))
out = ["%d planted bugs; %d are caught by the quick check of their property (`*`: missed by the check as it was when the bug"
       " was planted; the check was then strengthened) and %d are still missed (`MISSED`)." % (n, n - len(still), len(still)), "",
       "| check | planted bug | what it breaks | needs |", "|---|---|---|---|"]
cl = lambda s: " ".join(str(s).split()).replace("|", "/")
for p in sorted(by):
    for i, m in by[p]:
        out.append("| %s | %s%s | %s | %s |" % (p, i, " **MISSED**" if i in still else " *" if i in missed else "", cl(m["what_it_breaks"]), cl(m["needs"])))
d = open(root + "/DESIGN.md").read()
B, E = "<!-- seedtable -->", "<!-- /seedtable -->"
d = d[:d.index(B)] + B + "\n" + "\n".join(out) + "\n" + d[d.index(E):]
open(root + "/DESIGN.md", "w").write(d)
