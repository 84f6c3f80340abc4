#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
mark = "## Planted changes\n"
head = s[:s.index(mark)]
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    f = [l[6:].strip() for l in open(V + "/seeded/%s/patch.diff" % i, encoding="latin1") if l.startswith("+++ b/")]
    rows.append((m["property"], i, ", ".join(f), m["needs"].replace("|", "/"), m.get("caught", "yes")))
t = "| property | change | file | needs | caught by its check |\n|---|---|---|---|---|\n"
for r in sorted(rows): t += "| %s | %s | %s | %s | %s |\n" % r
open(p, "w").write(head + mark + "\nEach is in seeded/ with its demonstration; `tools/seed.py test ID` confirms the\nchange, the tests and the check. Besides these, each check was tried on single-site\nmutations of its files while it was written (tools/mut.py), and on the tree before\neach fix: commit, where it must report the defect.\n\n" + t)
