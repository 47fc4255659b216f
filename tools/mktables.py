#!/usr/bin/env python3
"""mktables.py: writes the table of planted bugs into DESIGN.md, from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| Bug | Breaks | Needs | Caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
p = V + "/DESIGN.md"
t = open(p).read()
b, e = "<!-- seeds -->", "<!-- /seeds -->"
t = re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: "%s\n%s\n%s" % (b, "\n".join(rows), e), t, flags=re.S)
open(p, "w").write(t)
