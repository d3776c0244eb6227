#!/usr/bin/env python3
"""Writes the table of seeded bugs at the end of DESIGN.md."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {  # what was added for those which were missed at first
 "c04-register-ref": "registering by reference and in tuples",
 "c05-js-wildcard-alias": "aliases of wildcard imports",
 "c11-stale-buffer": "trees of quotations, not just pairs",
 "c13-vec-trim": "texts with whitespace of their own",
 "c17-arm-attr": "attributes on arms",
 "c17-eager-iteration": "traced steps of iterators",
 "c15-narrow-columns": "templates far to the right",
 "c10-js-brace-next": "pieces of several characters",
 "c03-claimed-size": "iterators which claim too small an upper bound",
 **json.load(open(os.path.join(root, "tools", "missed.json"))),
}
d = os.path.join(root, "seeded")
rows = ["| bug | needs | caught by |", "|---|---|---|"]
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    n, c = i, m["property"]
    if i in MISSED:
        n, c = f"*{i}*", f"{c} [{MISSED[i]}]"
    rows.append(f"| {n} | {m['needs']} | {c} |")
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
h = "## Seeded bugs"
k = s.index(h)
head = s[k:].split("\n\n")[1]
open(p, "w").write(s[:k] + h + "\n\n" + head + "\n\n" + "\n".join(rows) + "\n")
