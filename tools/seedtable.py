#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (§6) from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for p in sorted(glob.glob(V + "/seeded/*/meta.json")): by.setdefault(json.load(open(p))["property"], []).append(os.path.basename(os.path.dirname(p)))
t = "| caught by | planted bugs |\n|---|---|\n" + "".join(f"| {k} | {', '.join(by[k])} |\n" for k in sorted(by))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m[1] + t + m[2], s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
print(sum(map(len, by.values())), "planted bugs")
