#!/usr/bin/env python3
"""DESIGN.md = tools/design.in.md with the tables of fixes and planted bugs filled in."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(f"{root}/tools/design.in.md").read()
fx = []
for l in open(f"{root}/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fx.append(f"| {m[1]} | {m[2]} | {m[3]} |")
bugs = []
for f in sorted(glob.glob(f"{root}/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    bugs.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
t = t.replace("@FIXES@", "\n".join(fx)).replace("@BUGS@", "\n".join(bugs)).replace("@NFIX@", str(len(fx))).replace("@NBUG@", str(len(bugs)))
open(f"{root}/DESIGN.md", "w").write(t)
