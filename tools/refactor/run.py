#!/usr/bin/env python3
"""run.py COPY [id+id+.. ..] [-- CHECKS..]: apply each behaviour-preserving edit to COPY/repo (a copy of /repo), run the
stable tests and COPY/verif's checks (a copy whose paths point at COPY/repo), report everything that is not quiet."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactors import R
args = sys.argv[1:]; root = args.pop(0)
checks = [f"C{i:02}" for i in range(1, 28)]
if "--" in args: k = args.index("--"); checks = args[k+1:]; args = args[:k]
repo = root + "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
D = {x["id"]: x for x in R}
for g in args or D:
    g = [D[i] for i in g.split("+")]
    x = dict(id="+".join(y["id"] for y in g), edits=[e for y in g for e in y["edits"]], note=g[0]["note"] if len(g) == 1 else "")
    sh(f"git -C {repo} checkout -q -- .")
    for f, old, new in x["edits"]:
        p = f"{repo}/{f}"; s = open(p).read()
        assert s.count(old) == 1, (x["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    t = sh("cargo test -q --offline 2>&1 | tail -30", cwd=repo, env=dict(os.environ, CARGO_TARGET_DIR=root + "/target"))
    print("==", x["id"], x["note"], "" if "24 passed; 0 failed" in t.stdout else "TESTS FAIL " + t.stdout[-1500:], flush=True)
    for c in checks:
        q = sh(f"timeout 900 ./check {c}", cwd=root + "/verif", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        if q.returncode != 0:
            print("  ALARM", c, q.returncode, "\n".join((q.stdout + q.stderr).splitlines()[:8])[:1200], flush=True)
sh(f"git -C {repo} checkout -q -- .")
