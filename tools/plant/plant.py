#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from bugs.py + demos/<id>.rs, and (with --verify) confirm each one in a
scratch copy of /repo: builds, the stable tests pass, the demo is 0 without and nonzero with it."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
from bugs import BUGS
SC = "/tmp/husk-plant"
BASE = "c147957"

DEMO = r'''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken.  Run with cwd = the repository.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=/tmp/husk-demo-@ID@
rm -rf /tmp/husk-demo-@ID@
trap 'rm -rf /tmp/husk-demo-@ID@' EXIT
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable} CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=$scratch/target
unset RUSTFLAGS
mkdir -p "$scratch/kit/src" "$scratch/kit/getrandom/src"
cd "$scratch/kit" || exit 9
sed "s|@REPO@|$repo|" "$here/kit-Cargo.toml.txt" >Cargo.toml
cp "$here/kit-Cargo.lock.txt" Cargo.lock
cp "$here/kit-getrandom-Cargo.toml.txt" getrandom/Cargo.toml
cp "$here/kit-getrandom.rs" getrandom/src/lib.rs
for m in lib refcrypto reftls net drive num report util; do cp "$here/kit-$m.rs" src/$m.rs; done
cp "$here/demo.rs" src/main.rs
@WRAP@cargo build -q --offline --locked --release >build.log 2>&1 || { cat build.log; exit 9; }
timeout 240 "$scratch/target/release/husk-mc"
'''
WRAP = r'''#!/bin/bash
# compile husk and the demonstration with a call at the start of every basic block
rustc=$1; shift
case " $* " in
*" --crate-name husk "* | *" --crate-name husk_mc "*)
  exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc -C codegen-units=1 ;;
*) exec "$rustc" "$@" ;;
esac
'''
LIB = "pub mod util;\npub mod refcrypto;\npub mod reftls;\npub mod net;\npub mod report;\npub mod drive;\npub mod num;\n"
REPORT = "pub fn visit(_: &[u64]) {}\n"

def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, capture_output=True, text=True, **k)

def kit(d, bug):
    mc = V + "/mc"
    toml = open(mc + "/Cargo.toml").read().split("\n# the same checks")[0]
    toml = toml.replace('path = "/repo"', 'path = "@REPO@"')
    a = "true" if bug.get("asserts") else "false"
    toml = toml.replace("debug-assertions = true", "debug-assertions = " + a).replace("overflow-checks = true", "overflow-checks = " + a)
    toml = toml.replace("[lib]", '[[bin]]\nname = "husk-mc"\npath = "src/main.rs"\n\n[lib]').replace("opt-level = 3", "opt-level = " + bug.get("opt", "2"))
    toml = toml.replace("# the same checks with the assertions compiled out, as a release build of the crate has them\n", "")
    W = lambda n, s: open(os.path.join(d, n), "w").write(s)
    W("kit-Cargo.toml.txt", toml)
    shutil.copy(mc + "/Cargo.lock", d + "/kit-Cargo.lock.txt")
    shutil.copy(mc + "/getrandom/Cargo.toml", d + "/kit-getrandom-Cargo.toml.txt")
    shutil.copy(mc + "/getrandom/src/lib.rs", d + "/kit-getrandom.rs")
    for m in ("refcrypto", "reftls", "net", "drive", "num"):
        shutil.copy(f"{mc}/src/{m}.rs", f"{d}/kit-{m}.rs")
    W("kit-lib.rs", LIB); W("kit-report.rs", REPORT); shutil.copy(HERE + "/util.rs", d + "/kit-util.rs")
    shutil.copy(f"{HERE}/demos/{bug.get('demo', bug['id'])}.rs", d + "/demo.rs")
    if bug.get("ct"):
        W("kit-wrap.sh", WRAP); os.chmod(d + "/kit-wrap.sh", 0o755)
    W("demo.sh", DEMO.replace("@ID@", bug["id"]).replace("@WRAP@", 'RUSTC_WRAPPER=$here/kit-wrap.sh ' if bug.get("ct") else "")); os.chmod(d + "/demo.sh", 0o755)

def write(bug):
    d = f"{V}/seeded/{bug['id']}"
    os.makedirs(d, exist_ok=True)
    wt = SC + "/wt"
    if not os.path.exists(wt):
        os.makedirs(SC, exist_ok=True)
        sh(["git", "clone", "-q", "/repo", wt]).check_returncode()
    sh("git checkout -q -- . && git fetch -q && git reset -q --hard origin/HEAD", wt)
    removed = []
    for f, old, new in bug["edits"]:
        p = f"{wt}/{f}"; s = open(p).read()
        assert s.count(old) == 1, (bug["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    r = sh("git diff", wt).stdout
    open(d + "/patch.diff", "w").write(r)
    base = {}
    for line in r.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]; base[cur] = sh(f"git show {BASE}:{cur}", "/repo").stdout.splitlines()
        elif line.startswith("-") and not line.startswith("---"):
            removed.append(line)
            if line[1:].strip() and line[1:] not in base[cur]:
                print("  NOTE", bug["id"], "changes a line that is not original:", line)
    if not removed: print("  NOTE", bug["id"], "removes no line")
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    kit(d, bug)

def verify(bug):
    d = f"{V}/seeded/{bug['id']}"; wt = SC + "/wt"
    sh("git checkout -q -- .", wt)
    a = sh(["bash", d + "/demo.sh"], wt)
    sh(["git", "apply", d + "/patch.diff"], wt).check_returncode()
    env = dict(os.environ, CARGO_TARGET_DIR=SC + "/target", CARGO_NET_OFFLINE="true")
    t = sh("cargo test -q --offline 2>&1 | tail -60", wt, env=env)
    ok = "24 passed; 0 failed" in t.stdout
    b = sh(["bash", d + "/demo.sh"], wt)
    sh("git checkout -q -- .", wt)
    good = a.returncode == 0 and b.returncode not in (0, 9) and ok
    print(("OK  " if good else "BAD ") + bug["id"], f"clean={a.returncode} patched={b.returncode} tests={'ok' if ok else 'FAIL'}", (b.stdout + b.stderr).strip()[:160].replace("\n", " | "))
    if not good:
        print(a.stdout[-1500:], a.stderr[-500:], "" if ok else t.stdout[-800:], b.stdout[-800:])
    return good

ids = [a for a in sys.argv[1:] if not a.startswith("--")]
for bug in BUGS:
    if ids and bug["id"] not in ids: continue
    if not os.path.exists(f"{HERE}/demos/{bug.get('demo', bug['id'])}.rs"):
        print("no demo for", bug["id"]); continue
    write(bug)
    if "--verify" in sys.argv: verify(bug)
    sys.stdout.flush()
