#!/usr/bin/env python3
"""Development tool: confirm planted bugs in a scratch copy (/tmp/X) and see which checks catch them.

plant.py make SPEC.py    write seeded/<id>/ from the BUGS list of SPEC.py
plant.py run [ID ...]    confirm each bug (builds, tests pass, demo fails only with the patch) and run its check
"""
import json, os, shutil, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X = "/tmp/X"
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")
DEMO = '''#!/bin/bash
# Builds main.rs beside this script against the crate in the current directory, in a scratch folder, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$repo" || exit 2
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
cat >"$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rust-quantlib = { path = "$repo" }
EOF
export CARGO_TARGET_DIR="$work/target"
cd "$work" && cargo run --offline --quiet
'''


def sh(cmd, cwd, env=None, timeout=1200):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def sync():
    os.makedirs(X, exist_ok=True)
    sh(f"rsync -a --delete --exclude target /repo/ {X}/repo/", "/")
    sh(f"rsync -a --delete --exclude target --exclude replays --exclude evidence --exclude seeded {V}/ {X}/verif/", "/")


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    for b in g["BUGS"]:
        sync()
        d = f"{V}/seeded/{b['id']}"
        ok = True
        for (f, old, new) in b["edits"]:
            p = f"{X}/repo/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], f, "occurrences:", s.count(old))
                ok = False
                continue
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        os.makedirs(d, exist_ok=True)
        rc, diff = sh("git diff", f"{X}/repo")
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/main.rs", "w").write(b["demo"].lstrip("\n"))
        open(f"{d}/demo.sh", "w").write(DEMO)
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        print("wrote", b["id"])


def tests():
    rc, out = sh(f"CARGO_TARGET_DIR={X}/repo-target cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > {X}/t.log 2>&1; python3 /opt/vp/results.py {X}/o.json cargo:{X}/t.log", f"{X}/repo")
    base = json.load(open("/opt/vp/BASELINE.json"))
    st = base.get("stable") or base.get("passed")
    got = set(json.load(open(f"{X}/o.json")).get("passed", [])) if os.path.exists(f"{X}/o.json") else set()
    return [t for t in st if t not in got]


def run(ids):
    cf = f"{V}/tools/catches.json"
    res = json.load(open(cf)) if os.path.exists(cf) else {}
    for i in ids:
        sync()
        d = f"{V}/seeded/{i}"
        prop = json.load(open(f"{d}/meta.json"))["property"]
        r0, o0 = sh(f"bash {d}/demo.sh", f"{X}/repo")
        rc, o = sh(f"git apply {d}/patch.diff", f"{X}/repo")
        if rc:
            print(i, "PATCH DOES NOT APPLY", o); continue
        missing = tests()
        r1, o1 = sh(f"bash {d}/demo.sh", f"{X}/repo")
        bad = []
        if r0: bad.append("demo fails unpatched: " + o0[-600:])
        if not r1: bad.append("demo passes patched")
        if missing: bad.append(f"tests fail: {missing[:4]}")
        if "error[" in o1 or "could not compile" in o1: bad.append("does not compile: " + o1[-800:])
        if bad:
            print(i, "NOT VALID:", "; ".join(bad)); continue
        rc, o = sh(f"VERIF_SEED=1 VERIF_TIER=quick ./check.sh {prop}", f"{X}/verif")
        hit = rc == 1 and f"VIOLATION property={prop} " in o
        res[i] = "yes" if hit else "no"
        print(i, prop, "CAUGHT" if hit else f"MISSED rc={rc}", "|", next((l for l in o.splitlines() if l.startswith("[")), "")[:200])
        sys.stdout.flush()
        json.dump(res, open(cf, "w"), indent=0, sort_keys=True)
    sync()


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        run(sys.argv[2:] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(f"{V}/seeded/*/meta.json")))
