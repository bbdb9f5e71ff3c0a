#!/usr/bin/env python3
"""Makes a planted bug: seeded/<id>/{patch.diff,demo.sh,demo.rs,meta.json}, and confirms it in a scratch copy of /repo.

usage: plant.py FILE.py [ID ...]     FILE.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
"""
import json, os, runpy, shutil, subprocess, sys

SEED = "/verif/seeded"
WT = "/tmp/plant/repo"
DEMO = """#!/bin/bash
# Fails (nonzero) when the bug is present. Run in the repository's root after the build.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
export PATH="$HOME/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= RUSTFLAGS=-Awarnings
scratch="$(mktemp -d)"
trap 'rm -r -f -- "$scratch"' EXIT
mkdir -p "$scratch/demo/src"
cp "$here/demo.rs" "$scratch/demo/src/main.rs"
cp "$repo/Cargo.lock" "$scratch/demo/Cargo.lock" 2>/dev/null
cat > "$scratch/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
frozen-collections-core = { path = "$repo/frozen-collections-core" }
%s[profile.dev]
debug = false
[workspace]
EOF
cd "$scratch/demo" || exit 3
CARGO_TARGET_DIR="$scratch/target" timeout 280 cargo run --offline --quiet
"""

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def demo(d, repo):
    p = sh("bash %s/demo.sh" % d, cwd=repo)
    return p.returncode, p.stdout[-700:]

def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    os.makedirs("/tmp/plant", exist_ok=True)
    if not os.path.exists(WT):
        sh("cp -a /repo %s" % WT)
    for b in bugs:
        if only and b["id"] not in only:
            continue
        sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=WT)
        for f, old, new in b["edits"]:
            p = os.path.join(WT, f if "/" in f and f.startswith("frozen") else "frozen-collections-core/src/" + f)
            s = open(p).read()
            assert old in s, (b["id"], f, "not found", old[:80])
            n = b.get("count", 1)
            s = s.replace(old, new, n)
            open(p, "w").write(s)
        d = os.path.join(SEED, b["id"])
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run("git diff", shell=True, cwd=WT, stdout=subprocess.PIPE, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.rs", "w").write(b["demo"])
        base = "cbf8422"
        orig = False
        for f in set(e[0] for e in b["edits"]):
            fp = f if f.startswith("frozen") and "/" in f and not f.startswith("frozen_") else "frozen-collections-core/src/" + f
            base_lines = set(l.strip() for l in sh("git show %s:%s" % (base, fp), cwd="/repo").stdout.splitlines())
            orig = orig or any(l.startswith("-") and not l.startswith("---") and l[1:].strip() in base_lines and len(l.strip()) > 8 for l in diff.splitlines())
        extra = "" if "frozen_map!" not in b["demo"] else 'frozen-collections = { path = "$repo/frozen-collections" }\n'
        open(d + "/demo.sh", "w").write(DEMO % extra)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc1, o1 = demo(d, "/repo")
        rc2, o2 = demo(d, WT)
        # the project's tests
        t = sh(". /opt/vp/env.sh; cargo test --offline --workspace 2>&1 | grep -E '^test result|FAILED|^error|failed' | head -20", cwd=WT)
        bad = "FAILED" in t.stdout or "error" in t.stdout or "test result: ok" not in t.stdout
        print(b["id"], "clean demo", rc1, "patched demo", rc2, "tests", "FAIL" if bad else "pass", "" if orig else "NOT ORIGINAL LINES", flush=True)
        if rc1 != 0:
            print(o1)
        if rc2 == 0:
            print("NOT SHOWN", o2)
        if rc2 != 0:
            print("   ", o2.strip().splitlines()[-1:] )
        if bad:
            print(t.stdout[-1500:])
    sh("git checkout -q -- .", cwd=WT)

main()
