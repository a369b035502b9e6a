#!/usr/bin/env python3
"""Planted bugs (seeded/): `make SPEC.py` writes seeded/<id>/ from specs, `verify ID...` confirms
that a bug applies, builds, passes the tests and that its demo tells it apart, `check ID...` runs
the property's check against it (in /repo, undone afterwards).  No check uses this."""
import json, os, shutil, subprocess, sys, concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = V + "/seeded"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", INSTA_UPDATE="no", INSTA_FORCE_PASS="0")
DEMO = r'''#!/bin/bash
# builds the program next to this file against the crate in the current folder and runs it
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d /tmp/yaml-demo.XXXXXX)" || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" && cp "$here/main.rs" "$work/src/main.rs" && cp "$here/deps.lock" "$work/Cargo.lock" || exit 2
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
yaml-subset = { path = "$repo", features = ["serde"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
TOML
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
unset RUSTFLAGS
cd "$work" && cargo build --offline --quiet || exit 2
timeout 60 "$work/target/debug/demo"
'''

def sh(cmd, cwd, env=ENV, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def copy(tag):
    d = f"/tmp/seedw-{tag}"
    if not os.path.exists(d):
        subprocess.run(["cp", "-a", "/repo", d], check=True)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", d)
    return d

def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = copy("make")
    for s in ns["SPECS"]:
        sh("git checkout -q -- .", d)
        ok = True
        for f, old, new in s["edits"]:
            t = open(f"{d}/{f}").read()
            n = t.count(old)
            if n != 1:
                print(s["id"], f"edit matches {n} times in {f}: {old[:60]!r}"); ok = False; break
            open(f"{d}/{f}", "w").write(t.replace(old, new))
        if not ok:
            continue
        out = f"{SEEDED}/{s['id']}"
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(sh("git diff", d).stdout)
        open(out + "/demo.sh", "w").write(DEMO)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/main.rs", "w").write(s["demo"].strip() + "\n")
        shutil.copy(V + "/harness/Cargo.lock", out + "/deps.lock")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        print("made", s["id"])

def verify_one(i, tag):
    d = copy(tag)
    p = f"{SEEDED}/{i}"
    r = sh(f"bash {p}/demo.sh", d)
    if r.returncode:
        return i, "demo fails on the unchanged tree: " + r.stdout[-600:]
    r = sh(f"git apply {p}/patch.diff", d)
    if r.returncode:
        return i, "does not apply: " + r.stdout
    r = sh("cargo build --workspace --offline && cargo test --workspace --all-features --no-fail-fast --offline", d)
    res = "ok"
    if r.returncode:
        res = "tests fail: " + "\n".join(l for l in r.stdout.splitlines() if "FAILED" in l or l.startswith("error"))[:800]
    else:
        r = sh(f"bash {p}/demo.sh", d)
        if r.returncode in (0, 2):
            res = f"demo exits {r.returncode} with the patch: " + r.stdout[-600:]
    sh("git checkout -q -- .", d)
    return i, res

def verify(ids):
    import queue
    tags = queue.Queue()
    for t in "abcd":
        tags.put(t)
    def go(i):
        t = tags.get()
        try:
            return verify_one(i, t)
        finally:
            tags.put(t)
    with cf.ThreadPoolExecutor(4) as ex:
        for i, r in ex.map(go, ids):
            print(i, r, flush=True)

def check_one(i, which, tag):
    """Runs checks against the bug in a mount namespace where copies stand for /repo and /verif."""
    m = json.load(open(f"{SEEDED}/{i}/meta.json"))
    w = f"/tmp/seedn-{tag}"
    sh("git checkout -q -- .", w + "/repo")
    if sh(f"git apply {SEEDED}/{i}/patch.diff", w + "/repo").returncode:
        return [f"{i} does not apply"]
    out = []
    for q in (which or m["property"]).split(","):
        inner = f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && cd /verif && VERIF_SEED={os.environ.get('VERIF_SEED', '1')} VERIF_TIER=quick ./check.sh {q}"
        r = sh(f"unshare -Urm bash -c '{inner}'", "/tmp", dict(os.environ))
        line = next((l for l in r.stdout.splitlines() if l.startswith("VIOLATION")), "")
        cases = next((l.split(": ")[-1].split(" (")[0] for l in r.stdout.splitlines() if " cases (" in l), "")
        out.append(f"{i} {q} " + (f"CAUGHT after {cases}" if r.returncode == 1 and line else f"MISSED rc={r.returncode} {r.stdout[-300:] if r.returncode != 0 else ''}"))
    return out

def check(ids, which=None, n=2):
    import queue
    tags = queue.Queue()
    for t in range(n):
        w = f"/tmp/seedn-{t}"
        os.makedirs(w, exist_ok=True)
        sh(f"rsync -a --delete --exclude target /repo/ {w}/repo/", "/tmp")
        # times are kept, so that cargo builds only what a bug changes
        sh(f"rsync -a --delete --exclude seeded --exclude .git --exclude replays /verif/ {w}/verif/", "/tmp")
        tags.put(t)
    def go(i):
        t = tags.get()
        try:
            return check_one(i, which, t)
        finally:
            tags.put(t)
    with cf.ThreadPoolExecutor(n) as ex:
        for r in ex.map(go, ids):
            print("\n".join(r), flush=True)

if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        make(args[0])
    elif cmd == "verify":
        verify(args or sorted(os.listdir(SEEDED)))
    elif cmd == "check":
        check(args or sorted(os.listdir(SEEDED)))
    elif cmd == "all":  # every check against one bug
        check(args, ",".join(f"C{n:02}" for n in range(1, 22)))
