#!/usr/bin/env python3
"""bug.py new <id> <property> <file> : reads python edit pairs and demo from stdin JSON; see usage in DESIGN.md
   bug.py verify <id>...   : in a scratch copy: patch applies, builds, stable tests pass, demo 0 before and nonzero after
   bug.py catch <id>... [-p PROP] : apply to /repo, run the property's quick check, undo
"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
DEMO = '''#!/bin/bash
# Builds a small program against the crate in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
zkhash = { path = "$repo" }
ark-ff = { version = "^0.4.0", default-features = false }
sha2 = "0.10"
T
cd "$w" && CARGO_TARGET_DIR="$w/target" timeout 280 cargo run --offline -q
'''
def sh(c, cwd, t=1200):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
def new(bid, prop, edits, demo, needs, breaks):
    """edits: list of (file, old, new)"""
    d = os.path.join(S, bid); os.makedirs(d, exist_ok=True)
    w = "/tmp/bugnew"; shutil.rmtree(w, ignore_errors=True)
    sh("git worktree prune; git clone -q /repo %s" % w, "/")
    for f, a, b in edits:
        p = os.path.join(w, f); s = open(p).read()
        assert s.count(a) >= 1, (f, a)
        s = s.replace(a, b, 1); open(p, "w").write(s)
    open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", w).stdout)
    shutil.rmtree(w)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    open(os.path.join(d, "demo.rs"), "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
def verify(ids):
    w = "/tmp/bugw"
    ok = True
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base
    for b in ids:
        shutil.rmtree(w, ignore_errors=True); sh("cp -a /repo %s" % w, "/")
        d = os.path.join(S, b)
        r0 = sh("bash %s/demo.sh" % d, w)
        a = sh("git apply %s/patch.diff" % d, w)
        t = sh("CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable /root/.cargo/bin/cargo test --workspace --no-fail-fast --offline -- --test-threads 8", w)
        fails = [l for l in t.stdout.splitlines() if l.endswith("... FAILED")]
        r1 = sh("bash %s/demo.sh" % d, w)
        good = r0.returncode == 0 and a.returncode == 0 and "test result" in t.stdout and r1.returncode != 0 and all("input_24_elements" in f for f in fails)
        ok &= good
        print(b, "OK" if good else "BAD", "demo before", r0.returncode, "apply", a.returncode, "fails", fails, "demo after", r1.returncode)
        if not good:
            print(r0.stdout[-1500:], a.stdout[-500:], t.stdout[-300:], r1.stdout[-500:])
    shutil.rmtree(w, ignore_errors=True)
    return ok
def catch(ids, props=None):
    assert sh("git status --porcelain", "/repo").stdout.strip() == ""
    for b in ids:
        d = os.path.join(S, b); m = json.load(open(d + "/meta.json"))
        for prop in props or [m["property"]]:
            r = sh("git apply %s/patch.diff" % d, "/repo"); assert r.returncode == 0, r.stdout
            t0 = time.time()
            try:
                r = sh("./run.sh %s quick" % prop, V)
            finally:
                sh("git checkout -- .", "/repo")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(b, prop, "exit", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", "%.0fs" % (time.time() - t0))
            print("   ", "\n    ".join(r.stdout.splitlines()[-4:]))
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "verify": sys.exit(0 if verify(a[1:]) else 1)
    if a[0] == "catch":
        props = None
        if "-p" in a: props = [a[a.index("-p") + 1]]; a = a[:a.index("-p")]
        catch(a[1:] if len(a) > 1 else sorted(os.listdir(S)), props)
