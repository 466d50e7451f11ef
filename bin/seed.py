#!/usr/bin/env python3
"""developer helper for planted changes, working on a scratch copy of /repo.

  seed.py new SPEC.py…  write seeded/<id>/ from a spec and confirm it
  seed.py verify ID…    confirm existing ones again
  seed.py hit ID…       apply to /repo, run its property's check, restore

A spec is a Python file defining id, property, needs, breaks, edits [(file, old, new)], main (Rust
source of the demonstration) and optionally deps."""
import json, os, shutil, subprocess, sys, time

VERIF = "/verif"
S = "/tmp/seedrepo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TARGET_DIR=S + "/target", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_INCREMENTAL="1")
TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[dependencies]
rgb-std = { path = "@REPO@", features = ["fs"] }
rgb-invoice = { path = "@REPO@/invoice" }
rgb-core = { version = "0.11.0-beta.9", features = ["stl"] }
bp-core = { version = "0.11.0-beta.9", features = ["stl"] }
commit_verify = { version = "0.11.0-beta.9", features = ["stl"] }
strict_encoding = "2.7.0"
strict_types = "2.7.2"
amplify = "4.7.0"
baid64 = "0.2.2"

[workspace]
'''
DEMO = '''#!/bin/bash
# Builds the program beside this script against the crates in the current directory and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here"/*.rs "$work/src/"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$work/Cargo.toml"
cd "$work"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER
cargo build --offline -q
"$work/target/debug/demo"
'''


SHIM = """#![allow(dead_code)]
pub fn u32() -> u32 { 1 }
pub fn choose(_: usize) -> usize { 0 }
pub fn assume(_: bool) {}
pub fn check(c: bool, label: &str) { assert!(c, "{label}") }
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def fresh():
    if not os.path.exists(S):
        subprocess.check_call(["cp", "-a", "/repo", S])
    subprocess.check_call(["git", "-C", S, "fetch", "-q", "/repo", "HEAD"])
    subprocess.check_call(["git", "-C", S, "checkout", "-q", "-f", "FETCH_HEAD"])


def demo(d):
    p = sh(["bash", d + "/demo.sh"], cwd=S, timeout=300, env={k: v for k, v in ENV.items() if k != "CARGO_TARGET_DIR"})
    return p.returncode, p.stdout.decode(errors="replace")[-1500:]


def confirm(sid):
    d = f"{VERIF}/seeded/{sid}"
    fresh()
    c0, o0 = demo(d)
    if c0 != 0:
        print(sid, "BAD: demo fails on the unchanged tree\n", o0)
        return False
    p = sh(["git", "-C", S, "apply", d + "/patch.diff"])
    if p.returncode:
        print(sid, "BAD: patch does not apply", p.stdout.decode())
        return False
    p = sh(["cargo", "test", "--workspace", "--all-features", "--offline", "--no-fail-fast", "--", "--test-threads", "1"], cwd=S, env=ENV)
    out = p.stdout.decode(errors="replace")
    if p.returncode:
        print(sid, "BAD: tests fail with the change\n", out[-2500:])
        return False
    subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "asset"])
    c1, o1 = demo(d)
    if c1 == 0:
        print(sid, "BAD: demo passes with the change")
        return False
    fresh()
    print(sid, "ok; demo:", o1.strip().split("\n")[-1][:200])
    return True


def new(spec):
    g = {}
    exec(open(spec).read(), g)
    sid = g["id"]
    d = f"{VERIF}/seeded/{sid}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    fresh()
    for f, old, nw in g["edits"]:
        s = open(f"{S}/{f}").read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(f"{S}/{f}", "w").write(s.replace(old, nw))
    diff = subprocess.check_output(["git", "-C", S, "diff"])
    assert diff.strip(), sid
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    open(d + "/Cargo.toml.in", "w").write(TOML)
    open(d + "/main.rs", "w").write(g["main"].lstrip("\n"))
    if g.get("world"):
        shutil.copy(VERIF + "/harness/src/world.rs", d + "/world.rs")
    if g.get("kit"):  # fixture and helpers, without the checks
        for f in ["world", "flow", "state", "transfer"]:
            text = open(f"{VERIF}/harness/src/{f}.rs").read()
            open(f"{d}/{f}.rs", "w").write("#![allow(unused_imports, dead_code)]\n" + text.split("\nharness! {")[0])
        open(d + "/sx.rs", "w").write(SHIM)
    json.dump({"property": g["property"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    return confirm(sid)


def hit(sid, props=None):
    d = f"{VERIF}/seeded/{sid}"
    pid = json.load(open(d + "/meta.json"))["property"]
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        t = time.time()
        p = sh([sys.executable, VERIF + "/bin/check.py", pid])
        out = p.stdout.decode(errors="replace")
        print(f"{sid} {pid} exit={p.returncode} {'CAUGHT' if p.returncode == 1 and 'VIOLATION property=' + pid in out else 'MISSED'} {time.time()-t:.0f}s")
        if p.returncode != 1:
            print(out[-1500:])
        else:
            print("   " + "\n   ".join(out.strip().split("\n")[:2]))
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "new":
        for a in args:
            new(a)
    elif cmd == "verify":
        for a in args or sorted(os.listdir(VERIF + "/seeded")):
            confirm(a)
    elif cmd == "hit":
        for a in args or sorted(os.listdir(VERIF + "/seeded")):
            hit(a)
