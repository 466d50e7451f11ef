"""Builds the symbolic executor, the LLVM IR of the harnesses with the current /repo sources
linked in, and the native replay binaries. Everything lands in /verif/.build (git-ignored) and is
keyed by the contents of the sources."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = os.path.join(VERIF, ".build")
TC = "stable-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "RUSTC"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = TC
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e.update(kw)
    return e


def run(cmd, what, **kw):
    t = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        sys.stdout.write(p.stdout.decode(errors="replace")[-8000:])
        print(f"BUILD-ERROR: {what} failed with {p.returncode}")
        sys.exit(2)
    if os.environ.get("BUILD_TIMES") and time.time() - t > .5:
        print(f"  {what}: {time.time() - t:.1f} s")
    return time.time() - t


def sysroot():
    out = subprocess.check_output(["rustc", "--print", "sysroot"], env=env())
    return out.decode().strip()


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            files = [d]
        else:
            files = []
            for r, ds, fs in os.walk(d):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build"))
                files += [os.path.join(r, f) for f in fs]
        for f in sorted(files):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def repo_hash():
    return tree_hash([REPO + "/src", REPO + "/invoice", REPO + "/stl", REPO + "/Cargo.toml", REPO + "/Cargo.lock"])


def forget(target, names):
    """Drop cargo's fingerprints of path crates: they are compared by mtime, which copies of the
    sandbox do not preserve reliably."""
    for n in names:
        for pat in (f"{target}/**/.fingerprint/{n}-*",):
            for p in glob.glob(pat, recursive=True):
                shutil.rmtree(p, ignore_errors=True)


def stamp(path):
    try:
        return open(path).read()
    except OSError:
        return None


def lock():
    os.makedirs(B, exist_ok=True)
    f = open(os.path.join(B, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def engine():
    h = tree_hash([VERIF + "/engine/src", VERIF + "/engine/Cargo.toml", VERIF + "/engine/build.rs"])
    tgt = B + "/engine"
    st = B + "/engine.stamp"
    exe = tgt + "/release/symx"
    if stamp(st) != h or not os.path.exists(exe):
        forget(tgt, ["symx"])
        run(["cargo", "build", "--release", "--offline", "--target-dir", tgt], "engine build",
            cwd=VERIF + "/engine", env=env())
        open(st, "w").write(h)
    return exe


PATH_CRATES = ["rgb-std", "rgb-invoice", "rgb-stl", "harness", "replay"]


def rustc_version():
    return subprocess.check_output(["rustc", "-vV"], env=env()).decode()


def std_bitcode(bindir):
    out = B + "/std"
    ver = rustc_version() + "all"
    if stamp(out + "/stamp") == ver:
        return sorted(glob.glob(out + "/*.bc"))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    lib = sysroot() + f"/lib/rustlib/{TRIPLE}/lib"
    # any of these may hold the only copy of a generic function shared between crates
    skip = ("panic_unwind", "test", "getopts", "unicode_width", "sysroot")
    for r in sorted(glob.glob(lib + "/lib*.rlib")):
        name = os.path.basename(r)[3:].rsplit("-", 1)[0]
        if name in skip or name.startswith(("rustc_std_workspace", "profiler")):
            continue
        d = out + "/x-" + name
        os.makedirs(d)
        run([bindir + "/llvm-ar", "x", r], "std extract", cwd=d)
        for i, o in enumerate(sorted(glob.glob(d + "/*.o"))):
            bc = f"{out}/{name}-{i}.bc"
            p = subprocess.run([bindir + "/llvm-objcopy", f"--dump-section=.llvmbc={bc}", o, "/dev/null"],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if p.returncode != 0 and os.path.exists(bc):
                os.remove(bc)
        shutil.rmtree(d)
    open(out + "/stamp", "w").write(ver)
    return sorted(glob.glob(out + "/*.bc"))


FIRST_CRATE = re.compile(r"C(?:s[0-9A-Za-z]*_)?\d+(_?[a-z][a-z0-9_]*)")
UNDER_TEST = re.compile(r"C(?:s[0-9A-Za-z]*_)?(6rgbstd|10rgbinvoice)")


def keep_separate(name):
    m, f = UNDER_TEST.search(name), FIRST_CRATE.search(name)
    return bool(m and f and m.start() == f.start()) or "compress256" in name or "pedersen_commit" in name


def undefined(bindir, bc):
    out = subprocess.check_output([bindir + "/llvm-nm", "--undefined-only", "-j", bc]).decode().split("\n")
    return {x for x in out if x}


def ir(entries):
    """Returns the path of the textual IR with every harness entry."""
    srcs = [VERIF + "/harness/src", VERIF + "/harness/Cargo.toml", VERIF + "/harness/Cargo.lock",
            VERIF + "/bin/build.py", VERIF + "/bin/wrap.sh"]
    h = tree_hash(srcs) + repo_hash()
    out = B + "/ir"
    st = B + "/ir.stamp"
    ll = out + "/all.ll"
    if stamp(st) == h and os.path.exists(ll):
        return ll, 0.0
    t0 = time.time()
    bindir = sysroot() + f"/lib/rustlib/{TRIPLE}/bin"
    tgt = B + "/irtarget"
    flags = "-C linker-plugin-lto -C embed-bitcode=yes -C target-cpu=x86-64 -C no-vectorize-loops -C no-vectorize-slp"
    # every library found in the target directory is linked: it must hold exactly one build of each
    key = tree_hash([VERIF + "/harness/Cargo.toml", VERIF + "/harness/Cargo.lock", REPO + "/Cargo.toml",
                     REPO + "/invoice/Cargo.toml", VERIF + "/bin/wrap.sh"]) + flags + rustc_version()
    if stamp(tgt + "/key") != key:
        shutil.rmtree(tgt, ignore_errors=True)
        os.makedirs(tgt)
        open(tgt + "/key", "w").write(key)
    forget(tgt, PATH_CRATES)
    for n in ("rgbstd", "rgbinvoice", "harness", "rgbstl"):
        for p in glob.glob(f"{tgt}/{TRIPLE}/release/deps/lib{n}-*"):
            os.remove(p)
    run(["cargo", "build", "--release", "--offline", "--target", TRIPLE, "--target-dir", tgt], "harness build",
        cwd=VERIF + "/harness", env=env(RUSTFLAGS=flags, RUSTC_WRAPPER=VERIF + "/bin/wrap.sh"))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out + "/dep")
    main = []
    mods = []
    for r in sorted(glob.glob(f"{tgt}/{TRIPLE}/release/deps/lib*.rlib")):
        name = os.path.basename(r)[3:-5]
        d = f"{out}/dep/{name}"
        os.makedirs(d)
        run([bindir + "/llvm-ar", "x", r], "extract", cwd=d)
        for o in sorted(glob.glob(d + "/*.o")):
            with open(o, "rb") as fh:
                if fh.read(4) not in (b"BC\xc0\xde", b"\xde\xc0\x17\x0b"):
                    continue
            if name.startswith("harness-"):
                main.append(o)
            else:
                mods.append(o)
    mods += std_bitcode(bindir)
    cur = out + "/linked.bc"
    run([bindir + "/llvm-link", *main, *mods, "-o", cur], "link")
    run([bindir + "/opt", "-passes=internalize,globaldce", "--internalize-public-api-list=" + ",".join(entries),
         "--strip-debug", cur, "-o", out + "/dce.bc"], "dce")
    run([bindir + "/llvm-dis", out + "/dce.bc", "-o", ll], "disassemble")
    shutil.rmtree(out + "/dep")
    for p in glob.glob(out + "/*.bc"):
        os.remove(p)
    open(st, "w").write(h)
    return ll, time.time() - t0


def replay(profile):
    """Native build of the same harnesses: profile is 'dev' or 'release'."""
    h = tree_hash([VERIF + "/harness/src", VERIF + "/harness/Cargo.toml", VERIF + "/replay/src",
                   VERIF + "/replay/Cargo.toml", VERIF + "/replay/Cargo.lock"]) + repo_hash()
    tgt = B + "/native"
    sub = "debug" if profile == "dev" else "release"
    exe = f"{tgt}/{sub}/replay"
    st = f"{B}/native-{sub}.stamp"
    if stamp(st) != h or not os.path.exists(exe):
        for n in PATH_CRATES:
            for p in glob.glob(f"{tgt}/{sub}/.fingerprint/{n}-*"):
                shutil.rmtree(p, ignore_errors=True)
        cmd = ["cargo", "build", "--offline", "--target-dir", tgt]
        if profile != "dev":
            cmd.append("--release")
        run(cmd, "native build", cwd=VERIF + "/replay", env=env())
        open(st, "w").write(h)
    return exe


if __name__ == "__main__":
    import re
    lock()
    t = time.time()
    engine()
    print("engine", round(time.time() - t, 1))
    from entries import all_entries
    t = time.time()
    ll, _ = ir(all_entries())
    print("ir", round(time.time() - t, 1), ll, os.path.getsize(ll))
    if len(sys.argv) > 1:
        t = time.time()
        replay("dev")
        print("native dev", round(time.time() - t, 1))
