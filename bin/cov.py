#!/usr/bin/env python3
"""developer helper: cov.py — lines of the repository reached by the explored paths of all entries.

Runs every entry symbolically, replays the inputs of its paths natively in a build with coverage
instrumentation and prints, per source file, the functions and lines which were never reached."""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, entries as ent
W = "/tmp/cov"
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
build.lock()
exe = build.engine()
names = sys.argv[1:] or ent.all_entries()
ll, _ = build.ir(ent.all_entries())


def go(e):
    out = f"{W}/{e}.json"
    subprocess.run(["nice", "-n", "19", exe, ll, e, out, "--time", "300", "--tier", "0", "--samples", "150"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if not os.path.exists(out):
        return
    d = json.load(open(out))
    for i, s in enumerate(d.get("samples", [])):
        vals = s["inputs"] if isinstance(s, dict) else s
        open(f"{W}/{e}-{i}.txt", "w").write(e + "\n" + "".join(f"{x[1]}\n" for x in vals))


with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
    list(ex.map(go, names))
tgt = build.B + "/cov"
build.forget(tgt, build.PATH_CRATES)
build.run(["nice", "-n", "19", "cargo", "build", "--offline", "--target", build.TRIPLE, "--target-dir", tgt], "coverage build", cwd=build.VERIF + "/replay",
          env=build.env(RUSTFLAGS="-C instrument-coverage"))
bin_ = f"{tgt}/{build.TRIPLE}/debug/replay"
files = glob.glob(W + "/*.txt")
def rep(k):
    subprocess.run([bin_] + files[k::6], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                   env=dict(os.environ, LLVM_PROFILE_FILE=f"{W}/p-{k}.profraw"))
with concurrent.futures.ThreadPoolExecutor(6) as ex:
    list(ex.map(rep, range(6)))
bd = build.sysroot() + f"/lib/rustlib/{build.TRIPLE}/bin"
subprocess.check_call([bd + "/llvm-profdata", "merge", "-sparse", *glob.glob(W + "/*.profraw"), "-o", W + "/m.profdata"])
lcov = subprocess.check_output([bd + "/llvm-cov", "export", "-format=lcov", bin_, "-instr-profile=" + W + "/m.profdata",
                                build.REPO + "/src", build.REPO + "/invoice/src"]).decode()
tot = hit = 0
for rec in lcov.split("end_of_record"):
    m = re.search(r"SF:(.*)", rec)
    if not m:
        continue
    f = m.group(1)
    src = open(f).read().split("\n")
    lines = {int(a): int(b) for a, b in re.findall(r"DA:(\d+),(\d+)", rec)}
    cut = next((i for i, l in enumerate(src) if l.startswith("#[cfg(test)]") and i + 1 < len(src) and src[i + 1].startswith("mod ")), len(src))
    lines = {l: n for l, n in lines.items() if l <= cut}
    miss = sorted(l for l, n in lines.items() if n == 0)
    tot += len(lines)
    hit += len(lines) - len(miss)
    print(f"== {f} {len(lines) - len(miss)}/{len(lines)}")
    for l in miss:
        print(f"{l:5} {src[l - 1][:150]}")
print("TOTAL", hit, tot)
