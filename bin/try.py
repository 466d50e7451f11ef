#!/usr/bin/env python3
"""developer helper: try.py ENTRY… — build, run entries in parallel, print a summary"""
import concurrent.futures, json, os, subprocess, sys
sys.path.insert(0, "/verif/bin")
import build, entries as ent
args = [a for a in sys.argv[1:] if not a.startswith("-")]
T = int(os.environ.get("T", "120"))
tier = "1" if "-t" in sys.argv else "0"
build.lock()
exe = build.engine()
ll, _ = build.ir(ent.all_entries())
names = []
for a in args:
    names += [e for e in ent.all_entries() if e == a or (a.endswith("*") and e.startswith(a[:-1]))]


def go(e):
    out = f"/tmp/o-{e}.json"
    if os.path.exists(out):
        os.remove(out)
    try:
        p = subprocess.run([exe, ll, e, out, "--time", str(T), "--tier", tier] + (["--debug", "1"] if "-d" in sys.argv else []),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=T + 100)
        log = p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        log = "TIMEOUT " + str((x.stdout or b"")[-500:])
    return e, out, log


with concurrent.futures.ThreadPoolExecutor(8) as ex:
    for e, out, log in ex.map(go, names):
        print("==", e)
        if not os.path.exists(out):
            print("  no output", log[-1500:])
            continue
        d = json.load(open(out))
        print("  ", {k: d[k] for k in ("complete", "paths", "paths_panic", "paths_dropped", "left", "queries", "unknown", "external", "instructions", "wall_s", "solver_s")})
        print("   covers", d["covers"], "checks", {c["label"]: (c["evaluated"], c["symbolic"]) for c in d["checks"]})
        for v in d["violations"][:4]:
            print("   VIOL", v["label"], v["known"], [x for _, x in v["inputs"]][:60])
            print("      ", " > ".join(v["trace"])[-700:])
        for i in d["inconclusive"][:3]:
            print("   INC", i[-900:])
        if "-d" in sys.argv:
            print(log[-3000:])
