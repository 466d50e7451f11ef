#!/usr/bin/env python3
"""developer helper: nat.py ENTRY [-t] [value…] — run an entry natively on given values, or on the violations try.py left"""
import json, subprocess, sys
sys.path.insert(0, "/verif/bin")
import build
args = [a for a in sys.argv[1:] if a != "-t"]
thorough = " thorough" if "-t" in sys.argv else ""
build.lock()
exe = build.replay("dev")
runs = [args[1:]] if len(args) > 1 else [[x for _, x in v["inputs"]] for v in json.load(open(f"/tmp/o-{args[0]}.json"))["violations"][:3]]
for n, r in enumerate(runs):
    p = f"/tmp/nat-{n}.txt"
    open(p, "w").write(args[0] + thorough + "\n" + "".join(f"{x}\n" for x in r))
    print(subprocess.run([exe, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()[-3000:])
