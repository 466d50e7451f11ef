#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] — decides one property.

Builds the executor, the IR of the harnesses over /repo's current sources and the native replay
binary; runs the property's harness entries symbolically; replays every counterexample and a
sample of the explored paths against natively compiled code; writes evidence/<id>.json.

exit 0: held on everything explored (and the exploration was complete)
exit 1: a violation, reproduced natively; a VIOLATION line is printed
exit 2: no answer (build failure, unfinished exploration, vacuous harness, unreproduced model)
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/bin")
import build, entries as ent, props

BASE_ASSUMPTIONS = [
    "Code is rustc's LLVM IR for x86_64 (opt-level 1, overflow checks and debug assertions on), linked with the "
    "dependency crates and the standard library.",
    "SHA-256 compression of symbolic data and Pedersen commitments are replaced by an injective stand-in: equal "
    "inputs give equal digests, different inputs give different ones (decided by the solver), and the digest itself "
    "is one fixed value; concrete data is hashed for real.",
    "Curve scalars and generators are concrete; a commitment sum balances exactly when blindings and per-generator "
    "values do.",
    "Random numbers, the clock and hash-map keys are fixed; allocation never fails; one thread.",
]


def known_list():
    out = {}
    path = VERIF + "/KNOWN_FINDINGS.jsonl"
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                e = json.loads(line)
                if e["status"] == "known":
                    out[(e["property"], e["id"])] = e
    return out


def run_entry(exe, ll, entry, tier, seed, scratch, limit, samples):
    out = f"{scratch}/{entry}.json"
    cmd = [exe, ll, entry, out, "--time", str(limit), "--seed", str(seed), "--samples", str(samples),
           "--tier", "1" if tier == "thorough" else "0"]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit + 120, cwd=scratch)
        log = p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return {"entry": entry, "complete": False, "inconclusive": ["executor exceeded its time"], "violations": []}
    if not os.path.exists(out):
        return {"entry": entry, "complete": False, "violations": [],
                "inconclusive": [f"executor failed ({p.returncode}): {log[-600:]}"]}
    r = json.load(open(out))
    r["run_s"] = time.time() - t
    return r


def replay_files(exe, files):
    """{file: {"end":..., "fails":[(label, known)], "covers":[...], "panic":...}}"""
    res = {}
    p = subprocess.run([exe, *files], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600)
    cur = None
    for line in p.stdout.decode(errors="replace").split("\n"):
        w = line.split(" ", 1)
        if w[0] == "RUN":
            cur = {"fails": [], "covers": [], "end": "crash", "panic": None, "starved": False}
            res[w[1].split(" ")[0]] = cur
        elif cur is None:
            continue
        elif w[0] == "FAIL":
            m = re.match(r"(.*) KNOWN=(.*)$", w[1])
            cur["fails"].append((m.group(1), m.group(2)))
        elif w[0] == "COVER":
            cur["covers"].append(w[1])
        elif w[0] == "PANIC":
            cur["panic"] = w[1]
        elif w[0] == "STARVED":
            cur["starved"] = True
        elif w[0] == "END":
            cur["end"] = w[1]
    return res


def write_input(path, entry, tier, inputs):
    with open(path, "w") as f:
        f.write(entry + (" thorough" if tier == "thorough" else "") + "\n")
        for _, v in inputs:
            f.write(f"{v}\n")


def labels(entry):
    """Labels the entry's own text says it covers or checks."""
    body = ent.body(entry)
    covers = re.findall(r'sx::cover\("([^"]+)"\)', body)
    checks = re.findall(r'sx::check(?:_known)?\((?!false,)[^;]*?"([^"]+)"', body)
    return sorted(set(covers)), sorted(set(checks))


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = props.PROPS[pid]
    lk = build.lock()
    exe = build.engine()
    ll, ir_s = build.ir(ent.all_entries())
    native = build.replay("dev")
    lk.close()
    build_s = time.time() - t0

    scratch = tempfile.mkdtemp(prefix=f"run-{pid}-", dir=build.B)
    limit = prop.get("time", 400) if tier == "quick" else prop.get("thorough_time", 3000)
    names = list(prop["entries"]) + (list(prop.get("thorough_entries", [])) if tier == "thorough" else [])
    samples = 24 if tier == "quick" else 100
    try:
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            runs = list(ex.map(lambda e: run_entry(exe, ll, e, tier, seed, scratch, limit, samples), names))
        code = conclude(pid, tier, seed, prop, runs, native, scratch, t0, build_s, ir_s)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def conclude(pid, tier, seed, prop, runs, native, scratch, t0, build_s, ir_s):
    known = known_list()
    problems = []      # reasons for "no answer"
    violations = []    # (label, replay path)
    hit_known = {}
    rdir = VERIF + "/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(pid + "-"):
            os.remove(f"{rdir}/{old}")
    release = None
    nviol = 0
    for r in runs:
        e = r["entry"]
        for v in r["violations"]:
            nviol += 1
            path = f"{rdir}/{pid}-{nviol}.txt"
            write_input(path, e, tier, v["inputs"])
            got, ok = {}, []
            for prof in ("dev", "release"):
                if prof == "release" and release is None:
                    lk = build.lock()
                    release = build.replay("release")
                    lk.close()
                g = replay_files(native if prof == "dev" else release, [path]).get(path, {"end": "crash", "fails": [], "panic": None})
                got[prof] = g
                if g["end"].startswith("panic") or g["fails"]:
                    ok = [prof]
                    break
            kid = v["known"]
            if kid and ok and (pid, kid) in known:
                hit_known[kid] = v["label"]
                os.remove(path)
                continue
            if ok:
                violations.append((e, v["label"], path, ok, got[ok[0]]["panic"]))
            else:
                problems.append(f"{e}: model for '{v['label']}' does not fail natively ({got['dev']['end']})")
                os.remove(path)
    # sample of explored paths, run natively
    validated, sample_out = 0, []
    files = {}
    for r in runs:
        for i, s in enumerate(r.get("samples", [])):
            p = f"{scratch}/{r['entry']}-{i}.in"
            write_input(p, r["entry"], tier, s["inputs"])
            files[p] = (r["entry"], s)
    if files:
        res = replay_files(native, list(files))
        for p, (e, s) in files.items():
            g = res.get(p, {"end": "crash", "fails": [], "covers": [], "panic": None})
            if g["end"] == "ok" and sorted(g["covers"]) == sorted(s["covers"]):
                validated += 1
                if len(sample_out) < 6 and not any(x["entry"] == e for x in sample_out):
                    sample_out.append({"entry": e, "inputs": [v for _, v in s["inputs"]][:64], "covers": s["covers"]})
            elif g["fails"] or g["end"].startswith("panic"):
                lab = g["fails"][0][0] if g["fails"] else "panic " + str(g["panic"])
                kid = g["fails"][0][1] if g["fails"] else ""
                if kid and (pid, kid) in known:
                    continue
                nviol += 1
                path = f"{rdir}/{pid}-{nviol}.txt"
                shutil.copy(p, path)
                violations.append((e, lab, path, ["dev"], g["panic"]))
            elif g["end"] == "ok" and prop.get("oracle"):
                pass    # stand-in digests may order differently; the native path still passes its checks
            else:
                problems.append(f"{e}: explored path behaves differently natively ({g['end']}, covers {g['covers']} "
                                f"instead of {s['covers']}, inputs {[v for _, v in s['inputs']][:40]})")
    for r in runs:
        e = r["entry"]
        if not r["complete"]:
            problems.append(f"{e}: exploration incomplete: {'; '.join(r['inconclusive'][:3]) or 'limit reached'}")
        want_c, want_k = labels(e)
        have_c, have_k = r.get("covers", {}), {c["label"] for c in r.get("checks", [])}
        for c in want_c:
            if c not in have_c:
                problems.append(f"{e}: never reached '{c}'")
        for c in want_k:
            if c not in have_k:
                problems.append(f"{e}: never evaluated '{c}'")
        if not r.get("samples") and not r["violations"]:
            problems.append(f"{e}: no completed path")
    tot = lambda k: sum(r.get(k, 0) for r in runs)
    funcs = sorted({f for r in runs for f in r.get("functions", [])})
    cov = {
        "states": tot("paths") + tot("paths_panic") + tot("paths_allowed_panic"),
        "transitions": tot("instructions"),
        "traces_validated_against_impl": validated,
        "samples": sample_out,
        "exhaustive": False,
        "explanation": "states: symbolic paths explored to their end; transitions: IR instructions executed "
                       "symbolically; every branch and assertion on symbolic data is decided by an SMT solver for all "
                       "values within the bounds",
        "bounds": prop["bounds"],
        "forks": tot("forks"),
        "queries": tot("queries"),
        "solver_calls": tot("solver_calls"),
        "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"), "external_solver_calls": tot("external"),
        "solver_s": round(tot("solver_s"), 3),
        "max_query_s": max([r.get("max_query_s", 0) for r in runs] + [0]),
        "build_s": round(build_s, 1), "ir_build_s": round(ir_s, 1),
        "assertions": sum(c["evaluated"] for r in runs for c in r.get("checks", [])),
        "assertions_symbolic": sum(c["symbolic"] for r in runs for c in r.get("checks", [])),
        "entries": [{"entry": r["entry"], "complete": r["complete"], "paths": r.get("paths", 0),
                     "dropped": r.get("paths_dropped", 0), "queries": r.get("queries", 0),
                     "instructions": r.get("instructions", 0), "wall_s": r.get("wall_s", 0),
                     "covers": r.get("covers", {}), "checks": r.get("checks", [])} for r in runs],
        "functions_encoded": len(funcs),
        "functions": funcs,
        "functions_encoded_with_dependencies": max([r.get("functions_total", 0) for r in runs] + [0]),
        "known_findings_seen": sorted(hit_known),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": BASE_ASSUMPTIONS + prop.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for (p, kid), k in sorted(known.items()):
        if p == pid:
            if kid in hit_known:
                print(f"KNOWN-FINDING: property={pid} {kid}: {k['what']}")
            else:
                print(f"note: listed finding {kid} did not occur in this run")
    for e, lab, path, prof, pan in violations:
        print(f"  {e}: {lab} (reproduced natively: {', '.join(prof)})" + (f" [{pan}]" if pan else ""))
        print(f"VIOLATION property={pid} replay={path}")
    print(f"{pid} {tier}: entries={len(runs)} paths={cov['states']} queries={cov['queries']} solver_s={cov['solver_s']} "
          f"validated={validated} build_s={cov['build_s']} wall_s={ev['wall_s']}")
    for p in problems:
        print("NO-ANSWER:", p)
    if violations:
        return 1
    return 2 if problems else 0


if __name__ == "__main__":
    main()
