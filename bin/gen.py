#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from props.py."""
import json, os, re, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/bin")
import props

TECH = "symbolic execution of the compiled code (LLVM IR), decided by SMT (bit-vectors)"


def main():
    lines = []
    for pid, p in sorted({**props.PROPS, **props.NOT_APPLICABLE}.items()):
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        lines.append(json.dumps({
            "id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None}}))
    open(VERIF + "/properties.jsonl", "w").write("\n".join(lines) + "\n")

    man = {
        "version": 1,
        "setup_cmd": "python3 bin/build.py r",
        "hooks": {"guard": "none", "enable": "no hooks: the checks use the crates' public interface", "source_commits": []},
        "checks": [{
            "property": pid,
            "quick_cmd": f"python3 bin/check.py {pid} quick",
            "thorough_cmd": f"python3 bin/check.py {pid} thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": TECH,
            "level": "model_checking",
            "level_note": "Holds for all values within: " + p["bounds"] + ". Every path is explored to its end or the "
                          "check gives no answer. Trusts the executor, the solver and the listed stand-ins; explored "
                          "paths are sampled and replayed on the native build.",
        } for pid, p in sorted(props.PROPS.items())],
        "not_applicable": [{"property": pid, "reason": p["reason"]} for pid, p in sorted(props.NOT_APPLICABLE.items())],
        "notes": "DESIGN.md explains the method; KNOWN_FINDINGS.jsonl lists defects found.",
    }
    with open(VERIF + "/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")

    out = []
    for pid, p in sorted(props.PROPS.items()):
        out.append(f"### {pid} — {p['title']}\n")
        out.append(p["statement"] + "\n")
        out.append(f"- Oracle: {p['oracle_text']}") if p.get("oracle_text") else None
        out.append(f"- Harness entries: {', '.join('`%s`' % e for e in p['entries'])}"
                   + (f"; thorough only: {', '.join('`%s`' % e for e in p['thorough_entries'])}" if p.get("thorough_entries") else ""))
        out.append(f"- Bounds: {p['bounds']}")
        for a in p.get("assumptions", []):
            out.append(f"- Outside: {a}")
        out.append(f"- Reaches beyond tests: {p['tests']}")
        out.append("")
    for pid, p in sorted(props.NOT_APPLICABLE.items()):
        out.append(f"### {pid} — {p['title']} (not applicable)\n\n{p['statement']}\n\n- Reason: {p['reason']}\n")
    path = VERIF + "/DESIGN.md"
    if os.path.exists(path):
        s = open(path).read()
        s = re.sub(r"(<!-- properties -->\n).*?(<!-- end properties -->)",
                   lambda m: m.group(1) + "\n" + "\n".join(out) + "\n" + m.group(2), s, flags=re.S)
        open(path, "w").write(s)


main()
