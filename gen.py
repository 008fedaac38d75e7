#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from claims.py."""
import json
import os

from claims import NA, P

HERE = os.path.dirname(os.path.abspath(__file__))


def line(pid, c):
    files = sorted({f for _, f in c["mech"]})
    return {"id": pid, "title": c["title"], "statement": c["statement"],
            "quantifier": {"over": c["over"], "text": c["text"]}, "why_tests_cant": c["why"],
            "anchors": {"files": files, "mechanism": [{"name": n, "where": f} for n, f in c["mech"]], "hook_needed": None}}


def main():
    both = dict(P, **NA)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for pid in sorted(both):
            assert len(both[pid]["title"]) <= 80, pid
            f.write(json.dumps(line(pid, both[pid])) + "\n")
    man = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, numpy'", "checks": [], "not_applicable": [
        {"property": k, "reason": v["reason"]} for k, v in sorted(NA.items())],
        "notes": "One driver, check.py; which scenarios decide which property is in catalog.py. VERIF_WORKERS sets the number of processes (default 6)."}
    for pid in sorted(P):
        c = P[pid]
        man["checks"].append({
            "property": pid, "quick_cmd": f"python3-vt check.py {pid} --tier quick",
            "thorough_cmd": f"python3-vt check.py {pid} --tier thorough",
            "technique": "symbolic execution of the package source over exact reals, SMT (z3) equivalence and PSD certificates, replay on the real package",
            "level": "model_checking",
            "level_note": (f"Every value within the bounds: {c['text']}. " + (c["note"] + " " if c["note"] else "")
                           + "Assumes: " + "; ".join(c["assume"]) + ". Trusted: the NumPy facade (checked against real runs on a witness of every path), z3.")})
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


main()
