#!/usr/bin/env python3
"""Re-run scenarios on the real package with concrete inputs.

usage: replay.py FILE.json          one case; prints what fails, exit 1 if so
       replay.py --batch IN OUT     a list of cases, results as JSON
Runs under /opt/venv/bin/python (real NumPy, kalmankit from /repo/src).
"""
import json
import os
import random
import sys
import traceback
import warnings
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO_SRC", "/repo/src"))
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
if __name__ == "__main__" and os.path.exists(PY) and os.path.realpath(sys.prefix) != "/opt/venv":
    os.execv(PY, [PY, "-B"] + sys.argv)


def decode(v):
    return v if isinstance(v, bool) else Fraction(int(v[0]), int(v[1]))


def run_case(case):
    out, env = run_once(case)
    labels = {m[0] for m in out["mismatches"]} & set(env.scales)
    if labels and not out["error"]:
        out["noise"], out["spec_noise"] = noise(case, out, env, labels)
    return out


def noise(case, out, env, labels, rel=1e-12):
    """How much the results of the code, and of the specification, move when
    every input moves by a relative 1e-12: what lies within that is rounding
    amplified by an ill-conditioned input, not a difference in meaning."""
    code, spec = 0.0, 0.0
    for k in range(3):
        rng = random.Random(k)
        vals = {n: v if isinstance(v, bool) or n in env.int_vars or v == 0 else v * Fraction(1 + rng.uniform(-rel, rel))
                for n, v in ((n, decode(x)) for n, x in case["values"].items())}
        o, e = run_once(case, vals)
        if o["error"]:
            return float("inf"), 0.0
        for x in labels:
            a = dist(out["outputs"].get(x), o["outputs"].get(x)) / env.scales[x]
            b = dist(env.expected.get(x), e.expected.get(x)) / env.scales[x]
            code, spec = max(code, a), max(spec, b)
    return code, spec


def dist(a, b):
    if a is None or b is None or len(a) != len(b):
        return 0.0
    return max([abs(x - y) for x, y in zip(a, b) if x == x and y == y and abs(x) != abs(float("inf")) != abs(y)] + [0.0])


def run_once(case, values=None):
    from scenarios import REG
    from symkit.env import ConcEnv
    for m in [m for m in sys.modules if m == "kalmankit" or m.startswith("kalmankit.")]:
        if not m.endswith("._version"):
            del sys.modules[m]
    env = ConcEnv(values or {k: decode(v) for k, v in case["values"].items()})
    out = {"error": None, "mismatches": env.mismatches, "outputs": env.outputs}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            REG[case["scenario"]](env, **case["params"])
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            mine = any("kalmankit" in f.filename for f in tb)
            out["error"] = {"type": type(e).__name__, "msg": str(e), "in_code": mine,
                            "where": "".join(traceback.format_exception(e))[-1500:]}
    out["worst"] = env.worst
    return out, env


def main():
    if sys.argv[1] == "--batch":
        import faulthandler
        cases = json.load(open(sys.argv[2]))
        with open(sys.argv[3], "w") as f:
            for c in cases:
                faulthandler.dump_traceback_later(float(sys.argv[4]), exit=True)
                f.write(json.dumps(run_case(c)) + "\n")
                f.flush()
        return 0
    case = json.load(open(sys.argv[1]))
    import kalmankit
    print("replaying", case["scenario"], case["params"], "on", kalmankit.__file__)
    r = run_case(case)
    for k, v in sorted(case["values"].items()):
        print("  input", k, "=", decode(v) if isinstance(v, bool) else float(decode(v)))
    for label, what, _ in r["mismatches"]:
        print("FAILS:", label, "-", what)
    if r["error"]:
        print("RAISED:", r["error"]["where"])
    bad = bool(r["mismatches"]) or bool(r["error"])
    print("property violated" if bad else "property holds on this input")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
