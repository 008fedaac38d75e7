"""Runs the scenarios of one property and turns solver verdicts into a result."""
import json
import multiprocessing
import multiprocessing.connection
import os
import pickle
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

import z3

from . import engine, loader
from . import terms as t
from .engine import Ctx, Pool, ModelSearch, Obl, PathLimit, Infeasible, Stopped, Stats, discharge
from .symenv import SymEnv
from .terms import Unsupported

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


WORKERS = int(os.environ.get("VERIF_WORKERS", "6"))
MEMORY = 6 << 30


class FnTrace:
    """Which functions of the package were executed symbolically."""

    def __init__(self, stats):
        self.stats = stats

    def __enter__(self):
        src = loader.SRC

        def prof(frame, event, arg):
            if event == "call":
                c = frame.f_code
                if c.co_filename.startswith(src):
                    k = os.path.basename(c.co_filename) + ":" + c.co_qualname
                    self.stats.functions[k] = self.stats.functions.get(k, 0) + 1
        sys.setprofile(prof)

    def __exit__(self, *a):
        sys.setprofile(None)


def run_scenario(name, params, stats, limits, seed, log):
    """Explore all symbolic paths.  Returns a dict of findings."""
    res = {"name": name, "params": params, "fails": [], "inconclusive": [], "witness": [],
           "paths": 0, "t": time.time(), "obligations": 0, "failed_at": 0}

    def stop(*a):
        raise Stopped()
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(int(limits.get("scenario_s", 200) * 1.2 + 20))
    try:
        _explore(name, params, stats, limits, seed, res)
    except Stopped:
        res["inconclusive"].append("stopped: time limit")
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    res["t"] = time.time() - res["t"]
    return res


def _explore(name, params, stats, limits, seed, res):
    from scenarios import REG
    fn = REG[name]
    todo = [(True, [], False)]
    while todo:
        stop = None
        if res["paths"] >= limits.get("paths", 400):
            stop = "path limit reached"
        elif time.time() - res["t"] > limits.get("scenario_s", 200):
            stop = "time limit reached"
        elif res["fails"] and (res["paths"] - res["failed_at"] > 3 or time.time() - res["found"] > 15):
            break
        if stop:
            if limits.get("partial") and res["paths"]:
                res["partial"] = stop
            else:
                res["inconclusive"].append(stop)
            break
        # paths known to be feasible first
        _, prefix, unchecked = todo.pop(max((i for i, x in enumerate(todo) if x[0]), default=-1))
        t.reset()
        kit = loader.load()
        ctx = Ctx(prefix, stats, limits, unchecked)
        t._Ctx.cur = ctx
        env = SymEnv(ctx, kit)
        ctx.pool = Pool(env, seed)
        raised = None
        before = sum(stats.functions.values())
        try:
            with FnTrace(stats):
                fn(env, **params)
                env.finish()
        except Infeasible:
            continue
        except PathLimit as e:
            res["inconclusive"].append(str(e))
            continue
        except Unsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb if f.filename.startswith(loader.SRC)]
            res["inconclusive"].append(f"not encodable: {e} ({', '.join(where[-2:])})")
            todo.extend(ctx.alts)
            continue
        except Exception as e:
            raised = "".join(traceback.format_exception(e))
            env.obls.append(Obl("raises", "struct", note=f"{type(e).__name__}: {e}"))
        finally:
            t._Ctx.cur = None
        stats.api_calls += sum(stats.functions.values()) - before
        todo.extend(ctx.alts)
        res["paths"] += 1
        stats.paths += 1
        stats.assumed_nonzero += len(ctx.nonzero)
        t._Ctx.cur = ctx
        try:
            fails, unk = discharge(stats, ctx, env.obls, env.marks, limits.get("sweep_s", 90), env.hints)
        finally:
            t._Ctx.cur = None
        res["obligations"] += len(env.obls)
        stats.nodes += t.node_count()
        ms = ModelSearch(stats, ctx, env, seed)
        if fails:
            res["failed_at"] = res["failed_at"] or res["paths"]
            fo = [f.obl for f in fails]
            cands = ms.violations(fo, solve=not res["fails"])
            if cands and not res["fails"]:
                res["found"] = time.time()
            for v in cands:
                res["fails"].append({"values": v, "labels": [f.obl.label for f in fails][:6],
                                     "why": fails[0].why + (" " + fails[0].obl.note if fails[0].obl.note else ""),
                                     "raised": raised})
            if not cands:
                res["inconclusive"].append(f"refuted but no concrete input found: {[f.obl.label for f in fails][:4]} {fails[0].why}")
        for o in unk:
            res["inconclusive"].append(f"solver unknown: {o.label}")
        if raised is None:
            w = ms.path_models(1, solve=not fails)
            if w:
                vals = {}
                ev = ms._ok(w[0], ms.roots_of([o for o in env.obls if o.kind == "eq"]))
                if ev is not None:
                    for o in env.obls:
                        if o.kind == "eq":
                            x = ev[o.a.v.nid] if not ev[o.a.nan.nid] else float("nan")
                            vals[o.label] = float(x)
                res["witness"].append({"values": w[0], "predicted": vals, "failed": bool(fails)})
            else:
                res.setdefault("unwitnessed", 0)
                res["unwitnessed"] += 1


def enc(values):
    return {k: (v if isinstance(v, bool) else [str(Fraction(v).numerator), str(Fraction(v).denominator)])
            for k, v in values.items()}


def replay_batch(cases, each=60, total=150):
    """Run the cases on the real package.  One that takes too long counts as
    not replayed."""
    env = dict(os.environ, OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    out, t0 = [], time.time()
    with tempfile.TemporaryDirectory() as d:
        i, o = os.path.join(d, "in.json"), os.path.join(d, "out.json")
        while len(out) < len(cases):
            with open(i, "w") as f:
                json.dump(cases[len(out):], f)
            open(o, "w").close()
            left = total - (time.time() - t0)
            try:
                p = subprocess.run([sys.executable, os.path.join(ROOT, "replay.py"), "--batch", i, o, str(each)],
                                   env=env, capture_output=True, text=True, timeout=max(left, 5))
                err = p.stderr[-2000:]
            except subprocess.TimeoutExpired:
                err = "replay takes too long"
            with open(o) as f:
                out += [json.loads(x) for x in f if x.endswith("\n")]
            if len(out) < len(cases):
                out.append({"error": {"type": "Replay", "msg": err, "in_code": False, "where": ""}, "mismatches": [],
                            "outputs": {}, "worst": 0.0})
    return out


ROUNDING = 1e-4


def case_of(r, x):
    return {"scenario": r["name"], "params": r["params"], "values": enc(x["values"])}


def worker(sc, lim, seed, path):
    """One scenario in a process of its own."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    stats = Stats()
    try:
        r = run_scenario(sc[0], sc[1], stats, lim, seed, None)
    except MemoryError:
        r = blank(sc, "memory limit reached")
    except RecursionError:
        r = blank(sc, "recursion limit reached")
    except Exception as e:
        r = blank(sc, "error in the machinery: " + "".join(traceback.format_exception(e))[-1500:])
    with open(path + ".tmp", "wb") as f:
        pickle.dump((r, stats), f)
    os.rename(path + ".tmp", path)


def blank(sc, why):
    return {"name": sc[0], "params": sc[1], "fails": [], "inconclusive": [why], "witness": [], "paths": 0, "t": 0.0,
            "obligations": 0, "failed_at": 0}


def run_all(scenarios, stats, limits, budget, seed):
    """Run the scenarios in parallel processes; yield results as they come."""
    t0 = time.time()
    mp = multiprocessing.get_context("fork")
    todo, running = list(enumerate(scenarios)), []
    with tempfile.TemporaryDirectory() as d:
        try:
            while todo or running:
                left = budget - (time.time() - t0)
                while todo and len(running) < WORKERS and left > 5:
                    i, sc = todo.pop(0)
                    lim = dict(limits, **(sc[2] if len(sc) > 2 else {}))
                    lim["scenario_s"] = min(lim.get("scenario_s", 200), left)
                    path = os.path.join(d, str(i))
                    p = mp.Process(target=worker, args=(sc, lim, seed, path))
                    p.start()
                    running.append((p, sc, path, time.time() + lim["scenario_s"] * 1.5 + 60))
                if left <= 5:
                    for _, sc in todo:
                        yield blank(sc, "not run: time budget exhausted")
                    todo = []
                multiprocessing.connection.wait([p.sentinel for p, *_ in running], timeout=1)
                for item in list(running):
                    p, sc, path, end = item
                    if p.is_alive():
                        if time.time() > min(end, t0 + budget + 45):
                            p.kill()
                            p.join()
                            running.remove(item)
                            yield blank(sc, "stopped: time limit")
                        continue
                    p.join()
                    running.remove(item)
                    if os.path.exists(path):
                        with open(path, "rb") as f:
                            r, st = pickle.load(f)
                        stats.merge(st)
                        yield r
                    else:
                        yield blank(sc, f"worker ended with code {p.exitcode}")
        finally:
            for p, *_ in running:
                p.kill()
                p.join()


def check_property(pid, scenarios, tier, seed, limits=None, meta=None):
    """The whole check of one property: returns the process exit code."""
    t0 = time.time()
    stats = Stats()
    limits = dict(limits or {})
    results, errors = [], []
    violation = None
    budget = limits.pop("budget_s", 700)
    for r in run_all(scenarios, stats, limits, budget, seed):
        results.append(r)
        if r["fails"]:
            violation = confirm(r, errors)
            if violation:
                break
    if violation is None:
        violation = validate(results, stats, errors)
    results.sort(key=lambda r: [sc[:2] for sc in scenarios].index((r["name"], r["params"])))
    for r in results:
        for i in r["inconclusive"]:
            errors.append(f"{r['name']} {r['params']}: {i}")
        if not r["obligations"] and not r["inconclusive"]:
            errors.append(f"{r['name']}: vacuous, no obligation reached")
        if not r["witness"] and not r["fails"] and not r["inconclusive"]:
            errors.append(f"{r['name']} {r['params']}: no reachability witness")
    wall = time.time() - t0
    write_evidence(pid, tier, seed, stats, results, wall, violation, errors, meta or {})
    if violation:
        case, o, x = violation
        d = os.path.join(ROOT, "out")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"replay-{pid}.json")
        json.dump(dict(case, property=pid, observed=o["mismatches"][:5] or o["error"]), open(path, "w"), indent=1)
        print(f"{pid}: {case['scenario']} {case['params']}: {x['why']}")
        for m in o["mismatches"][:3]:
            print("   real code:", m[0], "-", m[1])
        if o["error"]:
            print("   real code raised", o["error"]["type"], o["error"]["msg"])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    for e in errors[:12]:
        print(f"UNDECIDED {pid}: {e}")
    part = sum(1 for r in results if r.get("partial"))
    what = (f"{len(results)} scenarios, {stats.paths} paths, {stats.obligations} obligations, {stats.discharged} discharged, "
            f"{stats.queries} queries ({stats.solver_s:.1f} s solver), {stats.validated} paths replayed"
            f"{f', {part} scenarios only partly explored' if part else ''}, {wall:.1f} s")
    if not stats.discharged:
        print(f"{pid}: no answer; {what}")
        return 2
    print(f"{pid}: held{' on everything decided' if errors else ''}; {what}")
    return 0


def confirm(r, errors):
    """Replay the counterexamples of one scenario on the real code."""
    fails = r["fails"][:12]
    outs = replay_batch([case_of(r, f) for f in fails])
    why = ""
    for f, o in zip(fails, outs):
        real = [m for m in o["mismatches"] if m[2] > o.get("spec_noise", 0.0)]
        if real or (o["error"] and o["error"]["in_code"]):
            f["confirmed"] = True
            return case_of(r, f), o, f
        if o["error"]:
            why = f"; replay raised {o['error']['type']}: {o['error']['msg']}"
    errors.append(f"{r['name']} {r['params']}: refuted symbolically ({fails[0]['labels']}: {fails[0]['why']}) "
                  f"but no candidate reproduces on the real code{why}")
    return None


def validate(results, stats, errors):
    """Run one concrete input per explored path on the real package and compare
    with what the encoding predicts."""
    cases, tags = [], []
    for r in results:
        for w in r["witness"]:
            if not w["failed"]:
                cases.append(case_of(r, w))
                tags.append((r, w))
    violation = None
    for (r, w), case, o in zip(tags, cases, replay_batch(cases)):
        where = f"{r['name']} {r['params']}"
        if o["error"]:
            if o["error"]["in_code"]:
                violation = violation or (case, o, {"why": "raises on the path's witness input"})
            else:
                errors.append(f"witness of {where} raised in the harness: {o['error']['type']}: {o['error']['msg']}")
            continue
        stats.worst = max(stats.worst, o["worst"])
        if o["mismatches"]:
            if any(m[2] > max(ROUNDING, o.get("noise", 0.0), o.get("spec_noise", 0.0)) for m in o["mismatches"]):
                violation = violation or (case, o, {"why": "fails on the path's witness input"})
            else:
                stats.rounding += 1  # exact arithmetic holds; outside the claim
            continue
        dis = disagree(w["predicted"], o["outputs"])
        if dis:
            errors.append(f"encoding disagrees with the real run in {where}: {dis}")
        else:
            stats.validated += 1
    return violation


def disagree(pred, outs):
    """Predicted (exact) values against what the real run produced."""
    for label, vals in outs.items():
        for i, v in enumerate(vals):
            p = pred.get(f"{label}#{i}")
            if p is None:
                continue
            if (p != p) != (v != v):
                return f"{label}#{i}: predicted {p}, real {v}"
            if p == p and abs(p - v) > 1e-6 * (1 + max(abs(p), max((abs(q) for q in vals if q == q), default=0))):
                return f"{label}#{i}: predicted {p}, real {v}"
    return None


def write_evidence(pid, tier, seed, stats, results, wall, violation, errors, meta):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    samples = []
    for r in results:
        if r["witness"] and len(samples) < 3:
            w = r["witness"][0]
            samples.append({"scenario": r["name"], "params": r["params"],
                            "witness_input": {k: (v if isinstance(v, bool) else str(v)) for k, v in list(w["values"].items())[:12]},
                            "predicted_output": dict(list(w["predicted"].items())[:6])})
    cov = {
        "states": stats.nodes,
        "transitions": stats.api_calls + stats.decisions,
        "traces_validated_against_impl": stats.validated,
        "samples": samples or [{"note": "no witness in this run"}],
        "meaning": "states: distinct symbolic terms (values) built while executing the code and the specification; "
                   "transitions: calls into kalmankit functions executed symbolically plus symbolic branch decisions; "
                   "traces: explored paths whose concrete witness was run on the real package and agreed with the encoding",
        "functions_encoded": stats.functions,
        "paths": stats.paths,
        "obligations": stats.obligations,
        "discharged": stats.discharged,
        "queries": {"total": stats.queries, "unsat": stats.unsat, "sat": stats.sat, "unknown": stats.unknown},
        "equivalence_lemmas": stats.lemmas,
        "solver": "z3 " + z3.get_version_string(),
        "solver_s": round(stats.solver_s, 3),
        "assumed_nonzero_denominators": stats.assumed_nonzero,
        "bounds": [{"scenario": r["name"], "params": r["params"], "paths": r["paths"], "s": round(r["t"], 2), **({"partial": r["partial"]} if r.get("partial") else {})} for r in results],
        "largest_rounding_error_seen": stats.worst,
        "witnesses_off_by_rounding_only": stats.rounding,
        "outside": meta.get("outside", ""),
        "undecided": errors[:20],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": meta.get("assumptions", []), "wall_s": round(wall, 3), "violations": 1 if violation else 0}
    json.dump(ev, open(os.path.join(d, f"{pid}.json"), "w"), indent=1)
