#!/usr/bin/env python3
"""Decides one property: run.py C06 [--tier quick|thorough] [--case N] [--repo DIR]"""
import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable


def replay(module, repo, runs, timeout=20):
    """Runs inputs on the real code; list of outcomes."""
    import tempfile
    fd, p = tempfile.mkstemp(suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump({"module": module, "repo": repo, "runs": runs, "timeout": timeout}, f)
    try:
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = "0"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        r = subprocess.run([PY, os.path.join(HERE, "engine", "replay.py"), p], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=120 + 9 * timeout * len(runs))
        out = [json.loads(l) for l in r.stdout.decode().splitlines() if l.startswith("{")]
        if len(out) != len(runs):
            raise RuntimeError("replay died: " + r.stderr.decode()[-2000:])
        return out
    finally:
        os.unlink(p)


def worker(args):
    from engine import symrun
    return symrun.explore(*args)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", type=int)
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    modname = pid.lower()
    mod = importlib.import_module("checks." + modname)
    cases = list(mod.cases(tier))
    sel = list(enumerate(cases)) if a.case is None else [(a.case, cases[a.case])]
    budget = getattr(mod, "BUDGET", {}).get(tier) or (800 if tier == "quick" else 6 * 3600)
    opts = {"repo": a.repo, "seed": seed, "samples": getattr(mod, "SAMPLES", 3),
            "job_s": getattr(mod, "JOB_S", {}).get(tier) or budget, "path_s": getattr(mod, "PATH_S", 60)}
    results, violations, errors = [], [], []
    cov = {"dir": os.path.join(HERE, "evidence")}
    os.makedirs(os.path.join(cov["dir"], "replay"), exist_ok=True)
    validated = [0]

    queue = []
    known = load_known(pid)
    known_hit = {}

    def handle(r):
        """Confirms a job's findings on the real code."""
        results.append(r)
        todo = [("violation", v, r) for v in r["violations"]] + \
               [("inconclusive", v, r) for v in r["inconclusive"] if v.get("replay")]
        queue.extend([("sample", v, r) for v in r["samples"]])
        for v in r["inconclusive"]:
            if not v.get("replay"):
                errors.append("case %d: %s" % (r["case"], v["why"]))
        if todo:
            confirm(todo)

    def confirm(todo):
        runs = []
        for k, v, r in todo:
            d = {"case": r["params"], "inputs": v["inputs"]}
            if k == "sample" and v.get("exc") is None:
                d["obs"] = v["obs"]
            runs.append(d)
        for (k, v, r), out in zip(todo, replay(modname, a.repo, runs)):
            bad = out["status"] in ("fail", "exc")
            if k == "sample" and not bad:
                validated[0] += 1
                if out["status"] == "mismatch":
                    errors.append("case %d: encoding and code disagree: %s on %s" %
                                  (r["case"], out.get("why"), v["inputs"]))
                elif out["status"] != "ok":
                    errors.append("case %d: sample replay %s" % (r["case"], out))
            elif bad:
                violations.append({"case": r["case"], "params": r["params"], "inputs": v["inputs"],
                                   "label": v.get("label"), "outcome": out})
            else:
                errors.append("case %d: %s %s did not reproduce on the real code (%s): %s" % (
                    r["case"], k, v.get("label") or v.get("why"), out, v["inputs"]))

    ctx = multiprocessing.get_context("fork")
    nj = min(a.jobs, len(sel)) or 1
    timed_out = False
    ex = cf.ProcessPoolExecutor(max_workers=nj, mp_context=ctx)
    futs = {ex.submit(worker, (modname, c, i, opts)): i for i, c in sel}
    try:
        for f in cf.as_completed(futs, timeout=max(1, budget - (time.time() - t0))):
            r = f.result()
            handle(r)
            if a.v:
                print("case %d %s: %d paths %d stopped %d queries %.1fs solver %.1fs" % (
                    r["case"], r["params"], r["paths"], r["stopped"], r["queries"], r["solver_s"], r["wall_s"]))
                sys.stdout.flush()
            if violations and a.case is None:
                break
    except cf.TimeoutError:
        timed_out = True
        errors.append("time budget of %ds spent with %d of %d cases done" % (budget, len(results), len(sel)))
    finally:
        procs = list((ex._processes or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        if violations or timed_out:
            for p in procs:
                p.kill()

    if queue and not violations:
        chunk = (len(queue) + nj - 1) // nj
        import threading
        th = [threading.Thread(target=confirm, args=(queue[i:i + chunk],))
              for i in range(0, len(queue), chunk)]
        for t in th:
            t.start()
        for t in th:
            t.join()
    labels = {}
    for r in results:
        for l, n in r["labels"].items():
            labels[l] = labels.get(l, 0) + n
    if not violations and not errors:
        errors += ["case %d %s: vacuous, no path reaches its end" % (r["case"], r["params"])
                   for r in results if not r["paths"]]
    if not violations and not errors and a.case is None:
        missing = [l for l in getattr(mod, "LABELS", []) if not labels.get(l)]
        if missing or not labels:
            errors.append("vacuous: assertions never reached: %s" % missing)

    tot = lambda k: sum(r[k] for r in results)
    samples = []
    for r in results[:3]:
        for s in r["samples"][:2]:
            samples.append({"case": r["params"], "inputs": s["inputs"], "observed": s["obs"]})
    funcs = sorted(set(q for r in results for q in r.get("funcs", [])))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("branches"),
            "traces_validated_against_impl": validated[0],
            "samples": samples,
            "rule": "states: feasible execution paths of the real code explored to the end, each with its "
                    "path condition; transitions: branch decisions put to the solver; traces validated: "
                    "path models replayed on the untransformed code with equal observations",
            "exhaustive": not errors and not violations,
            "cases": len(results), "cases_total": len(cases),
            "solver_queries": tot("queries"), "solver_s": round(tot("solver_s"), 2),
            "assertions_discharged": tot("checks"), "assertions_by_label": labels,
            "paths_cut_by_assumptions": tot("stopped"),
            "rational_divisions": tot("inexact"),
            "functions_encoded": funcs,
            "bounds": mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
            "outside": getattr(mod, "OUTSIDE", ""),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    known_out = getattr(mod, "known_findings", None)
    unlisted = []
    for v in violations:
        k = match_known(known, v)
        if k is None:
            unlisted.append(v)
        else:
            known_hit[k["id"]] = k
    with open(os.path.join(cov["dir"], pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d cases, %d paths, %d branch decisions, %d queries (%.1fs solver), %d assertions, "
          "%d traces validated, %.1fs" % (pid, tier, len(results), tot("paths"), tot("branches"),
                                          tot("queries"), tot("solver_s"), tot("checks"), validated[0],
                                          time.time() - t0))
    for k in known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if unlisted:
        for n, v in enumerate(unlisted[:3]):
            p = os.path.join(cov["dir"], "replay", "%s-%d.json" % (pid, n))
            with open(p, "w") as f:
                json.dump({"module": modname, "repo": a.repo,
                           "runs": [{"case": v["params"], "inputs": v["inputs"]}],
                           "label": v["label"], "outcome": v["outcome"],
                           "how": "%s %s %s" % (PY, os.path.join(HERE, "engine", "replay.py"), p)}, f, indent=1)
            print("counterexample case %d %s inputs %s" % (v["case"], json.dumps(v["params"]), json.dumps(v["inputs"])))
            print("  on the real code: %s" % v["outcome"].get("why"))
            if a.v and v["outcome"].get("tb"):
                print(v["outcome"]["tb"])
            print("VIOLATION property=%s replay=%s" % (pid, p))
        sys.stdout.flush()
        os._exit(1)
    if errors:
        for e in errors[:10]:
            print("INCONCLUSIVE %s: %s" % (pid, e))
        sys.stdout.flush()
        os._exit(2)
    sys.stdout.flush()
    os._exit(0)


def load_known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == pid]


def match_known(known, v):
    return None


if __name__ == "__main__":
    main()
