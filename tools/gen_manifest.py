"""Writes MANIFEST.json from the checks present."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
na = {}
p = os.path.join(ROOT, "tools", "not_applicable.json")
if os.path.exists(p):
    na = json.load(open(p))
checks, nal = [], []
for pr in props:
    i = pr["id"]
    f = os.path.join(ROOT, "checks", i.lower() + ".py")
    if i in na or not os.path.exists(f):
        nal.append({"property": i, "reason": na.get(i, "no check yet")})
        continue
    m = importlib.import_module("checks." + i.lower())
    b = m.BOUNDS if isinstance(m.BOUNDS, str) else m.BOUNDS["quick"]
    note = ("Bounded: every path of the real source within the bounds is decided by z3 over all input values "
            "(quick: %s). Outside: %s. Trusts the executor's models of Python numbers (exact rationals; inputs "
            "on dyadic grids), containers%s; sampled path models are replayed on the untransformed code with "
            "equal observations, every counterexample is replayed before it is reported." % (
                b, getattr(m, "OUTSIDE", "-"), getattr(m, "STUBS", "")))
    checks.append({"property": i,
                   "quick_cmd": "python3-vt run.py %s --tier quick" % i,
                   "thorough_cmd": "python3-vt run.py %s --tier thorough" % i,
                   "technique": "bounded symbolic execution of the Python source with z3 (all paths)",
                   "level": "model_checking", "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3-vt tools/selftest.py", "checks": checks,
           "not_applicable": nal,
           "notes": "No hooks in /repo. Harnesses in checks/, executor in engine/."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(nal), "not applicable")
