"""Writes DESIGN.md."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
out = [open(ROOT + "/tools/design_intro.md").read()]
catches = json.load(open(ROOT + "/tools/catches.json")) if os.path.exists(ROOT + "/tools/catches.json") else {}
known = json.load(open(ROOT + "/known_findings.json"))
metas = {}
for d in sorted(os.listdir(ROOT + "/seeded")):
    metas[d] = json.load(open("%s/seeded/%s/meta.json" % (ROOT, d)))
out.append("## Properties\n")
out.append("Cost is that of the quick tier on 8 cores. Oracle: the harness states the property directly over the inputs "
           "(for C18, C21, C23 to C26 it contains an independent, brute-force definition).\n")
for l in open(ROOT + "/properties.jsonl"):
    p = json.loads(l)
    m = importlib.import_module("checks." + p["id"].lower())
    ev = {}
    f = "%s/tools/costs.json" % ROOT
    if os.path.exists(f):
        ev = json.load(open(f)).get(p["id"], {})
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("* Code: " + ", ".join(sorted(set(x["where"] for x in p["anchors"]["mechanism"]))))
    out.append("* Asserted: " + ", ".join("`%s`" % x for x in m.LABELS))
    out.append("* Quick bounds: " + m.BOUNDS["quick"])
    out.append("* Thorough, beyond that: " + m.BOUNDS["thorough"])
    out.append("* Outside: " + m.OUTSIDE)
    if getattr(m, "STUBS", ""):
        out.append("* Models besides numbers and containers: " + m.STUBS.lstrip(", "))
    if ev:
        out.append("* Cost: " + ev)
    out.append("* Not reached by the tests because: " + p["why_tests_cant"])
    fixed = [x.split(" ", 2)[2] for x in known["fixed"] if "property=%s " % p["id"] in x]
    if fixed:
        out.append("* Defects found and repaired: " + "; ".join("%s (%s)" % (x.split(" ", 1)[1], x.split(" ", 1)[0]) for x in fixed))
    mine = [d for d in metas if metas[d]["property"] == p["id"]]
    if mine:
        out.append("* Planted bugs: " + ", ".join("%s (%s)" % (d, catches.get(d, "not run")) for d in mine))
    out.append("")
out.append("## Known findings\n")
out.append("\n".join("* " + json.dumps(x) for x in known["findings"]) or "None: every genuine defect that a check reported was small enough to repair (%d commits)." % len(known["fixed"]))
out.append("\n## Planted bugs\n")
out.append("`tools/plant.py` confirms one on /repo (stable tests pass, demonstration fails only with the change); "
           "`tools/catch.py` runs the checks on a clone with the patch.\n")
out.append("| id | property | breaks | needs | result |")
out.append("|---|---|---|---|---|")
for d, m in metas.items():
    c = lambda s: str(s).replace("|", "/").replace("\n", " ")
    out.append("| %s | %s | %s | %s | %s |" % (d, m["property"], c(m["what_it_breaks"]), c(m["needs"]), catches.get(d, "not run")))
open(ROOT + "/DESIGN.md", "w").write("\n".join(out) + "\n")
