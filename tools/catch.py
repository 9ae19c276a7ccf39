"""Which checks catch which planted bugs: catch.py [--all-checks] [ID..] (on scratch copies of /repo under /tmp)."""
import json, os, subprocess, sys, shutil, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(ROOT + "/seeded"))
allc = "--all-checks" in sys.argv
checks = [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
for i in ids:
    d = tempfile.mkdtemp(prefix="catch_", dir="/tmp")
    r = d + "/repo"
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    if os.path.isdir("/repo/output") and not os.path.exists(r + "/output"):
        os.mkdir(r + "/output")
    a = subprocess.run(["git", "apply", "%s/seeded/%s/patch.diff" % (ROOT, i)], cwd=r)
    meta = json.load(open("%s/seeded/%s/meta.json" % (ROOT, i)))
    out = []
    for c in (checks if allc else [meta["property"]]):
        t = time.time()
        p = subprocess.run(["python3-vt", ROOT + "/run.py", c, "--tier", "quick", "--repo", r], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        v = "VIOLATION property=%s" % c in p.stdout
        if v or not allc or p.returncode:
            out.append("%s:%s(%ds)" % (c, "caught" if v and p.returncode == 1 else "rc%d" % p.returncode, time.time() - t))
    f = ROOT + "/tools/catches.json"
    res = json.load(open(f)) if os.path.exists(f) else {}
    res[i] = " ".join(x.split("(")[0] for x in out) or "missed"
    json.dump(res, open(f, "w"), indent=1, sort_keys=True)
    print(i, "apply=%d" % a.returncode, " ".join(out), flush=True)
    shutil.rmtree(d)
