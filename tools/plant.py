"""Confirms planted bugs: plant.py FILE.py [ID..]; FILE defines BUGS = {id: dict(property, file, edits=[(old,new)], needs, breaks, demo)}.

Each is applied to /repo (which must be clean), built, run through the stable tests and its demo, and undone;
the confirmed ones are written to /verif/seeded/<id>/."""
import json, os, re, subprocess, sys, shutil
R, OUT = "/repo", "/verif/seeded"
BASE = "9fd8aac"


def sh(cmd, cwd=R, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh("git checkout -q -- .")
    assert not sh("git status --porcelain").stdout.strip(), sh("git status --porcelain").stdout


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    only = sys.argv[2:]
    for bid, b in ns["BUGS"].items():
        if only and bid not in only or (not only and os.path.exists("%s/%s/meta.json" % (OUT, bid))):
            continue
        clean()
        d = "/tmp/plant_" + bid
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(d + "/demo.py", "w") as f:
            f.write("import os, sys, tempfile\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n" + b["demo"].strip() + "\n")
        with open(d + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                    'exec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d, timeout=300)
        if r0.returncode:
            print(bid, "DEMO FAILS UNPATCHED", r0.stdout[-1500:]); continue
        ok = True
        for ed in b["edits"]:
            fn, old, new = ed if len(ed) == 3 else (b["file"],) + tuple(ed)
            p = os.path.join(R, fn)
            s = open(p, newline="").read()
            if s.count(old) != 1:
                print(bid, "EDIT MATCHES %d TIMES: %r" % (s.count(old), old)); ok = False; break
            open(p, "w", newline="").write(s.replace(old, new))
        if not ok:
            clean(); continue
        diff = sh("git diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        # lines changed must be of the original repository
        mine = []
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh("git diff -U0").stdout, re.M):
            pass
        cur = None
        for line in sh("git diff -U0").stdout.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
            m = re.match(r"^@@ -(\d+)(?:,(\d+))? ", line)
            if m:
                n = int(m.group(2) or 1)
                for k in range(int(m.group(1)), int(m.group(1)) + n):
                    bl = sh("git blame -s -L %d,%d HEAD -- %s" % (k, k, cur)).stdout
                    if not sh("git merge-base --is-ancestor %s %s && echo y" % (bl.split()[0].lstrip("^"), BASE)).stdout.strip():
                        mine.append((cur, k, bl.strip()))
                if n == 0:
                    mine.append((cur, m.group(1), "pure addition"))
        r1 = sh("bash %s/demo.sh" % d, timeout=300)
        bb = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/plant_out.json")
        res = set(json.load(open("/tmp/plant_out.json"))["passed"]) if os.path.exists("/tmp/plant_out.json") else set()
        clean()
        miss = stable - res
        good = r1.returncode != 0 and bb.returncode == 0 and not miss
        print(bid, b["property"], "CONFIRMED" if good else "REJECTED demo=%d build=%d missing=%s" % (r1.returncode, bb.returncode, miss),
              "MY LINES: %s" % mine if mine else "", "|", (r1.stdout.strip().splitlines() or [""])[-1][:120], flush=True)
        if good:
            shutil.rmtree(OUT + "/" + bid, ignore_errors=True)
            shutil.copytree(d, OUT + "/" + bid)
        shutil.rmtree(d)


main()
