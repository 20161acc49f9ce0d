#!/usr/bin/env python3
"""usage: mkseed.py SPEC.py [ID...]   make and confirm planted bugs in a scratch copy

SPEC.py defines SEEDS = [dict(id, property, file, old, new, needs, breaks, demo)]
(file/old/new may be lists of equal length for several sites)."""
import json
import os
import shutil
import subprocess
import sys

V = "/verif"


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for s in ns["SEEDS"]:
        if want and s["id"] not in want:
            continue
        copy = "/tmp/seedw/repo"
        shutil.rmtree(copy, ignore_errors=True)
        shutil.copytree("/repo", copy, symlinks=True)
        sd = "/tmp/seedw/demo"
        shutil.rmtree(sd, ignore_errors=True)
        os.makedirs(sd)
        open(sd + "/demo.py", "w").write(s["demo"])
        open(sd + "/demo.sh", "w").write('#!/bin/bash\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        r0 = run(["bash", sd + "/demo.sh"], cwd=copy, timeout=300)
        files = s["file"] if isinstance(s["file"], list) else [s["file"]]
        olds = s["old"] if isinstance(s["old"], list) else [s["old"]]
        news = s["new"] if isinstance(s["new"], list) else [s["new"]]
        if len(files) == 1:
            files = files * len(olds)
        ok = True
        for f, o, n in zip(files, olds, news):
            p = os.path.join(copy, f)
            t = open(p).read()
            if t.count(o) != 1:
                print(s["id"], "text occurs", t.count(o), "times:", o[:60])
                ok = False
                break
            open(p, "w").write(t.replace(o, n))
        if not ok:
            continue
        r1 = run(["bash", sd + "/demo.sh"], cwd=copy, timeout=300)
        tst = open("/opt/vp/test.sh").read()
        env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
        t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-rA", "freegs"], cwd=copy, env=env, timeout=600)
        passed = {l.split()[1].replace("/", ".").replace(".py::", "::") for l in t.stdout.splitlines() if l.startswith("PASSED")}
        missing = [x for x in stable if x not in passed]
        good = r0.returncode == 0 and r1.returncode != 0 and not missing
        print(s["id"], "demo clean", r0.returncode, "with", r1.returncode, "missing tests", missing[:3], "OK" if good else "REJECTED")
        if r0.returncode:
            print(r0.stdout[-600:], r0.stderr[-1500:])
        if not good:
            continue
        d = run(["git", "diff"], cwd=copy).stdout
        out = "%s/seeded/%s" % (V, s["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(d)
        shutil.copy(sd + "/demo.py", out)
        shutil.copy(sd + "/demo.sh", out)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
        if "--nocheck" in sys.argv:
            continue
        c = run(["python3", V + "/check.py", s["property"]], env=dict(os.environ, PV_REPO=copy), timeout=1000)
        print("   check:", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l or "discharged" in l][:4])


main()
