#!/usr/bin/env python3
"""seed.py FILE...: each FILE defines ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO; make /verif/seeded/<ID>, confirming it."""
import json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SEED_REPO", "/repo")
VP = os.environ.get("SEED_VP", "/opt/vp")


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def build():
    return sh("bash %s/build.sh" % VP)


for fn in sys.argv[1:]:
    d = {}
    exec(open(fn).read(), d)
    out = os.path.join(VERIF, "seeded", d["ID"])
    assert sh("git -C %s status --porcelain" % REPO).stdout == "", "repo not clean"
    try:
        for f, a, b in d["EDITS"]:
            p = os.path.join(REPO, f)
            t = open(p, encoding="latin-1").read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open(p, "w", encoding="latin-1").write(t.replace(a, b))
        diff = sh("git -C %s diff" % REPO).stdout
        os.makedirs(out, exist_ok=True)
        for x in ("icbdemo.py", "vtime.c"):
            shutil.copy(os.path.join(VERIF, "tools/demo", x), out)
        open(out + "/patch.diff", "w", encoding="utf-8").write(diff)
        open(out + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom icbdemo import *\n" + d["DEMO"])
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 200 python3 "$(dirname "$0")/demo.py"\n')
        json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        b = build()
        if b.returncode:
            print(d["ID"], "DOES NOT BUILD", b.stdout[-800:])
            continue
        sh("bash %s/test.sh /tmp/seed.json" % VP)
        r = json.load(open("/tmp/seed.json"))
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        miss = stable - set(r["passed"])
        bad = sh("bash %s/demo.sh" % out, cwd=REPO)
        print(d["ID"], "stable tests lost:", sorted(miss)[:3], "| demo with patch rc=%d %s" % (bad.returncode, bad.stdout.strip()[-200:]))
    finally:
        sh("git -C %s checkout -- ." % REPO)
    build()
    g = sh("bash %s/demo.sh" % out, cwd=REPO)
    print(d["ID"], "demo without patch rc=%d %s" % (g.returncode, g.stdout.strip()[-300:]))
