#!/usr/bin/env python3
"""Authoring aid for planted bugs (no check uses it).
  plant.py ID...   for each: apply seeded/ID/patch.diff to /repo, build, stable tests, demo must fail, run the check of its
                   property; undo; rebuild; demo must pass."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def demo(i):
    return sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd="/repo", timeout=300).returncode
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base["stable"])
allok = True
for i in sys.argv[1:]:
    d = "%s/seeded/%s" % (V, i)
    meta = json.load(open(d + "/meta.json"))
    out = {"id": i}
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        print(i, "patch does not apply", r.stdout)
        continue
    try:
        b = sh("bash /opt/vp/build.sh")
        out["builds"] = b.returncode == 0
        if b.returncode:
            print(b.stdout[-1500:])
        sh("bash /opt/vp/test.sh /tmp/plant.json")
        t = json.load(open("/tmp/plant.json"))
        out["broken_tests"] = sorted(stable - set(t["passed"]))
        out["demo_with"] = demo(i)
        c = sh("python3 %s/tools/check.py %s" % (V, meta["property"]), env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        out["check_exit"] = c.returncode
        out["caught"] = c.returncode == 1 and ("VIOLATION property=" + meta["property"]) in c.stdout
        lines = [l for l in c.stdout.splitlines() if l.startswith(("FAILED", meta["property"]))]
        out["msg"] = " | ".join(lines)[:300]
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    out["demo_without"] = demo(i)
    ok = out["builds"] and not out["broken_tests"] and out["demo_with"] != 0 and out["demo_without"] == 0
    print("%s ok=%s caught=%s  %s" % (i, ok, out["caught"], json.dumps(out)))
