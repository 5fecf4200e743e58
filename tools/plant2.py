#!/usr/bin/env python3
"""Authoring aid: like plant.py but in a scratch copy under /tmp/pr, so /repo stays usable meanwhile (no stable tests: vcheck runs them).
  plant2.py ID..."""
import json, os, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, B = "/tmp/pr", "/tmp/prb"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def sync():
    os.makedirs(P + "/_build/lib", exist_ok=True)
    for d in ("include", "src", "deps"):
        sh("rsync -a --delete /repo/%s/ %s/%s/" % (d, P, d))
    sh("rsync -a /repo/_build/lib/deps /repo/_build/lib/libgeometry-central.a %s/_build/lib/" % P)
FL = "-std=c++14 -g -w -DNOMINMAX -D_USE_MATH_DEFINES -DGC_HAVE_SUITESPARSE -Iinclude -I/usr/include/eigen3 -I/usr/include/suitesparse -Ideps/nanort/include -I_build/lib/deps/include"
def lib(files):
    for f in files:
        if f.endswith(".cpp"):
            o = "/tmp/pr/_build/" + os.path.basename(f) + ".o"
            r = sh("g++ %s -c %s -o %s && ar r _build/lib/libgeometry-central.a %s" % (FL, f, o, o), cwd=P)
            if r.returncode:
                print(r.stdout[-1500:])
                return False
    return True
def demo(i):
    return sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd=P, timeout=300).returncode
sync()
for i in sys.argv[1:]:
    d = "%s/seeded/%s" % (V, i)
    meta = json.load(open(d + "/meta.json"))
    out = {"id": i}
    files = [l[6:] for l in open(d + "/patch.diff").read().splitlines() if l.startswith("+++ b/")]
    out["demo_without"] = demo(i)
    r = sh("patch -p1 < %s/patch.diff" % d, cwd=P)
    if r.returncode:
        print(i, "patch does not apply", r.stdout)
        sync()
        continue
    out["builds"] = lib(files)
    out["demo_with"] = demo(i)
    c = sh("python3 %s/tools/check.py %s" % (V, meta["property"]),
           env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_REPO=P, VERIF_BUILD=B))
    out["check_exit"] = c.returncode
    out["caught"] = c.returncode == 1 and ("VIOLATION property=" + meta["property"]) in c.stdout
    out["msg"] = " | ".join(l for l in c.stdout.splitlines() if l.startswith(("FAILED", meta["property"])))[:300]
    if c.returncode not in (0, 1): out["msg"] = c.stdout[-500:]
    sh("patch -R -p1 < %s/patch.diff" % d, cwd=P)
    lib(files)
    ok = out["builds"] and out["demo_with"] != 0 and out["demo_without"] == 0
    print("%s ok=%s caught=%s  %s" % (i, ok, out["caught"], json.dumps(out)), flush=True)
