#!/usr/bin/env python3
"""Authoring aid: newbug.py ID PROP FILE <<< json {"edits":[[old,new],...], "needs":..., "breaks":..., "demo": C++ main body}"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Compiles demo.cpp against the library built in /repo/_build and runs it in a scratch directory.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
R="$PWD"
g++ -std=c++14 -g -w -DNOMINMAX -D_USE_MATH_DEFINES -DGC_HAVE_SUITESPARSE -I"$R/include" -I/usr/include/eigen3 -I/usr/include/suitesparse \
  -I"$R/deps/nanort/include" -I"$R/_build/lib/deps/include" "$D/demo.cpp" -o "$T/demo" "$R/_build/lib/libgeometry-central.a" \
  -lspqr -lcholmod -lccolamd -lcamd -lcolamd -lamd -lumfpack -lsuitesparseconfig -llapack -lblas -lpthread -Wl,--unresolved-symbols=ignore-all || exit 2
cd "$T" && timeout 120 ./demo
'''
def make(b):
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    for f, old, new in b["edits"]:
        p = "/repo/" + f
        s = open(p).read()
        if s.count(old) != 1:
            subprocess.run("git -C /repo checkout -- .", shell=True)
            sys.exit("%s: %r occurs %d times" % (b["id"], old, s.count(old)))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output("git -C /repo diff", shell=True, text=True)
    open(d + "/patch.diff", "w").write(diff)
    subprocess.run("git -C /repo checkout -- .", shell=True)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(b["demo"])
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns["BUGS"]:
    if len(sys.argv) < 3 or b["id"] in sys.argv[2:]:
        make(b)
        print("made", b["id"])
