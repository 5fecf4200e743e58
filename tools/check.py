#!/usr/bin/env python3
"""check.py <property id> [extra harness args]: build from /repo's working tree, then search.

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough).
Exit 0: held on everything explored; 1: violation (a VIOLATION line was printed);
anything else: error of the check."""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
pid = sys.argv[1]
tier = os.environ.get("VERIF_TIER", "quick")
if tier not in ("quick", "thorough"):
    tier = "quick"
try:
    seed = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    seed = 1
harness = json.load(open(os.path.join(VERIF, "tools/harness_of.json")))[pid]
flavor = os.environ.get("VERIF_FLAVOR", "q" if tier == "quick" else "t")
os.environ["OMP_NUM_THREADS"] = os.environ["OPENBLAS_NUM_THREADS"] = "1"
for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS"):
    os.environ.pop(k, None)
t0 = time.time()
r = subprocess.run([sys.executable, os.path.join(VERIF, "tools/build.py"), "--flavor", flavor, harness])
if r.returncode:
    sys.exit(3)
print("built %s (%s) in %.1f s" % (harness, flavor, time.time() - t0), flush=True)
ev = os.path.join(VERIF, "evidence")
os.makedirs(ev, exist_ok=True)
args = [os.path.join(BUILD, flavor, "bin", harness), "--id", pid, "--tier", tier, "--seed", str(seed),
        "--evidence", os.path.join(ev, pid + ".json"), "--replay-dir", os.path.join(ev, "replays"),
        "--known", os.path.join(VERIF, "known_findings.txt")] + sys.argv[2:]
sys.exit(subprocess.run(args).returncode)
