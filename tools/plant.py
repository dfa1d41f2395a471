#!/usr/bin/env python3
"""Development aid: make and confirm one planted bug.
  plant.py SPEC.py    SPEC defines: id, property, needs, breaks, edits=[(file, old, new)], demo (C++ text), sources=[globs], flags, shims(bool)
Confirms in a scratch copy: patch applies, build and stable tests pass, demo 0 without and nonzero with; then keeps it in seeded/<id>/."""
import sys, os, json, subprocess, shutil, tempfile, runpy
S = runpy.run_path(sys.argv[1]); REPO = os.environ.get("PLANT_REPO", "/repo"); V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); VP = os.environ.get("PLANT_VP", "/opt/vp") # PLANT_VP: build.sh and test.sh for another clone
D = os.path.join(V, "seeded", S["id"]); os.makedirs(D, exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if sh("git -C %s status --porcelain" % REPO).stdout.strip(): sys.exit("repo not clean")
try:
    for f, a, b in S["edits"]:
        p = os.path.join(REPO, f); t = open(p, newline="").read()
        if t.count(a) != 1: raise SystemExit("%s: %d matches of %r" % (f, t.count(a), a))
        open(p, "w", newline="").write(t.replace(a, b))
    d = sh("git -C %s diff" % REPO).stdout; open(D + "/patch.diff", "w").write(d)
finally: sh("git -C %s checkout -- ." % REPO)
open(D + "/demo.cpp", "w").write(S["demo"])
if S.get("shims", True):
    if os.path.exists(D + "/shims"): shutil.rmtree(D + "/shims")
    shutil.copytree(V + "/shims", D + "/shims")
open(D + "/demo.sh", "w").write('''#!/bin/bash
# exit 0 when the property holds on this input, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); R=$PWD
I=""; for d in $R/ecl_*/include; do I="$I -I$d"; done
g++ -std=c++14 -w -O1 -g %s -I"$D/shims" $I -isystem /usr/include/eigen3 "$D/demo.cpp" %s -o "$T/demo" -pthread -lrt || { echo "demo does not compile"; rmdir "$T"; exit 1; }
(cd "$T" && timeout 120 ./demo); rc=$?
unlink "$T/demo"; rmdir "$T" 2>/dev/null
exit $rc
''' % (S.get("flags", ""), " ".join("$R/" + s for s in S.get("sources", []))))
os.chmod(D + "/demo.sh", 0o755)
json.dump({"property": S["property"], "needs": S["needs"], "what_it_breaks": S["breaks"]}, open(D + "/meta.json", "w"), indent=1)
def demo(): return sh("timeout 200 bash %s/demo.sh" % D, cwd=REPO)
ok = True
r = demo(); print("clean demo:", r.returncode, r.stdout[-300:], r.stderr[-500:] if r.returncode else ""); ok &= r.returncode == 0
try:
    r = sh("git -C %s apply %s/patch.diff" % (REPO, D)); ok &= r.returncode == 0
    r = sh("bash %s/test.sh /tmp/plant.json" % VP); j = json.load(open("/tmp/plant.json")); base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    miss = base - set(j["passed"]); print("tests:", len(j["passed"]), "missing", miss); ok &= not miss
    r = demo(); print("patched demo:", r.returncode, (r.stdout + r.stderr)[-300:]); ok &= r.returncode != 0 and "demo does not compile" not in r.stdout
    if ok and "--nocheck" not in sys.argv:
        r = sh("python3 %s/run.py check %s" % (V, S["property"]), env=dict(os.environ, VERIF_SEED="1", VERIF_REPO=REPO)); print("check:", r.returncode, "\n".join(r.stdout.splitlines()[:4])[:900])
finally:
    sh("git -C %s checkout -- ." % REPO); sh("bash %s/build.sh" % VP)
print("OK" if ok else "NOT CONFIRMED", S["id"])
if not ok and "--keep" not in sys.argv: shutil.rmtree(D)
