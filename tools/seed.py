#!/usr/bin/env python3
"""seed.py new <spec.py>   : writes seeded/<id>/ for every entry of the spec's SEEDS (id, property, edits, demo, needs, breaks)
   seed.py test <id>...    : build, stable tests, demo with and without the patch, and the property's check, on /repo itself"""
import sys, os, json, subprocess, re, shutil, tempfile
R = "/repo"; S = "/verif/seeded"
DEMO = '''#!/bin/bash
# run with cwd = the repository root, after its build
H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$D"' EXIT
L=$(find _build/src -name '*.a' | tr '\\n' ' ')
g++ -std=c++17 -O1 -w -fno-access-control -pthread -I. -Iinclude -Isrc -I/usr/include/ompl-1.5 -I/usr/include/eigen3 -Isrc/util/external/kdl_parser/include "$H/demo.cpp" -o "$D/demo" -Wl,--start-group $L -Wl,--end-group -lompl -lfcl -lccd -loctomap -lorocos-kdl -ltinyxml2 -lurdfdom_sensor -lurdfdom_model_state -lurdfdom_model -lurdfdom_world -lgmp -lmpfr -lboost_system -lboost_filesystem || exit 3
cd "$D" && timeout 250 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def new(f):
    ns = {}; exec(open(f).read(), ns)
    for s in ns["SEEDS"]:
        d = "%s/%s" % (S, s["id"]); os.makedirs(d, exist_ok=True)
        assert not sh("git -C /repo status --porcelain").stdout.strip()
        try:
            for file, old, new_ in s["edits"]:
                p = R + "/" + file; t = open(p).read()
                assert t.count(old) == 1, (s["id"], file, t.count(old), old)
                open(p, "w").write(t.replace(old, new_))
            df = sh("git -C /repo diff").stdout
        finally: sh("git -C /repo checkout -- .")
        open(d + "/patch.diff", "w").write(df)
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.cpp", "w").write("#include <cstdio>\n#include <cmath>\n#include <cstdlib>\n#include <vector>\n" + s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("wrote", s["id"])
# scratch copy of the repository with its own build (made once: see tools/seed.py prepare)
W = "/tmp/sr/repo"
def prepare():
    sh("mkdir -p /tmp/sr; test -d /tmp/sr/repo || cp -a /repo /tmp/sr/repo; rm -rf /tmp/sr/repo/_build; sed 's#/repo#/tmp/sr/repo#g' /opt/vp/build.sh > /tmp/sr/build.sh; sed 's#/repo#/tmp/sr/repo#g; s#/opt/vp/build.sh#/tmp/sr/build.sh#' /opt/vp/test.sh > /tmp/sr/test.sh; bash /tmp/sr/build.sh")
def stable():
    sh("bash /tmp/sr/test.sh /tmp/sr/o.json"); b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/sr/o.json"))
    return sorted(set(b["stable"]) - set(o["passed"]))
def test(i, check=True):
    d = "%s/%s" % (S, i); m = json.load(open(d + "/meta.json"))
    sh("git -C %s checkout -q -- .; git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD; bash /tmp/sr/build.sh" % (W, W, W))
    r0 = sh("bash %s/demo.sh" % d, cwd=W)
    a = sh("git -C %s apply %s/patch.diff" % (W, d)); assert a.returncode == 0, a.stderr
    miss = stable(); r1 = sh("bash %s/demo.sh" % d, cwd=W)
    c = None
    if check and os.path.exists("/verif/vc/specs/%s.py" % m["property"]): c = sh("VC_REPO=%s timeout 900 python3-vt check.py %s" % (W, m["property"]), cwd="/verif")
    sh("git -C %s checkout -q -- ." % W)
    v = [l for l in (c.stdout.split("\n") if c else []) if "VIOLATION" in l or "failing input" in l or "not accepted" in l]
    print("%s [%s]: demo clean=%s patched=%s; tests lost: %s; check rc=%s %s" % (i, m["property"], r0.returncode, r1.returncode, miss, c.returncode if c else "-", " | ".join(x[:230] for x in v)), flush=True)
    res = ("BAD" if r0.returncode or not r1.returncode or miss else "") or ("not run" if c is None else "caught, failing input" if c.returncode == 1 and "no-failing-input-found" not in c.stdout else "caught, failed obligation" if c.returncode == 1 else "missed (rc %d)" % c.returncode)
    try: R_ = json.load(open("/verif/tools/seed_results.json"))
    except Exception: R_ = {}
    R_[i] = res; json.dump(R_, open("/verif/tools/seed_results.json", "w"), indent=1, sort_keys=True)
    if r0.returncode or not r1.returncode or miss: print("   BAD demo:", (r0.stdout + r0.stderr)[-400:], "//", (r1.stdout + r1.stderr)[-300:], flush=True)
    if c and c.returncode != 1: print("   MISSED check:", c.stdout[-500:], c.stderr[-500:], flush=True)
if __name__ == "__main__":
    if sys.argv[1] == "new":
        for f in sys.argv[2:]: new(f)
    elif sys.argv[1] == "prepare": prepare()
    else:
        for i in sys.argv[2:]: test(i)
