#!/usr/bin/env python3
"""seed.py make SPEC.py   - create seeded/<id> from a spec (edits + demo), in scratch clones
   seed.py verify ID [ID..] - confirm in a scratch clone: applies, builds, stable tests pass, demo 0/nonzero
   seed.py check ID [ID..]  - run the property's quick check on a scratch clone with the change (SAMURAI_REPO)
Scratch lives under /tmp/seedw and is removed afterwards."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedw"
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clone(name):
    d = os.path.join(W, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    r = sh("git clone -q /repo %s" % d)
    assert r.returncode == 0, r.stderr
    return d
def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        d = clone("mk")
        for f, a, b in s["edits"]:
            p = os.path.join(d, "include/samurai", f)
            t = open(p).read()
            if t.count(a) != 1:
                print(s["id"], "edit anchor occurs", t.count(a), "times:", a[:80]); return
            open(p, "w").write(t.replace(a, b))
        o = os.path.join(V, "seeded", s["id"])
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(sh("git -C %s diff" % d).stdout)
        open(o + "/demo.cpp", "w").write(s["demo"])
        fl = s.get("flags", "")
        ld = s.get("ld", "-lfmt -lpugixml")
        open(o + "/demo.sh", "w").write('''#!/bin/sh
# builds demo.cpp against the headers in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -DFLUX_CONTAINER_xtensor -I"$PWD/include" -I"$here/shim" %s "$here/demo.cpp" -o "$t/demo" %s > "$t/log" 2>&1 || { tail -5 "$t/log"; exit 4; }
cd "$t" && timeout 120 ./demo
''' % (fl, ld))
        os.chmod(o + "/demo.sh", 0o755)
        if s.get("shim"):
            shutil.copytree(V + "/harness/shim", o + "/shim", dirs_exist_ok=True)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(o + "/meta.json", "w"), indent=1)
        print("made", s["id"])
    shutil.rmtree(W + "/mk", ignore_errors=True)
def cmk(d):
    c = d + "/_cm"
    os.makedirs(c, exist_ok=True)
    t = open("/opt/vp/cmake/CMakeLists.txt").read().replace("set(REPO /repo)", "set(REPO %s)" % d)
    open(c + "/CMakeLists.txt", "w").write(t)
    return c
def verify(i):
    d = clone("v_" + i)
    o = os.path.join(V, "seeded", i)
    r0 = sh("sh %s/demo.sh" % o, cwd=d)
    a = sh("git -C %s apply %s/patch.diff" % (d, o))
    if a.returncode: return print(i, "patch does not apply", a.stderr)
    r1 = sh("sh %s/demo.sh" % o, cwd=d)
    c = cmk(d)
    b = sh("cmake -S %s -B %s/_b -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_CXX_FLAGS=-Wno-error -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest && ninja -C %s/_b -j8 -k 0" % (c, d, d))
    fails = []
    if b.returncode == 0:
        os.makedirs(d + "/_r", exist_ok=True)
        for t in open(d + "/_b/test_targets.txt").read().split():
            x = sh("RC_PARAMS=seed=1 timeout 300 %s/_b/tests/%s --gtest_output=xml:%s/_r/%s.xml" % (d, t, d, t), cwd=d + "/_r")
        sh("python3 /opt/vp/results.py %s/_o.json 'junit:%s/_r/*.xml'" % (d, d))
        res = json.load(open(d + "/_o.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = base["stable"]
        fails = [x for x in base if x not in res["passed"]]
    print(i, "demo clean", r0.returncode, "patched", r1.returncode, (r1.stdout + r1.stderr)[-160:].replace("\n", " | "), "build", b.returncode, "tests failing", fails[:3])
    if b.returncode: print(b.stdout[-1500:])
    shutil.rmtree(d, ignore_errors=True)
def check(i):
    d = clone("c_" + i)
    o = os.path.join(V, "seeded", i)
    prop = json.load(open(o + "/meta.json"))["property"]
    assert sh("git -C %s apply %s/patch.diff" % (d, o)).returncode == 0
    r = sh("SAMURAI_REPO=%s python3 %s/run.py %s --tier quick" % (d, V, prop))
    l = [x for x in r.stdout.split("\n") if "VIOLATION" in x or "[" in x[:40] and "/" in x]
    print(i, prop, "rc", r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED", "\n   ".join(x[:230] for x in l[-3:] if x.strip())[:460], r.stdout[-400:] if r.returncode == 2 else "")
    shutil.rmtree(d, ignore_errors=True)
cmd = sys.argv[1]
for a in sys.argv[2:]:
    {"make": make, "verify": verify, "check": check}[cmd](a)
