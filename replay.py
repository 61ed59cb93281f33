#!/usr/bin/env python3
"""replay.py <replays/X.json>: rebuilds the harness unit against /repo and re-executes the single recorded case."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.argv, path = [sys.argv[0], "none"], sys.argv[1]
sys.path.insert(0, VERIF)
import run
r = json.load(open(path))
spec = run.CHECKS[r["property"]]
tu = next(t for t in spec["tus"] if t["name"] == r["unit"])
os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
bdir = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(VERIF, "build"))
try:
    _, exe, err = run.compile_tu(r["property"], tu, bdir, r["tier"])
    if exe is None:
        print(err)
        sys.exit(2)
    p = subprocess.run([exe, "--property", r["property"], "--tier", r["tier"], "--replay", "%s:%d" % (r["family"], r["case"])] + tu.get("args", []))
    print("reproduced" if p.returncode else "not reproduced")
    sys.exit(1 if p.returncode else 0)
finally:
    shutil.rmtree(bdir, ignore_errors=True)
