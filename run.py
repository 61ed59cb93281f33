#!/usr/bin/env python3
"""Driver of all checks: run.py <PROPERTY> [--tier quick|thorough]

Compiles the harness translation units of the property against the headers in
/repo's working tree, runs every shard of the enumeration in parallel, merges
the counts, replays every violation before reporting it, filters the listed
known findings, writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the check itself could not run (e.g. the harness does not compile)."""
import concurrent.futures as cf
import glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SAMURAI_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

NCPU = os.cpu_count() or 4
T0 = time.time()
BUDGET = {"quick": 840.0, "thorough": 5400.0}


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def sh_out(cmd):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True).stdout.split()
    except Exception:
        return []


def compile_tu(prop, tu, bdir, tier):
    src = os.path.join(VERIF, "harness", tu["src"])
    exe = os.path.join(bdir, tu["name"])
    inc = os.path.join(REPO, "include")
    if tu.get("drop_lines"):  # copy of the headers without the lines that match (see DESIGN.md, P01)
        inc2 = exe + ".inc"
        shutil.copytree(inc, inc2)
        rx = re.compile(tu["drop_lines"], re.M)
        for dp, _, fs in os.walk(inc2):
            for f in fs:
                p = os.path.join(dp, f)
                t = open(p, errors="replace").read()
                if rx.search(t):
                    open(p, "w").write("".join("\n" if rx.search(l) else l for l in t.splitlines(True)))
        inc = inc2
    cmd = [tu.get("cxx", "g++"), "-std=c++17", tu.get("opt", "-O1"), "-w", "-DFLUX_CONTAINER_xtensor"]
    cmd += ["-I" + os.path.join(VERIF, "harness", d) for d in tu.get("inc", [])]
    cmd += ["-I" + inc, "-I" + os.path.join(VERIF, "harness"),
           "-I" + os.path.join(VERIF, "harness", "shim")]
    cmd += ["-D%s" % d for d in tu.get("defs", [])]
    cmd += tu.get("flags", [])
    link = ["-lfmt", "-lpugixml"]
    if tu.get("petsc"):
        cmd += sh_out("pkg-config --cflags PETSc") + sh_out("mpicxx --showme:compile")
        link += sh_out("pkg-config --libs PETSc") + sh_out("mpicxx --showme:link")
    if tu.get("pre"):  # multi-file build: list of extra sources with own flags
        objs = []
        for i, (s, fl) in enumerate(tu["pre"]):
            o = exe + ".%d.o" % i
            c = [tu.get("cxx", "g++"), "-std=c++17", "-O1", "-w", "-I" + os.path.join(VERIF, "harness"), "-c",
                 os.path.join(VERIF, "harness", s), "-o", o] + fl
            r = subprocess.run(c, capture_output=True, text=True)
            if r.returncode != 0:
                return tu, None, r.stderr
            objs.append(o)
        r = subprocess.run(cmd + ["-c", src, "-o", exe + ".o"], capture_output=True, text=True)
        if r.returncode != 0:
            return tu, None, r.stderr
        r = subprocess.run([tu.get("cxx", "g++"), exe + ".o"] + objs + ["-o", exe] + link + tu.get("ldflags", []),
                           capture_output=True, text=True)
    else:
        r = subprocess.run(cmd + [src, "-o", exe] + link + tu.get("ldflags", []), capture_output=True, text=True)
    if r.returncode != 0:
        return tu, None, r.stderr
    return tu, exe, ""


def run_shard(exe, args, marker, timeout, env):
    try:
        r = subprocess.run([exe] + args, capture_output=True, text=True, timeout=timeout, env=env, errors="replace")
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return "timeout", "", ""


def read_marker(path):
    try:
        b = open(path, "rb").read()
        fam = b[:64].split(b"\0")[0].decode()
        (cid, serial) = struct.unpack("QQ", b[64:80])
        return fam, cid
    except Exception:
        return "?", 0


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in BUDGET:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = float(os.environ.get("VERIF_BUDGET", BUDGET[tier]))
    spec = CHECKS[prop]
    keep = os.environ.get("VERIF_KEEP")
    root = os.path.join(VERIF, "build")
    os.makedirs(root, exist_ok=True)
    bdir = tempfile.mkdtemp(prefix="%s-%s-" % (prop, tier), dir=root)
    env = dict(os.environ)
    env["OMP_NUM_THREADS"] = env.get("OMP_NUM_THREADS", "1")
    env["TMPDIR"] = bdir
    env["HOME"] = bdir
    code = 2
    try:
        code = body(prop, tier, seed, budget, spec, bdir, env)
    finally:
        if not keep:
            shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(code)


def body(prop, tier, seed, budget, spec, bdir, env):
    tus = [t for t in spec["tus"] if tier == "thorough" or not t.get("thorough_only")]
    log("property", prop, "tier", tier, "compiling", len(tus), "harness units against", REPO)
    exes = []
    pool_run = cf.ThreadPoolExecutor(max_workers=NCPU)
    with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
        for tu, exe, err in ex.map(lambda t: compile_tu(prop, t, bdir, tier), tus):
            if exe is None:
                print("ERROR: harness %s does not compile against the current tree:\n%s" % (tu["name"], err[-4000:]))
                return 2
            exes.append((tu, exe))
    log("compiled")
    jobs = []
    nsh_total = max(NCPU, 1)
    for tu, exe in exes:
        n = tu.get("shards", nsh_total)
        for s in range(n):
            jobs.append((tu, exe, s, n))
    deadline = max(30.0, budget - (time.time() - T0) - 60)

    def go(job):
        tu, exe, s, n = job
        base = "%s.%d" % (exe, s)
        rem = max(20.0, budget - (time.time() - T0) - 50)
        args = ["--property", prop, "--tier", tier, "--shard", str(s), "--nshards", str(n), "--seed", str(seed),
                "--out", base + ".out", "--marker", base + ".mark", "--deadline", "%.1f" % rem] + tu.get("args", [])
        rc, so, se = run_shard(exe, args, base + ".mark", rem + 45, env)
        return job, args, rc, so, se, base

    res = list(pool_run.map(go, jobs))
    log("ran", len(jobs), "shards")

    tot = dict(evaluations=0, transitions=0, nontrivial=0, skipped=0)
    outcomes = set()
    fams, rules, samples = {}, {}, []
    raw = []
    truncated = False
    crashed_incomplete = False
    for (tu, exe, s, n), args, rc, so, se, base in res:
        done = False
        if os.path.exists(base + ".out"):
            with open(base + ".out", errors="replace") as f:
                for line in f:
                    line = line.rstrip("\n")
                    k, _, v = line.partition(" ")
                    if k in tot:
                        tot[k] += int(v)
                    elif k == "o":
                        outcomes.add(v)
                    elif k == "truncated":
                        truncated |= v == "1"
                    elif k == "family":
                        a, b = v.split(" ")
                        fams[tu["name"] + "/" + a] = fams.get(tu["name"] + "/" + a, 0) + int(b)
                    elif k == "rule":
                        a, _, b = v.partition(" ")
                        rules[tu["name"] + "/" + a] = b
                    elif k == "sample":
                        if s == 0:
                            samples.append(tu["name"] + "/" + v)
                    elif k == "violation":
                        a, b, c, d = v.split(" ", 3)
                        raw.append(dict(tu=tu, exe=exe, family=a, id=int(b), sig=c, msg=d, kind="check", args=args))
                    elif k == "finding":
                        a, b, c, n_, d = v.split(" ", 4)
                        raw.append(dict(tu=tu, exe=exe, family=a, id=int(b), sig=c, msg=d, kind="check", args=args,
                                        count=int(n_)))
                    elif k == "done":
                        done = True
        if not done:
            if rc == "timeout":
                truncated = True
                log("shard truncated by time:", tu["name"], s)
                continue
            fam, cid = read_marker(base + ".mark")
            kind = "hang" if rc == 97 else "crash"
            raw.append(dict(tu=tu, exe=exe, family=fam, id=cid, sig=kind, kind=kind, args=args,
                            msg="%s (exit status %s) %s" % (kind, rc, (se or "")[-300:].replace("\n", ";"))))

    known = load_known(prop)
    reported, known_hit = [], {}
    seen = set()
    raw.sort(key=lambda r: (r["tu"]["name"], r["family"], r["id"]))
    for r in raw:
        key = "%s/%s" % (r["tu"]["name"], r["family"])
        kf = match_known(known, r)
        if kf is not None:
            known_hit.setdefault(kf["id"], [kf, 0])[1] += r.get("count", 1)
            continue
        if (key, r["sig"]) in seen or len(reported) >= 5:
            continue
        # replay before reporting
        ok, detail = replay(r, env)
        seen.add((key, r["sig"]))
        rp = write_replay(prop, tier, r, ok, detail)
        reported.append((r, rp))
    for kid, (kf, cnt) in sorted(known_hit.items()):
        print("KNOWN-FINDING: property=%s %s (%d cases) %s" % (prop, kid, cnt, kf["what"]))
    for r, rp in reported:
        print("  %s/%s:%d [%s] %s" % (r["tu"]["name"], r["family"], r["id"], r["sig"], r["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)

    write_evidence(prop, tier, seed, spec, tot, outcomes, fams, rules, samples, truncated, len(reported), known_hit)
    log("evaluations", tot["evaluations"], "transitions", tot["transitions"], "distinct outcomes", len(outcomes),
        "skipped", tot["skipped"], "truncated", truncated, "violations", len(reported))
    if reported:
        return 1
    if tot["evaluations"] == 0 or not outcomes:
        print("ERROR: vacuous run")
        return 2
    return 0


def replay(r, env):
    args = ["--replay", "%s:%d" % (r["family"], r["id"])] + [a for a in r["args"]]
    # drop out/marker/shard arguments
    a2, skip = [], False
    for a in args:
        if skip:
            skip = False
            continue
        if a in ("--out", "--marker", "--shard", "--nshards", "--deadline"):
            skip = True
            continue
        a2.append(a)
    try:
        p = subprocess.run([r["exe"]] + a2, capture_output=True, text=True, timeout=150, env=env, errors="replace")
        bad = p.returncode != 0
        return bad, (p.stdout[-3000:] + p.stderr[-500:])
    except subprocess.TimeoutExpired:
        return True, "replay timed out"


def write_replay(prop, tier, r, ok, detail):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s-%s-%d.json" % (prop, r["tu"]["name"], re.sub(r"[^A-Za-z0-9_.-]", "_", r["family"]), r["id"])
    path = os.path.join(d, name)
    json.dump(dict(property=prop, tier=tier, unit=r["tu"]["name"], family=r["family"], case=r["id"], signature=r["sig"],
                   message=r["msg"], reproduced_in_isolation=ok, replay_output=detail,
                   how="python3 /verif/replay.py %s" % path), open(path, "w"), indent=1)
    return path


def load_known(prop):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == prop and k.get("status", "known") == "known"]


def match_known(known, r):
    for k in known:
        if k.get("unit") and not re.fullmatch(k["unit"], r["tu"]["name"]):
            continue
        if not re.fullmatch(k["family"], r["family"]):
            continue
        if r["sig"] != k["signature"]:
            continue
        if "cases" in k and r["id"] not in k["cases"]:
            continue
        return k
    return None


def write_evidence(prop, tier, seed, spec, tot, outcomes, fams, rules, samples, truncated, nviol, known_hit):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    level = spec.get("level", "model_checking")
    cov = dict(
        states=len(outcomes) if not spec.get("states_are_cases") else tot["evaluations"],
        transitions=tot["transitions"] if tot["transitions"] else tot["evaluations"],
        traces_validated_against_impl=tot["evaluations"],
        evaluations=tot["evaluations"],
        distinct_nontrivial=len(outcomes),
        ids_not_denoting_legal_inputs=tot["skipped"],
        exhaustive=not truncated,
        rule="; ".join("%s: %s" % kv for kv in sorted(rules.items()))[:6000],
        samples=samples[:30],
        cases_per_family=fams,
        known_findings={k: v[1] for k, v in known_hit.items()},
        note="every case executes the real code compiled from /repo and compares with the reference model; "
             "states = distinct observed results (hash of the full observable result)",
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - T0, 2),
              violations=nviol, assumptions=spec.get("assumptions", []))
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    main()
