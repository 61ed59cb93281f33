#!/usr/bin/env python3
"""mutate.py OUT.jsonl SEED N file:check,check [...]  - sampled source mutants, each run through the given quick checks
(first kill wins).  Run it from a copy of /verif; works on copies of /repo/include under /tmp/mutw.  Development aid:
survivors are read by hand; no registered check uses this."""
import json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mutw"
OPS = [
    (r"(?<=[\w\)\]] )\+(?= [\w\(])", "-"), (r"(?<=[\w\)\]] )-(?= [\w\(])", "+"), (r"(?<=[\w\)\]] )\*(?= [\w\(])", "+"),
    (r"(?<= )<(?= )", "<="), (r"(?<= )<=(?= )", "<"), (r"(?<= )>(?= )", ">="), (r"(?<= )>=(?= )", ">"),
    (r"(?<= )==(?= )", "!="), (r"(?<= )!=(?= )", "=="), (r"(?<= )&&(?= )", "||"), (r"(?<= )\|\|(?= )", "&&"),
    (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\bstart\b", "end"), (r"\bend\b(?!\()", "start"),
    (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "1"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\+\+(?=\w)", "--"), (r"<<(?= \w)", ">>"), (r">>(?= \w)", "<<"), (r"\+=", "-="), (r"-=", "+="), (r"\bcontinue;", ";"), (r"\bbreak;", ";"), (r"\blevel\b", "level + 1"), (r"\blevel - 1\b", "level"),
    (r"^(\s+)([\w\.\->\[\]\(\)]+(?: = |\()[^;{}]*;)\s*$", r"\1;"),
]
def sites(path):
    t = open(path).read().split("\n")
    out, mpi = [], 0
    for i, l in enumerate(t):
        s = l.strip()
        if s.startswith("#if") and "MPI" in s: mpi = 1
        if s.startswith("#else") or s.startswith("#endif"): mpi = 0
        if mpi or s.startswith(("//", "#", "*", "/*", "template", "using", "static_assert", "assert", "class", "struct", "namespace")) or "std::cerr" in s or "times::" in s: continue
        for k, (a, b) in enumerate(OPS):
            for m in re.finditer(a, l):
                n = l[:m.start()] + m.expand(b) + l[m.end():]
                if n != l: out.append((i, n))
    return t, out
def main():
    res, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rnd = random.Random(seed)
    todo = []
    for a in sys.argv[4:]:
        f, ch = a.split(":")
        t, s = sites("/repo/include/samurai/" + f)
        for i, l in rnd.sample(s, min(n, len(s))): todo.append((f, i, t[i], l, ch.split(",")))
    rnd.shuffle(todo)
    for f, i, old, new, ch in todo:
        d = W + "/m"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
        p = d + "/include/samurai/" + f
        t = open(p).read().split("\n")
        assert t[i] == old
        t[i] = new
        open(p, "w").write("\n".join(t))
        st, log = "survived", ""
        for c in ch:
            t0 = time.time()
            r = subprocess.run("SAMURAI_REPO=%s timeout 600 python3 %s/run.py %s --tier quick" % (d, V, c), shell=True, capture_output=True, text=True)
            o = r.stdout + r.stderr
            if r.returncode == 1 and "VIOLATION" in o:
                st = "killed " + c; break
            if r.returncode != 0:
                st = ("nocompile " if "error:" in o else "other%d " % r.returncode) + c; log = o[-400:]; break
        with open(res, "a") as h:
            h.write(json.dumps(dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), state=st, log=log, t=round(time.time() - t0))) + "\n")
    shutil.rmtree(W, ignore_errors=True)
main()
