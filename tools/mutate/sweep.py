#!/usr/bin/env python3
"""sweep.py FILE... : mutation sweep. Each mutant of /repo/FILE is built in a copy which a private mount namespace
shows as /repo; the checks anchored in that file are run (reduced counts do not matter: they stop at the first failure).
Prints the mutants that compile and that no check catches. Nothing in /repo is touched."""
import json, os, subprocess, sys, tempfile, shutil, collections
from concurrent.futures import ThreadPoolExecutor
root = "/verif"
MAP = {}
for l in open(root + "/MANIFEST.json"): pass
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
def checks(f):
    over = os.environ.get("CHECKS")
    if over: return over.split(",")
    out = []
    for p in props:
        s = json.dumps(p)
        if f in s: out.append(p["id"])
    return out
J = int(os.environ.get("JOBS", "3"))
extra = os.environ.get("SWEEP_LINES")
def one(job):
    f, m, slot = job
    tmp = tempfile.mkdtemp(prefix="sweep-")
    try:
        subprocess.run(["cp", "-a", "/repo", tmp + "/r"], check=True)
        p = f"{tmp}/r/{f}"
        s = open(p, "rb").read()
        s = s[:m["off"]] + m["text"].encode() + s[m["end"]:]
        open(p, "wb").write(s)
        mod = tmp + "/r/nurbs" if f.startswith("nurbs/") else tmp + "/r"
        pkg = "." if f.startswith("nurbs/") else "./" + os.path.dirname(f)
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", VERIF_SEED="1", VERIF_TIER="quick")
        b = subprocess.run(["go", "build", pkg], cwd=mod, env=env, capture_output=True, text=True)
        if b.returncode: return job, "nobuild", ""
        os.makedirs(tmp + "/ev")
        cs = checks(f)
        line = "if [ -n \"$VCOPY\" ]; then mount --bind $VCOPY /verif; fi; mount --bind %s/r /repo && mkdir -p %s/v && mkdir -p /verif/evidence /verif/replay; mount --bind %s/ev /verif/evidence; mkdir -p %s/rep; mount --bind %s/rep /verif/replay; cd /verif; for c in %s; do timeout 300 ./check $c > %s/out 2>&1; rc=$?; if [ $rc != 0 ]; then echo $c $rc; tail -3 %s/out; exit 1; fi; done; exit 0" % (tmp, tmp, tmp, tmp, tmp, " ".join(cs), tmp, tmp)
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", line], env=env, capture_output=True, text=True)
        return job, "survived" if r.returncode == 0 else "killed", r.stdout[:300]
    finally:
        shutil.rmtree(tmp)
total = collections.Counter()
jobs = []
subprocess.run(["go", "build", "-o", "/tmp/mutate-bin", root + "/tools/mutate/main.go"], check=True, env=dict(os.environ, GOFLAGS="-mod=mod", GOWORK="off"))
for f in sys.argv[1:]:
    seen = set()
    for l in subprocess.run(["/tmp/mutate-bin", "/repo/" + f], capture_output=True, text=True, check=True).stdout.splitlines():
        m = json.loads(l)
        k = (m["off"], m["end"], m["text"])
        if k in seen: continue
        seen.add(k)
        jobs.append((f, m, 0))
print(len(jobs), "mutants", {f: checks(f) for f in sys.argv[1:]}, flush=True)
with ThreadPoolExecutor(J) as ex:
    for (f, m, _), res, out in ex.map(one, jobs):
        total[res] += 1
        if res == "survived" or res == "killed" and "VIOLATION" not in out:
            print(res, f"{f}:{m['line']}", m["what"].replace("\n", " "), out.replace("\n", " | "), flush=True)
print(dict(total))
