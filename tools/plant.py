#!/usr/bin/env python3
"""plant.py [ID...]: writes /verif/seeded/<id> from tools/plants/*.py and confirms each planted change in a scratch copy:
applies, removes original lines only, builds, passes the stable tests, demo passes without and fails with it.
With --run also runs the property's check in /repo with the change applied (and undoes it)."""
import glob, json, os, re, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLANTS = []

def plant(id, prop, file, edits, needs, breaks, test, pkg=None, imports=(), module="."):
    """edits: list of (old, new) in file, or of (file, old, new). test: body of the demo test function."""
    PLANTS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, test=test,
                       pkg=pkg or os.path.dirname(file), imports=imports, module=module))

for f in sorted(glob.glob(os.path.join(root, "tools/plants/*.py"))):
    exec(open(f).read())

DEMO = '''#!/bin/bash
# Exit 0 where the property holds for the demonstration's input, nonzero otherwise. Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=$PATH:/usr/local/go/bin GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GONOSUMDB='*'
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
tar --exclude=./.git -cf - . | tar -C "$work" -xf - || exit 3
rm -f "$work"/@PKG@/*_test.go
cp "$here/demo.go.txt" "$work/@PKG@/zz_demo_test.go" || exit 3
cd "$work/@PKG@" && timeout 120 go test -vet=off -count=1 -timeout 60s -run '^TestDemo$' . >"$work/log" 2>&1
rc=$?
tail -n 12 "$work/log"
exit $rc
'''
PKGNAME = {"meshing": "mesh"}
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)

def base_lines(file):
    return set(sh(f"git show 1c01064:{file}", "/repo").stdout.split("\n"))

def build(p):
    d = os.path.join(root, "seeded", p["id"])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", tmp + "/r", "HEAD"])
        r = tmp + "/r"
        for e in p["edits"]:
            f, old, new = e if len(e) == 3 else (p["file"],) + tuple(e)
            s = open(f"{r}/{f}").read()
            if s.count(old) != 1:
                return f"edit matches {s.count(old)} times in {f}: {old!r}"
            open(f"{r}/{f}", "w").write(s.replace(old, new))
            removed = set(old.split("\n")) - set(new.split("\n"))
        fm = sh("gofmt -l " + " ".join({(e if len(e) == 3 else (p['file'],))[0] for e in p['edits']}), r).stdout
        diff = sh("git diff", r).stdout
        cur = None
        ok = False
        for l in diff.split("\n"):
            if l.startswith("--- a/"):
                cur = base_lines(l[6:])
            elif l.startswith("-") and not l.startswith("---") and l[1:].strip():
                if l[1:] in cur:
                    ok = True
                else:
                    print("   note: not an original line:", l)
        if not ok:
            return "removes no original line"
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO.replace("@PKG@", p["pkg"]))
        os.chmod(d + "/demo.sh", 0o755)
        imp = "".join(f'\t"{i}"\n' for i in ("testing",) + tuple(p["imports"]))
        helpers, body = p["test"] if isinstance(p["test"], tuple) else ("", p["test"])
        go = f'package {PKGNAME.get(p["pkg"], p["pkg"])}\n\nimport (\n{imp})\n\n{helpers}\nfunc TestDemo(t *testing.T) {{\n{body}\n}}\n'
        g = subprocess.run(["gofmt"], input=go, capture_output=True, text=True)
        if g.returncode:
            return "demo: " + g.stderr
        open(d + "/demo.go.txt", "w").write(g.stdout)
        json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/meta.json", "a").write("\n")
        # demo with and without
        with_ = sh(d + "/demo.sh", r)
        sh("git checkout -- .", r)
        without = sh(d + "/demo.sh", r)
        if without.returncode != 0:
            return "demo fails on the unchanged tree:\n" + without.stdout + without.stderr
        if with_.returncode == 0:
            return "demo passes with the change"
        if with_.returncode == 3 or "build failed" in with_.stdout or "setup failed" in with_.stdout:
            return "demo does not build:\n" + with_.stdout
        if fm: print("   gofmt:", fm)
        # build and stable tests
        return stable(d + "/patch.diff")
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", tmp + "/r"])
        shutil.rmtree(tmp, ignore_errors=True)

def stable(patch):
    if sh(f"git apply {patch}", "/repo").returncode:
        return "does not apply"
    try:
        b = sh("bash /opt/vp/build.sh", "/repo")
        if b.returncode:
            return "build: " + b.stdout + b.stderr
        sh("bash /opt/vp/test.sh /tmp/plant-out.json", "/repo")
        out = open("/tmp/plant-out.json").read()
        res = json.loads(out)
        passed = set(res.get("passed", [])) if isinstance(res.get("passed"), list) else {k for k, v in res.items() if v in ("pass", "passed", True)}
        if not STABLE <= passed:
            return "stable tests fail: " + str(STABLE - passed)
        return None
    finally:
        sh("git checkout -- .", "/repo")

def run(p, seeds=(1,)):
    d = os.path.join(root, "seeded", p["id"])
    if sh(f"git apply {d}/patch.diff", "/repo").returncode:
        return "does not apply"
    try:
        out = []
        for s in seeds:
            c = sh(f"VERIF_SEED={s} VERIF_TIER=quick ./check {p['prop']}", root)
            line = (c.stdout + c.stderr).strip().split("\n")
            out.append(f"rc={c.returncode} " + " ".join(line)[:260])
        return "\n      ".join(out)
    finally:
        sh("git checkout -- .", "/repo")

args = [a for a in sys.argv[1:] if not a.startswith("-")]
seeds = (1,) if "--seeds" not in sys.argv else (1, 2, 3)
bad = 0
assert sh("git status --porcelain", "/repo").stdout == "", "/repo is not clean"
for p in PLANTS:
    if args and p["id"] not in args:
        continue
    if "--only-run" not in sys.argv:
        e = build(p)
        if e:
            bad += 1
            print(f"{p['id']}: BAD {e}", flush=True)
            continue
    print(f"{p['id']} ({p['prop']}): ok" + (("\n      " + run(p, seeds)) if "--run" in sys.argv or "--only-run" in sys.argv else ""), flush=True)
sys.exit(bad > 0)
