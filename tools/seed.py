#!/usr/bin/env python3
"""Makes a planted bug from a Python description and confirms it in a scratch copy of /repo.
usage: seed.py FILE.py...   where FILE.py sets BUGS = [dict(id, prop, pkg, edits=[(file, old, new)], needs, breaks, test)]"""
import json, os, shutil, subprocess, sys, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs the Go test beside this file inside package %(pkg)s of the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
sed -E "s#^([[:space:]]*)(use[[:space:]]+)?(\\\\./)?src/#\\\\1\\\\2$repo/src/#" "$repo/go.work" > "$t/go.work"
cp "$repo/go.work.sum" "$t/go.work.sum"
dir="$repo/src/%(pkg)s"
# only the demonstration is run: the package's own tests are left out
{
  printf '{"Replace": {"%%s": "%%s"' "$dir/zz_demo_test.go" "$here/demo_test.go"
  for f in "$dir"/*_test.go; do [ -e "$f" ] && printf ', "%%s": ""' "$f"; done
  printf '}}'
} > "$t/overlay.json"
export GOWORK="$t/go.work" GOFLAGS= GOSUMDB=off GOTOOLCHAIN=local GOPROXY=off TMPDIR="$t" HOME="${HOME:-/root}"
cd "$t" && timeout 250 go test -count=1 %(flags)s -vet=off -overlay "$t/overlay.json" -run '^TestDemo' %(pkg)s
'''
STABLE = "common"

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)

def main():
    scratch = tempfile.mkdtemp(prefix="seed")
    repo = os.path.join(scratch, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        for f in sys.argv[1:]:
            for b in runpy.run_path(f)["BUGS"]:
                one(repo, b)
    finally:
        shutil.rmtree(scratch)

def one(repo, b):
    d = os.path.join(V, "seeded", b["id"])
    sh("git checkout -q -- . && git clean -qfd", repo)
    for file, old, new in b["edits"]:
        p = os.path.join(repo, "src", file)
        s = open(p).read()
        if s.count(old) < 1:
            print(b["id"], "TEXT NOT FOUND in", file, repr(old)[:80]); return
        open(p, "w").write(s.replace(old, new, 1))
    patch = sh("git diff", repo).stdout
    sh("git checkout -q -- .", repo)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.sh", "w").write(DEMO % dict(pkg=b["pkg"], flags=b.get("flags", "")))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo_test.go", "w").write(b["test"])
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    # lines removed must be original lines
    base = sh("git rev-list --max-parents=0 HEAD", repo).stdout.split()[0]
    for l in patch.splitlines():
        if l.startswith("-") and not l.startswith("---") and l[1:].strip():
            for file, _, _ in b["edits"]:
                orig = sh(f"git show {base}:src/{file}", repo).stdout
                if l[1:] in orig.splitlines(): break
            else:
                print(b["id"], "WARNING: line is not original:", l)
    c = sh(f"bash {d}/demo.sh", repo)
    if c.returncode != 0:
        print(b["id"], "DEMO FAILS ON CLEAN", c.stdout[-1500:], c.stderr[-1500:]); return
    a = sh(f"git apply {d}/patch.diff", repo)
    if a.returncode: print(b["id"], "PATCH", a.stderr); return
    env = dict(os.environ, GOFLAGS="", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off")
    w = tempfile.mkdtemp()
    sh(f"sed -E 's#^([[:space:]]*)(use[[:space:]]+)?(\\./)?src/#\\1\\2{repo}/src/#' {repo}/go.work > {w}/go.work; cp {repo}/go.work.sum {w}/", repo)
    env["GOWORK"] = w + "/go.work"
    c = sh("go build ./src/adminserver/... ./src/apiserver/... ./src/common/... ./src/metaserver/... ./src/objectserver/...", repo, env=env)
    if c.returncode: print(b["id"], "BUILD", c.stderr[-1500:])
    stable = json.load(open("/opt/vp/BASELINE.json"))
    c = sh("go test -count=1 -json ./src/common/... 2>&1", repo, env=env)
    failed = set()
    for l in c.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "fail" and e.get("Test"): failed.add(e["Test"])
    st = json.dumps(stable)
    bad = [t for t in failed if t in st]
    c = sh(f"bash {d}/demo.sh", repo)
    ok = c.returncode != 0 and "FAIL" in c.stdout + c.stderr and "build failed" not in c.stdout + c.stderr
    print(b["id"], "ok" if ok and not bad else "NOT OK", "demo rc", c.returncode, "stable tests failing:", bad)
    if not ok: print(c.stdout[-1500:], c.stderr[-800:])
    shutil.rmtree(w)
    sh("git checkout -q -- .", repo)

main()
