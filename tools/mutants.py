#!/usr/bin/env python3
"""Runs checks against small changes of a scratch copy of /repo to find blind spots.
usage: mutants.py COPY FILE.py [ID...]   FILE.py sets MUTS = [(prop, file under src, old, new), ...]"""
import os, re, subprocess, sys, runpy, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
copy, f, sel = sys.argv[1], sys.argv[2], sys.argv[3:]
for n, m in enumerate(runpy.run_path(f)["MUTS"]):
    prop, file, old, new = m[:4]
    nth = m[4] if len(m) > 4 else 1 # which occurrence
    if sel and str(n) not in sel and prop not in sel: continue
    subprocess.run("git checkout -q -- . && git clean -qfd", cwd=copy, shell=True)
    p = os.path.join(copy, "src", file); s = open(p).read()
    if s.count(old) < 1: print(n, prop, "TEXT NOT FOUND", old[:60].replace("\n", "|"), flush=True); continue
    parts = s.split(old)
    open(p, "w").write(old.join(parts[:nth]) + new + old.join(parts[nth:]))
    t = time.time()
    env = dict(os.environ, GOSYM_REPO=copy)
    r = subprocess.run(["timeout", "900", V + "/check", prop, "quick"], env=env, capture_output=True, text=True)
    vs = re.findall(r"VIOLATION property=\S+ replay=\S+/\S+?-(\w+)-", r.stdout)
    un = len(re.findall("UNCONFIRMED", r.stdout))
    le = "LOAD ERROR" if r.returncode not in (0, 1) else ""
    print(n, prop, file.split("/")[-1], "CAUGHT" if r.returncode == 1 else "no answer (does not compile?)" if r.returncode == 2 else "*** MISSED", "rc", r.returncode, "%.0fs" % (time.time() - t), sorted(set(vs)), "unconfirmed %d" % un if un else "", le, "|", old[:50].replace("\n", "|"), "->", new[:50].replace("\n", "|"), flush=True)
    if le: print(r.stdout[-300:], r.stderr[-300:])
subprocess.run("git checkout -q -- . && git clean -qfd", cwd=copy, shell=True)
