#!/usr/bin/env python3
"""Development tool (no check uses it).
plant.py new ID PROPERTY 'needs' 'breaks' FILE:::OLD:::NEW ... -- LANG:FLAGS:CAP:SOURCE ...
   makes seeded/ID from replacements in a scratch copy and a token demonstration from the sources
plant.py verify ID [CHECK-IDS...] : builds a patched copy, runs demo, tests and checks."""
import json, os, re, shutil, subprocess, sys, tempfile
V = "/verif"; S = V + "/seeded"; KIT = V + "/tools/seedkit"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **k)
def copy(d):
    os.makedirs(d)
    r = sh("cp -a /repo/. %s/ && rm -rf %s/_build" % (d, d)); assert r.returncode == 0, r.stderr
def verify(i, checks=None, tests=True):
    d = S + "/" + i
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="plant-", dir="/tmp"); repo = w + "/repo"
    try:
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        if r.returncode != 0: return print(i, "DEMO FAILS UNPATCHED", r.stdout[-1500:], r.stderr[-500:])
        copy(repo)
        r = sh("git apply %s/patch.diff" % d, cwd=repo)
        if r.returncode: return print(i, "PATCH DOES NOT APPLY", r.stderr)
        for f in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + f).read().replace("/repo", repo).replace("/opt/vp/build.sh", w + "/build.sh")
            open(w + "/" + f, "w").write(t)
        r = sh("bash %s/build.sh" % w)
        if r.returncode: return print(i, "BUILD FAILS", r.stdout[-2000:])
        r = sh("bash %s/demo.sh" % d, cwd=repo)
        print(i, "demo patched exit", r.returncode, r.stdout[:300].replace("\n", " | "))
        if r.returncode == 0: return print(i, "DEMO PASSES PATCHED")
        if tests:
            sh("bash %s/test.sh %s/out.json" % (w, w))
            o = json.load(open(w + "/out.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            miss = [t for t in base if t not in set(o["passed"])]
            print(i, "tests: passed", len(o["passed"]), "missing", miss[:4])
            if miss: return
        for c in checks if checks is not None else [meta["property"]]:
            r = sh("timeout 900 python3 check.py %s" % c, cwd=V, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1"))
            print(i, "CHECK", c, "exit", r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED", "|", r.stdout.strip().replace("\n", " | ")[:500], r.stderr[-300:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
CPP_DEMO = """#!/bin/bash
# Runs the program beside this script, which fails where the property is broken.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
g++-13 -std=c++23 -w %s -Iinclude "$D/demo.cpp" _build/libulight.a -o "$W/demo" || exit 2
cd "$W" && timeout 120 ./demo
"""
def new(i, prop, needs, breaks, repl, cases, cpp=None, sh_demo=None, cppflags=""):
    d = S + "/" + i
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix="plant-", dir="/tmp"); repo = w + "/repo"
    try:
        copy(repo)
        for r in repl:
            f, old, nw = r if isinstance(r, tuple) else r.split(":::")
            t = open(repo + "/" + f).read()
            assert t.count(old) == 1, (i, f, old, t.count(old))
            open(repo + "/" + f, "w").write(t.replace(old, nw))
        diff = sh("git diff", cwd=repo).stdout
        open(d + "/patch.diff", "w").write(diff)
        base = sh("git rev-list --max-parents=0 HEAD", cwd=repo).stdout.split()[0]
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:].strip():
                if not any(l[1:].strip() in x for x in [sh("git show %s:%s" % (base, (r if isinstance(r, tuple) else r.split(":::"))[0]), cwd=repo).stdout for r in repl]):
                    print(i, "NOT AN ORIGINAL LINE:", l)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if cpp: open(d + "/demo.cpp", "w").write(cpp); open(d + "/demo.sh", "w").write(CPP_DEMO % cppflags)
    if sh_demo: open(d + "/demo.sh", "w").write(sh_demo)
    if cases:
        shutil.copy(KIT + "/show.cpp", d); shutil.copy(KIT + "/demo_show.sh", d + "/demo.sh")
        exe = "/tmp/show-kit-%d" % os.getpid()
        r = sh("g++-13 -std=c++23 -w -I/repo/include %s/show.cpp /repo/_build/libulight.a -o %s" % (KIT, exe)); assert r.returncode == 0, r.stderr
        for n, c in enumerate(cases):
            lang, flags, cap, src = c.split(":", 3)
            src = src.encode().decode("unicode_escape").encode("latin-1") if "\\" in src else src.encode()
            b = d + "/case%d" % n
            open(b + ".src", "wb").write(src); open(b + ".args", "w").write("%s %s %s\n" % (lang, flags, cap))
            o = subprocess.run([exe, lang, flags, b + ".src"] + ([cap] if cap else []), capture_output=True).stdout
            open(b + ".want", "wb").write(o)
            print(o.decode())
if __name__ == "__main__":
    if sys.argv[1] == "verify": verify(sys.argv[2], sys.argv[3:] or None)
    else:
        a = sys.argv[2:]; k = a.index("--") if "--" in a else len(a)
        new(a[0], a[1], a[2], a[3], a[4:k], a[k + 1:]); verify(a[0])
