"""Runs unit harnesses (harness/unit.hpp) as processes and turns their reports into a verdict."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import build
from batch import run_process, describe
from core import Inconclusive

SRC = os.path.join(build.REPO, "src/main/cpp")
def sources(*names): return [os.path.join(SRC, n) for n in names]

def run(chk, jobs, workers=8):
    """jobs: (label, exe, args, stdin bytes). Adds failures, statistics and samples to chk."""
    with ThreadPoolExecutor(workers) as ex:
        hung = []
        def go(j):
            if hung: return None       # enough is known
            r = run_process(j[1], j[3], args=[str(a) for a in j[2]])
            if r[0] == -24: hung.append(j)
            return r
        res = list(ex.map(go, jobs))
    stats, lines = {}, []
    for (label, exe, args, _), got in zip(jobs, res):
        if got is None: continue
        rc, so, se = got
        out = so.decode("utf-8", "replace").splitlines()
        for l in out:
            if l.startswith("FAIL "):
                k, d = l[5:].split("|", 1)
                chk.violation(k, "[%s] %s" % (label, d), {"harness": os.path.basename(exe), "args": list(map(str, args)), "detail": d})
            elif l.startswith("STAT "):
                _, k, v = l.split(" ", 2)
                if not k.startswith("failed."): stats[k] = stats.get(k, 0) + int(v)
            elif l.startswith("SAMPLE "): chk.sample(l[7:])
            elif l != "DONE": lines.append(l)
        if rc != 0 or "DONE" not in out[-1:]:
            if rc == 2 and not se.strip(): raise Inconclusive("%s %s exits with 2" % (label, args))
            k, d = describe(rc, se)
            if k == "exit" and "error while loading" in se: raise Inconclusive(d)
            chk.violation("%s:%s" % (label.split(" ")[0], k), "[%s] %s" % (label, d), {"harness": os.path.basename(exe), "args": list(map(str, args)), "stderr": se[-3000:]})
    chk.cov["observed"] = {**chk.cov.get("observed", {}), **{k: chk.cov.get("observed", {}).get(k, 0) + v for k, v in stats.items()}}
    chk.lines = lines
    return stats
