"""The fuzzing workload behind the properties of the C API: a systematic sweep over the seeds and a
coverage-guided phase, for every language, with the monitors of harness/fz.cpp as the oracle."""
import json, os, re, shutil, struct, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import build, corpus
from core import Inconclusive

JOBS = os.cpu_count() or 8
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1:max_allocation_size_mb=2000:symbolize=1",
           "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}

def _write_list(path, items):
    with open(path, "wb") as f:
        for b in items:
            f.write(struct.pack("<I", len(b)) + b)

def classify(err):
    m = re.search(r"^MONITOR-VIOLATION key=(\S+) lang=\d+ detail=(.*)", err, re.M)
    if m:
        return m.group(1), m.group(2)[:1500]
    if "MONITOR-HANG" in err or re.search(r"libFuzzer: timeout", err):
        return "hang", "no result within the CPU limit"
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)([^\n]*)", err)
    r = re.search(r"runtime error: ([^\n]*)", err)
    frames = re.findall(r"#\d+ 0x\w+ in (\S+)[^\n]*?/(\w+\.[ch]pp):(\d+)", err)
    where = " <- ".join("%s (%s:%s)" % f for f in frames if f[1] not in ("fz.cpp", "mon.hpp"))[:500]
    if r:
        return "ub", "undefined behaviour: %s at %s" % (r.group(1), where)
    if m:
        if m.group(2) in ("deadly",):
            return "abort", err[-600:]
        return m.group(2), "%s: %s at %s" % (m.group(1), m.group(2), where)
    return None, err[-600:]

def run_fuzz(chk, mons, variant="asan_fz", langs=None, runs=None, keep=None, max_len=2048, sweep_shards=None, ndebug_key=""):
    exe = build.program(variant, "fz.cpp")
    langs = langs or list(range(1, 26))
    W = tempfile.mkdtemp(prefix="fz-", dir=os.environ.get("TMPDIR", "/tmp"))
    totals = {}
    per_lang = {}
    try:
        jobs = []
        for l in langs:
            seeds = corpus.repo_seeds(l)
            pack = corpus.load_pack(l)
            corpus.write_dict(l, W + "/dict%d" % l)
            _write_list(W + "/seeds%d" % l, seeds + pack)
            k = keep(l, sum(map(len, seeds + pack))) if callable(keep) else keep
            if k:
                n = sweep_shards or 1
                for i in range(n):
                    jobs.append(("sweep", l, i, n, k))
            if runs:
                jobs.append(("fuzz", l, 0, 1, runs))
        def go(job):
            kind, l, i, n, amount = job
            tag = "%s%d_%d" % (kind, l, i)
            stats, art = W + "/stats_" + tag, W + "/art_" + tag
            env = dict(os.environ, FZ_LANG=str(l), FZ_MON=mons, FZ_STATS=stats, FZ_DICT=W + "/dict%d" % l, FZ_ARTIFACT=art, **SAN_ENV)
            if kind == "sweep":
                env.update(FZ_SWEEP=W + "/seeds%d" % l, FZ_SHARD=str(i), FZ_SHARDS=str(n), FZ_SEED=str(chk.seed), FZ_KEEP=str(amount))
                cmd = [exe]
            else:
                d = W + "/c_%d" % l
                os.makedirs(d)
                for j, b in enumerate(corpus.repo_seeds(l) + corpus.load_pack(l)):
                    with open("%s/%d" % (d, j), "wb") as f:
                        f.write(bytes([j & 3]) + b)
                cmd = [exe, d, "-runs=%d" % amount, "-seed=%d" % (1 + chk.seed * 1000 + l), "-max_len=%d" % max_len, "-timeout=60",
                       "-rss_limit_mb=3500", "-artifact_prefix=%s_" % art, "-use_value_profile=%d" % (l % 2), "-print_final_stats=0", "-reload=0", "-verbosity=0"]
            p = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=W)
            err = p.stderr.decode("utf-8", "replace")
            st = json.load(open(stats)) if os.path.exists(stats) else {}
            if p.returncode == 0:
                return job, st, None
            key, detail = classify(err)
            b = b""
            if os.path.exists(art):
                b = open(art, "rb").read()
            else:
                for f in os.listdir(W):
                    if f.startswith("art_" + tag + "_") and not f.startswith("art_" + tag + "_slow"):
                        b = open(W + "/" + f, "rb").read()
            return job, st, (p.returncode, key, detail, b, err[-3000:])
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(go, jobs))
        hung = set()
        for job, st, bad in res:
            l = job[1]
            for k, v in st.items():
                totals[k] = totals.get(k, 0) + v
                per_lang.setdefault(corpus.LANGS[l], {})
                per_lang[corpus.LANGS[l]][k] = per_lang[corpus.LANGS[l]].get(k, 0) + v
            if bad:
                rc, key, detail, b, err = bad
                name = corpus.LANGS[l]
                if key == "hang" and l in hung: continue       # one confirmed hang of a language is enough
                # confirm on a fresh process; a hang must repeat on its own
                f = W + "/confirm"
                open(f, "wb").write(b)
                env = dict(os.environ, FZ_LANG=str(l), FZ_MON=mons, FZ_DICT=W + "/dict%d" % l, **SAN_ENV)
                env.pop("FZ_SWEEP", None)
                try:
                    p = subprocess.run(["prlimit", "--cpu=40:45", exe, "-timeout=100", f], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600)
                    rc2, err2 = p.returncode, p.stderr.decode("utf-8", "replace")
                except subprocess.TimeoutExpired:
                    rc2, err2 = -1, "MONITOR-HANG"
                if rc2 == 0:
                    raise Inconclusive("%s: %s did not repeat: %s %s" % (name, key, detail, err[-1500:]))
                k2, d2 = classify(err2)
                if rc2 < 0 and not k2:
                    if rc2 == -9: raise Inconclusive("a process was killed")
                    k2, d2 = "hang" if rc2 == -24 else "signal", "ended by signal %d" % -rc2
                k2 = k2 or key
                if k2 == "hang": hung.add(l)
                if not k2:
                    raise Inconclusive("%s: run failed with %d: %s" % (name, rc, err[-1500:]))
                chk.violation("%s:%s%s" % (name, k2, ndebug_key), d2 or detail, b)
        for k, v in totals.items():
            chk.cov[k] = chk.cov.get(k, 0) + v
        chk.cov["evaluations"] += totals.get("execs", 0)
        chk.cov.setdefault("per_language", {})[variant] = {k: {x: v[x] for x in ("execs", "tokens", "token_types", "type_bigrams", "distinct_shapes") if x in v} for k, v in per_lang.items()}
        return totals
    finally:
        shutil.rmtree(W, ignore_errors=True)
