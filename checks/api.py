"""Properties of the C API which hold for every source in every language, decided by monitors over
a systematic sweep and a coverage-guided fuzzing workload."""
import fuzzcheck

RULE = ("cases: every prefix, suffix, one-byte deletion and fragment insertion (sampled) of the repository's fixture sources and of "
        "the committed corpus, plus coverage-guided libFuzzer mutations with a dictionary from the current sources, for all 25 languages "
        "and all flag sets; non-trivial and distinct: executions with a token-type sequence not seen before in the same process")

def _run(chk, mons, quick_keep, quick_runs, variant="asan_fz"):
    chk.cov["rule"] = RULE
    if chk.thorough:
        t = fuzzcheck.run_fuzz(chk, mons, variant, runs=quick_runs * 25, keep=1, sweep_shards=2)
    else:
        # the same number of sweep cases for every language, however large its seeds are
        t = fuzzcheck.run_fuzz(chk, mons, variant, runs=quick_runs, keep=lambda l, n: min(1, quick_keep / (75.0 * max(n, 1))))
    chk.add_distinct(t.get("distinct_shapes", 0))
    chk.sample({"monitors": mons, "observed": {k: t.get(k) for k in ("library_runs", "tokens", "token_flushes", "text_flushes", "multibyte", "bad_text", "coalesced_merges")}})
    for l, v in list(chk.cov["per_language"][variant].items())[:4]:
        chk.sample({l: v})
    return t

def c01(chk):
    chk.assumptions = ["AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions report every violation they are exposed to"]
    _run(chk, "safety", 9000, 5000)
    _run(chk, "safety", 4000, 2000, variant="asan_ndebug_fz")

def c02(chk):
    _run(chk, "stream", 30000, 20000, variant="fz")

def c03(chk):
    _run(chk, "utf8", 16000, 10000, variant="fz")

def c04(chk):
    _run(chk, "status", 20000, 14000, variant="fz")

def c05(chk):
    _run(chk, "html", 12000, 8000, variant="fz")

def c06(chk):
    _run(chk, "buffer", 2500, 1500, variant="fz")

def c08(chk):
    _run(chk, "coalesce", 12000, 8000, variant="fz")
