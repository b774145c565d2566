"""C27: buffers and function references."""
import build, unit

def c27(chk):
    jobs = []
    for v in ("asan", "ndebug"):
        ex = build.program(v, "u_buf.cpp", with_library=False)
        jobs += [(v, ex, ["-", chk.seed, chk.tier, s], b"") for s in range(4)]
    st = unit.run(chk, jobs)
    chk.cov["evaluations"] = sum(st.values())
    chk.cov["rule"] = "random histories of operations on buffers of int, char8_t, a class and a move-only type, compared with a list model after every operation; every kind of callable through a function reference, with counted calls; distinct: operations (each in a history of its own)"
    chk.add_distinct(st.get("buffer_operations", 0) // 2)

def c22(chk):
    jobs = []
    for v, k in (("asan", 5), ("ndebug", 3)):
        ex = build.program(v, "u_parse.cpp", with_library=False, extra_sources=unit.sources("parse_utils.cpp"))
        for m in ("numbers", "escapes", "lines"):
            jobs += [(v, ex, [m, chk.seed, chk.tier, s + (8 if v == "ndebug" else 0), k], b"") for s in range(k)]
    st = unit.run(chk, jobs)
    chk.cov["evaluations"] = sum(st.get(k, 0) for k in ("numbers", "digits", "suffix_numbers", "literals", "escapes", "texts", "enclosed"))
    chk.cov["rule"] = "random options x assembled and random literals, digit runs, escapes of every type, texts of lines and enclosed spans, each in an allocation of exactly its size, against naive definitions; distinct: matches that are not empty"
    chk.add_distinct(sum(st.get(k, 0) for k in ("numbers_matched", "suffix_numbers_matched", "escapes_valid", "blank_lines")) // 2)

def c23(chk):
    jobs = []
    for v, k in (("asan", 4), ("ndebug", 4)):
        ex = build.program(v, "u_diff.cpp", with_library=False)
        jobs += [(v, ex, ["-", chk.seed, chk.tier, s + (0 if v == "asan" else 10)], b"") for s in range(k)]
    st = unit.run(chk, jobs)
    chk.cov["exhaustive_over"] = "all pairs of sequences of up to 5 elements out of two and up to 4 out of three"
    chk.cov["evaluations"] = st.get("scripts", 0) + st.get("printed", 0) + st.get("split", 0)
    chk.cov["rule"] = "edit scripts applied and counted against the longest common subsequence; printed diffs parsed and applied like a patch, their headers, context and gaps checked; distinct: scripts with changes and printed diffs"
    chk.add_distinct(st.get("scripts_changed", 0) + st.get("printed", 0))
