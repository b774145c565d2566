"""C19-C21: text primitives against independent definitions."""
import os, unicodedata
import build, unit

def exe(variant, extra=()):
    return build.program(variant, "u_text.cpp", extra=extra, with_library=False, extra_sources=unit.sources("chars.cpp"))

def shards(chk, label, ex, mode, n, data=b""):
    return [(label, ex, [mode, chk.seed, chk.tier, s, n], data) for s in range(n)]

def c19(chk):
    asan, fast = exe("asan"), exe("ndebug")
    jobs = shards(chk, "portable", fast, "utf8", 8) + shards(chk, "asan", asan, "views", 8)
    if "bmi2" in open("/proc/cpuinfo").read():
        bmi = exe("ndebug", ["-mbmi2"])
        jobs += shards(chk, "bmi2", bmi, "utf8", 8)
        chk.cov["cpu_paths"] = ["portable", "bmi2"]
    else: chk.cov["cpu_paths"] = ["portable"]
    st = unit.run(chk, jobs)
    chk.cov["exhaustive_over"] = ("all 2^32 four-byte arrays" if chk.thorough else "all first and second bytes with 32 third and fourth bytes each") + "; all one- and two-byte views; all scalar values"
    chk.cov["evaluations"] = sum(st.get(k, 0) for k in ("arrays", "views", "texts", "scalars"))
    chk.cov["rule"] = "every decoding and encoding function is called on each array, view, text and scalar value and compared to table 3-7; distinct non-trivial: arrays and views judged (each is a different byte sequence within a CPU path)"
    chk.add_distinct(st.get("arrays_wellformed", 0) // len(chk.cov["cpu_paths"]) + st.get("views", 0) // 2)

def database():
    b = bytearray(0x110000)
    for c in range(0x110000):
        ch = chr(c); cat = unicodedata.category(ch)
        f = 0
        if cat not in ("Cn", "Cs"): f |= 1
        if cat != "Cs":
            if ch != "_" and ch.isidentifier(): f |= 2
            if ("a" + ch).isidentifier(): f |= 4
        if cat == "Co": f |= 8
        if cat == "Cs": f |= 16
        if (c & 0xfffe) == 0xfffe or 0xfdd0 <= c <= 0xfdef: f |= 32
        b[c] = f
    return bytes(b)

def c20(chk):
    asan, fast = exe("asan"), exe("ndebug")
    db = database()
    st = unit.run(chk, shards(chk, "fast", fast, "classes", 4, db) + shards(chk, "asan", asan, "classes", 4, db))
    chk.cov["exhaustive_over"] = "all 1114112 code points for the predicates"
    chk.cov["evaluations"] = sum(st.values())
    chk.cov["rule"] = "predicates over all code points against Python's Unicode %s database (code points assigned there), searches over random texts, half of them ill-formed, against a decode-and-test loop; distinct: texts and code points" % unicodedata.unidata_version
    chk.add_distinct(st.get("code_points", 0) // 2 + st.get("searches", 0) // 6)

def c21(chk):
    asan = exe("asan")
    st = unit.run(chk, shards(chk, "asan", asan, "sets", 6) + shards(chk, "fast", exe("ndebug"), "sets", 2))
    chk.cov["exhaustive_over"] = "all 256 units and all code points below 0x11000 for predicates and case conversion; all ranges of Charset256"
    chk.cov["evaluations"] = sum(st.values())
    chk.cov["rule"] = "random histories of set operations on two sets, compared element by element with a bit set after each; searches and comparisons of random strings against naive loops; distinct: operations and searches"
    chk.add_distinct(st.get("charset_operations", 0) + st.get("ascii_searches", 0) // 9 + st.get("comparisons", 0))
