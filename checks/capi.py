"""C09-C12, C26: contracts of the C interface, and the C++ interface against it."""
import json, os, random, re, struct
import build, corpus, unit
from build import REPO

def exe(variant): return build.program(variant, "u_api.cpp")

def c09(chk):
    asan, plain = exe("asan"), exe("plain")
    st = unit.run(chk, [("asan", asan, ["params", chk.seed * 8 + s, chk.tier, 0, 1], b"") for s in range(4)]
                  + [("plain", plain, ["params", chk.seed * 8 + 4 + s, chk.tier, 0, 1, "w"], b"") for s in range(4)])
    chk.cov["evaluations"] = st.get("calls", 0)
    chk.cov["rule"] = "calls with each defect, each pair of defects and random sets of 12 defects, for tokens and HTML, all languages and flags, and (without UBSan) language values over the whole range of int; monitors: status, message, flush count, configuration unchanged; distinct: calls with at least one defect"
    chk.add_distinct(st.get("invalid_calls", 0))

def payload(chk, per_lang, max_len=600, heavy=()):
    r = random.Random(chk.seed)
    b = b""
    for l in corpus.LANGS:
        pool = [x for x in corpus.load_pack(l) + corpus.repo_seeds(l) if len(x) <= max_len]
        k = per_lang * (15 if l in heavy else 1)
        for x in r.sample(pool, min(k, len(pool))):
            b += struct.pack("<BBI", l, r.randrange(4), len(x)) + x
    return b

def nested_yaml(r):
    out = []
    for i in range(r.randrange(3, 40)):
        out.append("  " * r.randrange(0, i + 1) + r.choice(["k%d:" % i, "- a", "- k: v", "k: [a, {b: c}]", "? x", "- - y", "t: |", "&a k: *a"]))
    return "\n".join(out).encode()

def c10(chk):
    per = 60 if chk.thorough else 12
    data = payload(chk, per, heavy=(25,))  # YAML is the one language whose highlighter allocates at the time of writing
    for i in range(40):
        x = nested_yaml(random.Random(chk.seed * 100 + i))
        data += struct.pack("<BBI", 25, i % 4, len(x)) + x
    jobs = []
    for v in ("plain", "asan"):
        e = exe(v)
        jobs += [(v, e, ["alloc", chk.seed, chk.tier, s, 8], data) for s in range(8)]
    st = unit.run(chk, jobs)
    chk.cov["evaluations"] = st.get("injections", 0) + st.get("alloc_calls", 0)
    chk.cov["rule"] = "every operator new of the process goes through a monitor which fails the n-th (or the n-th and all later) allocations of a run and balances all blocks, their sizes and alignments; distinct: injections that were reached"
    chk.add_distinct(st.get("injections", 0) - st.get("not_reached", 0))

def readme_languages():
    """Rows '| name | short names | constant |' of the README's table of languages."""
    out = []
    for l in open(os.path.join(REPO, "README.md"), encoding="utf-8"):
        m = re.match(r"\|\s*([^|]+?)\s*\|\s*(`[^|]+`)\s*\|\s*`?(ULIGHT_LANG_\w+)`?[^|]*\|", l)
        if m: out.append((m.group(1), re.findall(r"`([^`]+)`", m.group(2)), m.group(3)))
    return out

def header_enum(prefix):
    t = open(os.path.join(REPO, "include/ulight/ulight.h"), encoding="utf-8").read()
    return [(m.group(1), int(m.group(2), 0)) for m in re.finditer(r"\b%s(\w+)\s*=\s*(0x[0-9a-fA-F]+|\d+)" % prefix, t)]

def c11(chk):
    st = unit.run(chk, [("asan", exe("asan"), ["langs", chk.seed, chk.tier, 0, 1], b""), ("plain", exe("plain"), ["langs", chk.seed + 1, chk.tier, 0, 1, "w"], b"")])
    table, display = {}, {}
    for l in chk.lines:
        a = l.split(" ", 2)
        if a[0] == "LANG": table[a[1]] = int(a[2])
        elif a[0] == "DISPLAY": display[int(a[1])] = a[2]
    enum = {"ULIGHT_LANG_" + k: v for k, v in header_enum("ULIGHT_LANG_")}
    rows = readme_languages()
    chk.cov["observed"]["readme_rows"] = len(rows)
    if table and rows:
        for disp, shorts, const in rows:
            v = enum.get(const)
            if v is None: continue
            for s in shorts:
                if table.get(s) != v:
                    chk.violation("readme:" + s, "the documentation lists %r as a name of %s, the lookup yields %r" % (s, const, table.get(s)), {"name": s})
            if not disp.startswith(display.get(v) or "?"):
                chk.violation("readme-display:" + const, "the documentation calls %s %r, the library %r" % (const, disp, display.get(v)), {"lang": v})
    chk.cov["evaluations"] = sum(st.get(k, 0) for k in ("lookups", "display_names"))
    chk.cov["rule"] = "every string of up to two bytes, every listed name with each single edit (any byte), prefixes, suffixes and case variants, random strings; all through both functions and both character types against the list; distinct: lookups"
    chk.add_distinct(st.get("lookups", 0) // 2)

SHELL = ("shell-",)
def c12(chk):
    st = unit.run(chk, [("asan", exe("asan"), ["types", chk.seed, chk.tier, 0, 1], b""), ("plain", exe("plain"), ["types", chk.seed, chk.tier, 0, 1, "w"], b"")])
    enum = {}
    for n, v in header_enum("ULIGHT_HL_"): enum.setdefault(v, []).append(n)
    names = {}
    for l in chk.lines:
        if l.startswith("TYPE "):
            _, v, lo, sh = ["" if x == "-" else x for x in l.split(" ")]
            names[int(v)] = (lo, sh)
    if not enum or not names: raise unit.Inconclusive("no types found")
    seen = {}
    for v in sorted(set(enum) | set(names)):
        lo, sh = names.get(v, ("", ""))
        what = "/".join(enum.get(v, ["?"]))
        def bad(key, d): chk.violation("%s:%s" % (key, v), "type %#x (%s), names %r and %r: %s" % (v, what, lo, sh, d), {"type": v, "long": lo, "short": sh})
        if v not in enum:
            if lo or sh: bad("unknown", "a value which is no type has a name")
            continue
        if v == 0: continue
        chk.case(("type", v))
        if not lo or not sh: bad("missing", "a name is missing"); continue
        for s in (lo, sh):
            if not re.fullmatch(r"[a-z0-9_-]+", s): bad("charset", "not made of lower-case letters, digits, '-' and '_'")
        for kind, s in (("long", lo), ("short", sh)):
            o = seen.setdefault((kind, s), v)
            if o != v: bad("duplicate", "the %s name is also that of %#x" % (kind, o))
        want = [n.lower().replace("_", "-") for n in enum[v]]
        want += [w.replace("shell-", "") for w in want]
        if lo not in want: bad("long", "the long name is not that of the constant")
    chk.cov["evaluations"] += st.get("types", 0)
    chk.cov["rule"] = "all 256 values (and wild ones without UBSan) through the C and C++ name functions; distinct: types"

def c26(chk):
    per = 80 if chk.thorough else 20
    data = payload(chk, per)
    jobs = []
    for v in ("asan", "plain"):
        e = exe(v)
        jobs += [(v, e, ["cpp", chk.seed * 4 + s, chk.tier, 0, 1], data) for s in range(4)]
    st = unit.run(chk, jobs)
    chk.cov["evaluations"] = st.get("runs", 0) + st.get("lookups", 0)
    chk.cov["rule"] = "random histories of setters, getters, runs and moves on a C++ state; each run repeated through the C interface on a fresh state; every getter compared after every operation; distinct: runs"
    chk.add_distinct(st.get("runs", 0))
