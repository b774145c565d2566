"""C14: the amount of work. C15: deep nesting. Both on sources of repeated and nested fragments."""
import multiprocessing, os, random, struct, subprocess
import build, corpus
from core import Inconclusive

# openings (and closings) of nested constructs; each is tried in every language
NEST = [("(", ")"), ("[", "]"), ("{", "}"), ("<", ">"), ("((", "))"), ("[[", "]]"), ("{{", "}}"), ("{%", "%}"),
        ("/*", "*/"), ("(*", "*)"), ("\\*", "*\\"), ("<!--", "-->"), ("--[[", "]]"),
        ("\"${", "}\""), ("\"$(", ")\""), ("$(", ")"), ("$((", "))"), ("${", "}"), ("${a", "}"), ("${a:-", "}"), ("`${", "}`"), ("\"${\"", "\"}\""), ("\"", "\""), ("'", "'"), ("`", "`"), ("\"\"\"${", "}\"\"\""),
        ("f\"{", "}\""), ("f'{", "}'"), ("f\"{f'{", "}'}\""), ("{\"a\":", "}"), ("[1,", "]"), ("{a: ", "}"), ("{\"a\":[", "]}"), ("[{", "}]"), ("{a:[", "]}"), ("[/**/", "]"),
        ("<a>", "</a>"), ("<a b=\"", "\"/>"), ("<a b={", "}/>"), ("{<a>", "</a>}"), ("<a>{", "}</a>"), ("<a b={<c/>}>", "</a>"), ("<>", "</>"), ("<script>", "</script>"), ("<style>", "</style>"), ("<![CDATA[", "]]>"), ("<?a ", "?>"), ("<!DOCTYPE a [", "]>"), ("<!ELEMENT a ", ">"),
        ("a(", ")"), ("f(a, ", ")"), ("a{", "}"), ("\\a{", "}"), ("\\a(", ")"), ("\\a(\"", "\")"), ("\\(", ")"), ("\\a(b=", ")"), ("\\(\"\\(", ")\")"), ("\\a{\\(", ")}"), ("\\ a(", ")"), ("a(b{", "})"),
        ("*", "*"), ("**", "**"), ("_", "_"), ("~~", "~~"), ("*_", "_*"), ("**a *b ", "* **"), ("[a", "](b)"), ("![", "](b)"), ("[![", "](b)](c)"), ("[*", "*](b)"), ("> ", ""), ("- ", ""), ("* ", ""), ("1. ", ""), (">", ""), ("- > ", ""),
        ("- - ", ""), ("? ", ""), ("? - ", ""), ("a: {", "}"), ("&a [", "]"), ("!t [", "]"), ("&a ", ""), ("!t ", ""), ("[\"a\", ", "]"), ("[a: ", "]"),
        ("if ", " fi"), ("@media a {", "}"), ("a{b:", "}"), ("url(", ")"), (":not(", ")"), ("@a ", ";"), ("#[", "]"), ("#if a\n", "#endif\n"), ("[[a(", ")]]"), ("R\"(", ")\""), ("|", "|"), ("!", ""), ("-", ""), ("=", ""), ("::", ""), (":", ""), (".", ""), ("\\", ""), ("#", ""), ("&", ""), ("%", ""), ("$", ""), ("@", ""),
        ("'''", "'''"), ("\"\"\"", "\"\"\""), ("r#\"", "\"#"), ("<<A\n", "A\n"), ("<<EOF", ""), ("0x", ""), ("1e", ""), ("1.", ""), ("0_", ""), ("\n", ""), (" ", ""), ("\n ", ""), ("\t", ""), ("a", ""), ("é", ""), ("\\u", ""), ("\\u{", "}"), ("\\x", ""), ("\\\n", ""), ("?", ""), (";", ""), (",", ""), ("&#", ";"), ("&a", ";"), ("/", "/"), ("//", "\n"), ("# ", "\n"), ("a=/", "/"), ("a b ", ""), ("a\n", ""), ("a: ", "\n"), ("1 ", "")]

def sources(r, lang, n):
    """(description, function from a length to a source)"""
    words = [w.decode("utf-8", "replace") for w in corpus.dictionary(lang)] or ["a"]
    seeds = [x.decode("utf-8", "replace") for x in corpus.repo_seeds(lang)]
    out = []
    def add(o, m, c, pre="", post=""):
        if o or c: out.append((o, m, c, pre, post))
    for o, c in NEST: add(o, "", ""); add(o, "a", c)
    for w in words: add(w, "", "")
    while len(out) < n + 2 * len(NEST) + len(words):
        k = r.random()
        def frag():
            x = r.random()
            if x < .45: return r.choice(words)
            if x < .6: return r.choice(NEST)[0]
            if x < .75 and seeds:
                s = r.choice(seeds); i = r.randrange(len(s) + 1); return s[i:i + r.randint(1, 12)]
            return r.choice([" ", "\n", "a", "1", "\"", "'", "x "])
        o = "".join(frag() for _ in range(r.choice([1, 2, 2, 3, 4])))
        c = r.choice(NEST)[1] if r.random() < .3 else ""
        add(o, frag() if r.random() < .3 else "", c, frag() if r.random() < .3 else "", frag() if r.random() < .2 else "")
    return out

def make(s, n):
    """About n bytes."""
    o, m, c, pre, post = s
    k = max(1, (n - len(m)) // max(1, len((o + c).encode("utf-8", "replace"))))
    return (pre + o * k + m + c * k + post).encode("utf-8", "replace")
def make_depth(s, k):
    o, m, c, pre, post = s
    return (pre + o * k + m + c * k + post).encode("utf-8", "replace")

def run(exe, stack, limit, cases, cpu=120):
    """[(lang, flags, bytes)] -> [(status or text, tokens, steps)]"""
    out, slow = [], 0
    while len(out) < len(cases):
        if slow >= 10: out += [(0, 0, 0)] * (len(cases) - len(out)); break        # enough is known
        chunk = cases[len(out):]
        p = subprocess.run(["prlimit", "--cpu=%d:%d" % (cpu, cpu + 5), "--core=0", exe, str(stack), str(limit)], input=b"".join(struct.pack("<BBI", l, f, len(x)) + x for l, f, x in chunk), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        got = list(struct.iter_unpack("<iIQ", p.stdout[:len(p.stdout) // 16 * 16])); out += got
        if got and got[-1][0] == -1000: slow += 1
        if len(got) < len(chunk) and not (got and got[-1][0] == -1000):
            if p.returncode == -9: raise Inconclusive("the harness was killed")
            if p.returncode == -24 and got: continue # the limit is for one source, not for all: try this one on its own
            if p.returncode in (0, 2): raise Inconclusive("the harness stopped early: %s" % p.stderr[-300:])
            slow += 4 if p.returncode == -26 else 1
            out.append(("hang" if p.returncode in (-24, -26) else "signal %d" % -p.returncode, 0, 0))
    return out

def bound(n): return 10 * n * n + 3000 * n + 200000
SIZES = (300, 1000, 4000)
LIMIT = 300    # million steps; more than any bound for the sizes tried

def _work(a):
    exe, l, seed, n = a
    r = random.Random(seed); ss = sources(r, l, n)
    cases = [(l, r.choice((0, 0, 1, 2)), make(s, z)) for s in ss for z in SIZES]
    # whole files, and files cut and joined
    files = [x for x in corpus.repo_seeds(l, 8000)] or [b"a\n"]
    for _ in range(40):
        x = r.choice(files)
        if r.random() < .5: x = x[:r.randrange(len(x) + 1)] * r.choice((1, 2, 5))
        y = b"".join(r.choice(files) for _ in range(3)) if r.random() < .3 else b""
        cases.append((l, 0, (x + y)[:8000]))
    res = run(exe, 1 << 20, LIMIT, cases)
    bad = []
    for (lg, f, x), (st, tk, steps) in zip(cases, res):
        n = len(x)
        if st == -1000 or steps > bound(n): bad.append(("work", lg, f, x, "more than %d million" % LIMIT if st == -1000 else steps))
        elif isinstance(st, str): bad.append((st.replace(" ", ""), lg, f, x, st))
    ok = [(s[2] / (len(c[2]) or 1), c[2]) for c, s in zip(cases, res) if s[0] == 0]
    ratios = [res[3 * i + 2][2] / max(1, res[3 * i + 1][2]) for i in range(len(ss))]
    return l, len(cases), len({c[2] for c in cases}), bad, sum(s[2] for s in res), max(s[2] for s in res), sum(x > 10 for x in ratios), max(ok) if ok else None

def c14(chk):
    exe = build.program("steps", "steps.cpp")
    jobs = [(exe, l, "%s/%d/%d" % (chk.seed, l, i), 400 if not chk.thorough else 900) for l in corpus.LANGS for i in range(6 if chk.thorough else 1)]
    total, peak, quad = 0, {}, 0
    with multiprocessing.get_context("fork").Pool(os.cpu_count() or 8) as pool:
        for l, n, d, bad, steps, mx, q, worst in pool.imap_unordered(_work, jobs):
            name = corpus.LANGS[l]
            chk.case(n=n); chk.add_distinct(d); total += steps; peak[name] = max(peak.get(name, 0), mx); quad += q
            if worst: chk.sample("%s: %.0f steps per byte for %r" % (name, worst[0], worst[1][:60]))
            for k, lg, f, x, steps in bad[:1]:
                x = min((b[3] for b in bad if b[0] == k), key=len)
                steps = next(b[4] for b in bad if b[3] == x)
                chk.violation("%s:%s" % (name, k), "%s: %s steps for a source of %d bytes, where at most %d are accepted (%d such sources); %r..." % (name, steps, len(x), bound(len(x)), len(bad), x[:120]), {"language": name, "flags": f, "hex": x.hex()})
    chk.cov["observed"] = {"steps": total, "most_steps_of_one_source": dict(sorted(peak.items())), "sources_growing_faster_than_linearly": quad}
    chk.cov["rule"] = "sources of one fragment repeated, nested or alternating, of 300, 1000 and 4000 bytes, and whole, cut and joined files; control-flow edges executed by the real code are counted against 10 n^2 + 3000 n + 200000; distinct: different sources"
    chk.assumptions.append("work is counted in executed control-flow edges of the library and the templates compiled into it; library calls such as memcpy count as one")

DEPTHS = (100, 1500, 6000)
def _deep(a):
    exe, l, seed, n = a
    r = random.Random(seed); ss = sources(r, l, n)
    cases = [(l, r.choice((0, 0, 1, 2)), make_depth(s, z)) for s in ss for z in DEPTHS]
    cases = [c for c in cases if len(c[2]) <= 120000]
    res = run(exe, 8192, 0, cases)
    bad = [(str(st).replace(" ", ""), lg, f, x) for (lg, f, x), (st, tk, steps) in zip(cases, res) if st not in (0, "hang")] # C14 judges the time
    return l, len(cases), len({c[2] for c in cases}), bad, sum(s[1] for s in res), ss[0] if ss else None

def c15(chk):
    """The stack is the usual 8 MiB; builds without sanitizers, as those use more of it."""
    jobs = []
    for v in ("plain", "ndebug"):
        exe = build.program(v, "steps.cpp")
        jobs += [(exe, l, "%s/%s/%d/%d" % (chk.seed, v, l, i), 350 if not chk.thorough else 900) for l in corpus.LANGS for i in range(6 if chk.thorough else 1)]
    toks = 0
    with multiprocessing.get_context("fork").Pool(os.cpu_count() or 8) as pool:
        for l, n, d, bad, tk, s in pool.imap_unordered(_deep, jobs):
            name = corpus.LANGS[l]
            chk.case(n=n); chk.add_distinct(d); toks += tk
            for k in sorted({b[0] for b in bad}):
                _, lg, f, x = min((b for b in bad if b[0] == k), key=lambda b: len(b[3]))
                chk.violation("%s:%s" % (name, k), "%s: %s for a source of %d bytes with nested fragments: %r..." % (name, k, len(x), x[:120]), {"language": name, "flags": f, "hex": x.hex()})
    chk.cov["observed"] = {"tokens": toks, "depths": list(DEPTHS), "stack_bytes": 8 << 20}
    chk.cov["rule"] = "sources nested 100, 1500 and 6000 levels deep in each of a list of constructs, in each literal of the language's own sources and in random combinations of them, with and without the closing parts, highlighted on a thread with a stack of 8 MiB in two builds; distinct: different sources"
