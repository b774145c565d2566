"""C13: nested languages in HTML. C44: the strict flag. C45: concatenation. All compare executions with each other:
the tokens of a source with those which the same code gives for its parts, or under the other flag."""
import importlib, multiprocessing, os, random, re
import build, corpus, lex
from gen import *
from lex import type_name

GENS = {"cpp": ("lang_cpp", "Cpp"), "js": ("lang_js", "Js"), "java": ("lang_jvm", "Java"), "kotlin": ("lang_jvm", "Kotlin"), "rust": ("lang_rust", "Rust"),
        "python": ("lang_python", "Python"), "lua": ("lang_lua", "Lua"), "bash": ("lang_bash", "Bash"), "css": ("lang_css", "Css"), "html": ("lang_markup", "Html"),
        "xml": ("lang_markup", "Xml"), "json": ("lang_data", "Json"), "yaml": ("lang_data", "Yaml"), "markdown": ("lang_markdown", "Markdown"), "tex": ("lang_misc", "TeX"),
        "cowel": ("lang_misc", "Cowel"), "nasm": ("lang_misc", "Nasm"), "llvm": ("lang_misc", "LLVM"), "ebnf": ("lang_misc", "Ebnf"), "diff": ("lang_misc", "Diff"), "txt": ("lang_misc", "Plain")}
SAME = {"c": "cpp", "ts": "js", "jsonc": "json", "latex": "tex"}
def gen_of(lang):
    m, c = GENS[SAME.get(lang, lang)]
    return getattr(importlib.import_module("checks." + m), c)

class Sources:
    """Sources of a language: generated, fixtures, the fuzzing corpus, and mutations of all of these."""
    def __init__(self, r, lang):
        self.r, self.lang, self.id = r, lang, corpus.LANG_ID[lang]
        self.gen = gen_of(lang)(r)
        self.seeds = corpus.repo_seeds(self.id)
        self.pack = [x for x in corpus.load_pack(self.id) if len(x) < 3000]
        self.words = corpus.dictionary(self.id) or [b"a"]
    def generated(self):
        while True:
            d = self.gen.doc()
            if getattr(d, "lang", self.id) == self.id: return lex.flatten(d)[0]
    def get(self):
        r = self.r; x = r.random()
        if x < .45: b = self.generated()
        elif x < .7 and self.seeds: b = r.choice(self.seeds)
        elif x < .9 and self.pack: b = r.choice(self.pack)
        else: b = b"".join(r.choice(self.words) + r.choice([b"", b" ", b"\n"]) for _ in range(r.randint(1, 30)))
        if r.random() < .4: b = self.mutate(b)
        return b
    def complete(self):
        lang = self.lang
        while True:
            d = self.gen.doc()
            if getattr(d, "lang", self.id) != self.id: continue
            if any(k.startswith(("unterminated", "final")) for k, _ in d): continue
            if lang == "markdown":
                # a fence is open, or there is none: fences come in pairs
                if sum(k == "fence" for k, _ in d) % 2: continue
            if lang == "kotlin":
                # braces which are open at the end would match those of the second source
                level = 0
                for k, ss in d:
                    if k == "brace" and len(ss) == 1: level = max(0, level + (1 if ss[0][0] == "{" else -1))
                d = lex.Doc(list(d) + [("brace", [("}" * level, None)])] if level else d)
            return d
    def mutate(self, b):
        r = self.r; b = bytearray(b)
        for _ in range(r.choice([1, 1, 2, 4, 8])):
            i = r.randrange(len(b) + 1); j = min(len(b), i + r.choice([0, 1, 1, 2, 5, 20]))
            k = r.randrange(5)
            if k == 0: del b[i:j]
            elif k == 1: b[i:j] = r.choice(self.words)
            elif k == 2: b[i:i] = r.choice([b" ", b"\n", b"\r\n", b"\t", b"\0", b"\xff", b"\xe2\x82", "中".encode(), b"\"", b"'", b"`", b"(", b")", b"{", b"}", b"<", b">", b"/", b"*", b"#", b"\\", b"0", b"_"])
            elif k == 3: b[i:i] = b[max(0, i - r.randint(1, 12)):i]
            else:
                o = r.choice(self.seeds) if self.seeds else b"a"
                p = r.randrange(len(o) + 1); b[i:j] = o[p:p + r.randint(1, 30)]
        return bytes(b)

def shift(tokens, by): return [(b + by, n, t) for b, n, t in tokens]
def coalesced(tokens):
    out = []
    for b, n, t in tokens:
        if out and out[-1][2] == t and out[-1][0] + out[-1][1] == b: out[-1] = (out[-1][0], out[-1][1] + n, t)
        else: out.append((b, n, t))
    return out
def difference(src, want, got):
    """A description of the first difference of two token lists."""
    i = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
    f = lambda x: "end" if i >= len(x) else "%r at %d as %s" % (src[x[i][0]:x[i][0] + x[i][1]].decode("utf-8", "replace")[:60], x[i][0], type_name(x[i][2]))
    return "token %d should be %s, but is %s" % (i, f(want), f(got))
def first_pos(want, got):
    i = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
    return min([x[i][0] for x in (want, got) if i < len(x)] or [0])

def _job(a):
    fn, args = a
    return fn(*args)
def parallel(chk, prefix, fn, jobs):
    """fn(*job) -> (evaluations, identities, {counter: n}, {key: (detail, data)}, samples)"""
    obs = chk.cov.setdefault("observed", {})
    fails = {}
    with multiprocessing.get_context("fork").Pool(os.cpu_count() or 8) as pool:
        for n, ids, cnt, fl, sa in pool.imap_unordered(_job, [(fn, j) for j in jobs]):
            chk.cov["evaluations"] += n
            for i in ids: chk._distinct.add(i)
            for k, v in cnt.items(): obs[k] = obs.get(k, 0) + v
            for k, (d, x) in fl.items():
                e = fails.setdefault(k, [0, d, x]); e[0] += 1
                if len(x["hex"]) < len(e[2]["hex"]): e[1], e[2] = d, x
            for s in sa: chk.sample(s)
    for k, (n, d, x) in sorted(fails.items()): chk.violation(k, d + "; source: %r" % x["source"][:700], x)
def replay(lang, flags, src, **more): return dict({"language": lang, "flags": flags, "source": src.decode("utf-8", "replace"), "hex": src.hex()}, **more)

# ---------------------------------------------------------------------------------------------- C13
WS = [" ", "\n", "\t", "\r\n", "\f", "  "]
def _case(r, s):
    k = r.randrange(3)
    return s if k == 0 else s.upper() if k == 1 else "".join(c.upper() if r.random() < .5 else c for c in s)
def _close(name): return re.compile((r"</%s[\s>/]" % name).encode(), re.I) if False else re.compile(b"</" + name.encode() + b"[ \t\n\f\r>/]", re.I)
CLOSE = {n: _close(n) for n in ("script", "style", "title", "textarea")}
REF = re.compile(rb"&(?:#[0-9]+|#[xX][0-9A-Fa-f]+|[A-Za-z0-9]+);")
def body_of(r, name, src):
    """An element's contents, which no closing tag ends early."""
    if r.random() < .05: b = b""
    elif name in ("title", "textarea"):
        b = src["html"].get() if r.random() < .5 else b"".join(r.choice([b"&amp;", b"&#1;", b"&#xA;", b"&", b"&a", b"<", b"</", b"</" + name.encode() + b"x>", b"<b>", b"<!--", b"-->", b"a", b" ", b"\n", b"\xff", b"<script>", b"</script>", b";"]) for _ in range(r.randint(1, 15)))
    else:
        lang = "js" if name == "script" else "css"
        b = src[lang].get()
        if r.random() < .05: b = b"\n".join(src[lang].get() for _ in range(r.randint(5, 25)))
        if r.random() < .15:
            i = r.randrange(len(b) + 1)
            b = b[:i] + r.choice([b"</", b"<", b"</scrip>", b"</scriptx>", b"</styles ", b"<!--", b"-->", b"]]>", b"</style>", b"</script>", b"<script>", b"&amp;", b"</scrip</", b"</ script>", b"<\\/script>", "</ſcript>".encode(), "</ſtyle>".encode()]) + b[i:]
    m = CLOSE[name].search(b)
    if m: b = b[:m.start()]
    return b
def c13_job(exe, seed, n):
    r = random.Random(seed); src = {l: Sources(r, l) for l in ("js", "css", "html")}
    gh = gen_of("html")(r)
    proc = lex.Proc(exe, r.choice([1, 2, 3, 64, 1000, 5000]))
    cases, plan = [], []
    H, J, C = (corpus.LANG_ID[x] for x in ("html", "js", "css"))
    for _ in range(n):
        name = r.choice(["script"] * 4 + ["style"] * 4 + ["title", "textarea"])
        def outer(k):
            items = [it for it in (gh.element() for _ in range(k)) if not it[0].startswith("unterminated")]
            return lex.flatten(gh.fix(items))[0]
        pre = outer(r.choice([0, 0, 1, 3])); post = outer(r.choice([0, 1, 3])) if r.random() < .8 else src["html"].get()
        tag = gh.start(_case(r, name))
        open_ = lex.flatten([tag])[0]
        if name in ("title", "textarea") and open_.endswith(b"/>") and False: pass
        body = body_of(r, name, src)
        end = r.random()
        if end < .12:
            # not terminated: everything to the end belongs to the element
            close = b""; post = b""
        else: close = ("</" + _case(r, name) + r.choice(["", "", "", r.choice(WS), r.choice(WS) + "x='>'", "/", "/ "]) + ">").encode()
        if name in ("title", "textarea"):
            # text before the element must not join a reference, and neither may the contents (they end at "<")
            pass
        flags = r.choice([0, 0, 0, 1, 2, 3])
        whole = pre + open_ + body + close + post
        empty = pre + open_ + close + post
        i = len(cases)
        cases += [(H, flags, whole), (H, flags, empty)]
        if name in ("script", "style"): cases.append((J if name == "script" else C, flags, body))
        plan.append((i, name, flags, len(pre + open_), body, close, whole))
    res = proc.run(cases)
    ids, cnt, fails, samples = set(), {}, {}, []
    for i, name, flags, at, body, close, whole in plan:
        (s1, t1), (s2, t2) = res[i], res[i + 1]
        ids.add(hash(whole))
        def fail(key, detail):
            fails.setdefault("c13:%s:%s" % (name, key), (("within <%s>: " % name) + detail, replay("html", flags, whole, body=body.decode("utf-8", "replace"), detail=detail)))
        if s1 is None or s2 is None: continue
        if s1 != 0 or s2 != 0: fail("status", "status %s, and %s without the contents" % (s1, s2)); continue
        before = [t for t in t2 if t[0] + t[1] <= at]; after = shift([t for t in t2 if t[0] >= at], len(body))
        if len(before) + len(after) != len(t2):
            # with coalescing, a token of the tag and one of the closing tag become one
            j = len(before); b, k, t = t2[j]
            before.append((b, at - b, t)); after.insert(0, (at + len(body), b + k - at, t))
        cnt["elements_" + name] = cnt.get("elements_" + name, 0) + 1
        if not close: cnt["unterminated"] = cnt.get("unterminated", 0) + 1
        if name in ("script", "style"):
            s3, t3 = res[i + 2]
            if s3 is None: continue
            if s3 != 0: fail("status", "status %s for the contents alone" % s3); continue
            inner = shift(t3, at)
            cnt["nested_tokens"] = cnt.get("nested_tokens", 0) + len(t3)
            if len(t3) > 1024: cnt["bodies_beyond_1024_tokens"] = cnt.get("bodies_beyond_1024_tokens", 0) + 1
        else:
            E = lex.types()["string_escape"]
            # the contents end where a reference can: refs are found by a scan which resumes after each
            inner = [(at + m.start(), m.end() - m.start(), E) for m in REF.finditer(body)]
            cnt["references"] = cnt.get("references", 0) + len(inner)
        want = before + inner + after
        if flags & 1: want = coalesced(want)
        if want != t1:
            p = first_pos(want, t1)
            where = "before" if p < at else "inside" if p < at + len(body) else "after"
            fail(where, difference(whole, want, t1))
        elif not samples and len(whole) < 300: samples.append(whole.decode("utf-8", "replace"))
    return len(plan), ids, cnt, fails, samples
def c13(chk):
    chk.cov["rule"] = "documents around an element of raw text, with generated, fixture, corpus and mutated contents; the tokens must be those of the document without the contents, and those of the contents alone at their position; distinct: different documents"
    exe = build.program("asan", "tok.cpp")
    k = 8 if not chk.thorough else 80
    parallel(chk, "c13", c13_job, [(exe, "%s/c13/%d" % (chk.seed, i), 300) for i in range(8 * k)])

# ---------------------------------------------------------------------------------------------- C44
T = [tuple(x) for x in TABLES["cpp"]]
WORDS = {w.encode(): (t, s) for w, t, s in T if w[0].isalpha() or w[0] == "_"}
FOREIGN = {"cpp": {w for w, (t, s) in WORDS.items() if s in ("ext", "c")}, "c": {w for w, (t, s) in WORDS.items() if s == "ext"}}
OWN = {"cpp": {w for w, (t, s) in WORDS.items() if s in ("cpp", "c_cpp")}, "c": {w for w, (t, s) in WORDS.items() if s in ("c", "c_cpp")}}
def judge_strict(lang, src, flags, a, b):
    """a, b: tokens without and with the flag. None or (key, detail)."""
    ty = lex.types()
    if lang in ("c", "cpp"):
        keyword = {ty[t] for t in {WORDS[w][0] for w in FOREIGN[lang]}}; names = {ty["name"], ty["name_type"], ty["name_macro"], ty["string_decor"], ty["number_decor"]}  # a suffix, next to a literal
        if flags & 1:
            pa, pb = bytearray(len(src)), bytearray(len(src))
            for p, t in ((pa, a), (pb, b)):
                for x, n, y in t: p[x:x + n] = bytes([y]) * len(p[x:x + n])
            words = bytearray(len(src))
            for w in FOREIGN[lang]:
                for m in re.finditer(re.escape(w), src): words[m.start():m.end()] = b"\1" * (m.end() - m.start())
            bad = next((i for i in range(len(src)) if pa[i] != pb[i] and not words[i]), None)
            if bad is not None: return "other token", "byte %d is %s, but %s with the strict flag" % (bad, type_name(pa[bad]) if pa[bad] else "none", type_name(pb[bad]) if pb[bad] else "none")
            return None
        if [x[:2] for x in a] != [x[:2] for x in b]: return "extent", difference(src, a, b)
        for x, y in zip(a, b):
            w = src[x[0]:x[0] + x[1]]
            if x[2] != y[2]:
                if w not in FOREIGN[lang] or x[2] not in keyword or y[2] not in names: return "other token", difference(src, [x], [y])
            elif w in FOREIGN[lang] and x[2] in keyword: return "extension kept", "%r is %s even with the strict flag" % (w, type_name(x[2]))
        return None
    if lang == "json":
        comments = (ty["comment"], ty["comment_delim"])
        if any(t in comments for _, _, t in b): return "comment kept", "a comment is highlighted with the strict flag"
        c = next((x[0] for x in a if x[2] in comments), None)
        if c is None: return None if a == b else ("other token", difference(src, a, b))
        u, v = [x for x in a if x[0] < c], [x for x in b if x[0] < c]
        # malformed words extend to the next character that ends them; only a comment does, if there are any
        if u and v and u[-1] != v[-1] and u[-1][0] == v[-1][0] and u[-1][2] == v[-1][2] == ty["error"] and sum(u[-1][:2]) <= c < sum(v[-1][:2]): u, v = u[:-1], v[:-1]
        if u != v: return "before comment", difference(src, u, v)
        return None
    return None if a == b else ("other token", difference(src, a, b))
def c44_job(exe, seed, lang, n):
    r = random.Random(seed); s = Sources(r, lang); proc = lex.Proc(exe, r.choice([1, 3, 64, 1000]))
    docs = []
    for _ in range(n):
        b = s.get()
        if lang in ("c", "cpp") and r.random() < .6:
            ws = sorted(FOREIGN[lang] | FOREIGN["cpp"])
            for _ in range(r.randint(1, 5)):
                i = r.choice([m.start() for m in re.finditer(rb"[ \n;(]", b)] or [0])
                b = b[:i] + b" " + r.choice(ws) + r.choice([b"", b"1", b" ", b"_t", b"(", b"'", b"\"\"", b"::"]) + b[i:]
        if lang in ("json", "jsonc") and r.random() < .6:
            for _ in range(r.randint(1, 3)):
                i = r.choice([m.start() for m in re.finditer(rb"[\[\]{}:, ]", b)] or [0]) + r.randrange(2)
                b = b[:i] + r.choice([b"/*x*/", b"//x\n", b"/* [", b"//", b"/", b" /**/ ", b"#x\n"]) + b[i:]
        docs.append((b, r.choice([0, 0, 1])))
    res = proc.run([c for b, f in docs for c in ((s.id, f, b), (s.id, f | 2, b))])
    ids, cnt, fails, samples = set(), {"sources_" + lang: n}, {}, []
    for i, (b, f) in enumerate(docs):
        (s1, t1), (s2, t2) = res[2 * i], res[2 * i + 1]
        ids.add(hash((lang, b, f)))
        v = None
        if s1 is None or s2 is None: continue
        if s1 != s2: v = "status", "status %s, and %s with the strict flag" % (s1, s2)
        elif s1 == 0: v = judge_strict(lang, b, f, t1, t2)
        if t1 != t2: cnt["differing_" + lang] = cnt.get("differing_" + lang, 0) + 1
        if v: fails.setdefault("c44:%s:%s" % (lang, v[0]), (lang + ": " + v[1], replay(lang, f, b, detail=v[1])))
    return n, ids, cnt, fails, samples
def c44(chk):
    chk.cov["rule"] = "generated, fixture, corpus and mutated sources with extension keywords and comments inserted, highlighted with and without the flag; distinct: different sources"
    exe = build.program("asan", "tok.cpp")
    k = 10 if chk.thorough else 1
    jobs = []
    for i in corpus.LANGS:
        l = corpus.LANGS[i]; big = l in ("c", "cpp", "json")
        jobs += [(exe, "%s/c44/%s/%d" % (chk.seed, l, j), l, 400 if big else 200) for j in range((16 if big else 4) * k)]
    parallel(chk, "c44", c44_job, jobs)
    # every word, alone and between others
    ty = lex.types()
    for lang in ("c", "cpp"):
        cases = [(w, f) for w in sorted(WORDS) for f in (0, 2)]
        res = lex.Proc(exe).run([(corpus.LANG_ID[lang], f, b"(" + w + b")") for w, f in cases])
        for (w, f), (st, tk) in zip(cases, res):
            t = next((x[2] for x in tk if x[0] == 1), None)
            strict = f & 2; kind, s = WORDS[w]
            know = w in OWN[lang] or not strict and (s == "ext" or lang == "cpp")
            chk.case(("word", lang, w, f))
            if know and t != ty[kind] or not know and t not in (ty["name"], ty["name_type"]):
                chk.violation("c44:%s:word" % lang, "%s: %r is %s with flags %d" % (lang, w.decode(), type_name(t) if t else "none", f), replay(lang, f, b"(" + w + b")"))

# ---------------------------------------------------------------------------------------------- C45
# what separates complete items, per language
SEP = {"c": b"\n", "cpp": b"\n", "js": b";\n", "ts": b";\n", "java": b"\n", "kotlin": b"\n", "rust": b"\n", "python": b"\n", "lua": b"\n", "bash": b"\n", "css": b"\n", "html": b"\n",
       "xml": b"\n", "tex": b"\n", "latex": b"\n", "cowel": b"\n", "nasm": b"\n", "llvm": b"\n", "ebnf": b"\n", "diff": b"\n", "txt": b"\n", "yaml": b"\n...\n", "markdown": b"\n\n***\n\n"}
COMMENT = {"c": [b"/* x ' */", b"// it's \"\n"], "cpp": [b"/* x ' */", b"// it's \"\n"], "js": [b"/* x ' */", b"// it's `\n"], "ts": [b"/* x ' */", b"// it's `\n"], "java": [b"/* x ' */\n", b"// it's \"\n"],
           "kotlin": [b"/* /* x */ ' */", b"// it's \"\n"], "rust": [b"/* /* x */ ' */", b"// it's \"\n"], "python": [b"# it's \"\"\"\n"], "lua": [b"-- it's\n", b"--[[ ' ]]", b"--[==[ ]] ' ]==]"],
           "bash": [b"# it's \" $(\n"], "css": [b"/* it's { */"], "html": [b"<!-- <a ' -->"], "xml": [b"<!-- <a ' -->"], "cowel": [b"\\: it's {\n", b"\\* it's {\n *\\"], "nasm": [b"; it's ` %\n"],
           "llvm": [b"; it's \" /*\n", b"/* it's \" */"], "ebnf": [b"(* it's ; *)"]}
def c45_job(exe, seed, lang, n):
    r = random.Random(seed); s = Sources(r, lang); proc = lex.Proc(exe, r.choice([1, 3, 64, 1000]))
    plan, cases = [], []
    for _ in range(n):
        d = s.complete(); f = getattr(d, "flags", None)
        if f is None: f = r.choice([0, 0, 1])
        a = lex.flatten(d)[0] + SEP[lang]
        b = lex.flatten(s.complete())[0] if r.random() < .5 else s.get()
        mid = b""
        if r.random() < .5: mid = r.choice([b"\n", b" \n", b"\n\n"] + COMMENT.get(lang, []) * 3)
        if bad_start(lang, b) or bad_start(lang, a + b) and False: b = b"\n" + b
        if bad_start(lang, b): continue
        i = len(cases)
        cases += [(s.id, f, a), (s.id, f, mid), (s.id, f, b), (s.id, f, a + mid + b)]
        plan.append((i, f, a, mid, b))
    res = proc.run(cases)
    ids, cnt, fails, samples = set(), {"pairs_" + lang: len(plan)}, {}, []
    for i, f, a, mid, b in plan:
        sts = [res[i + j][0] for j in range(4)]; ts = [res[i + j][1] for j in range(4)]
        whole = a + mid + b
        ids.add(hash((lang, whole, f)))
        if None in sts: continue
        if any(sts): fails.setdefault("c45:%s:status" % lang, ("%s: status %s" % (lang, sts), replay(lang, f, whole))); continue
        want = ts[0] + shift(ts[1], len(a)) + shift(ts[2], len(a) + len(mid))
        if f & 1: want = coalesced(want)
        if want != ts[3]:
            p = first_pos(want, ts[3])
            key = "first" if p < len(a) else "between" if p < len(a + mid) else "second"
            fails.setdefault("c45:%s:%s" % (lang, key), ("%s: highlighting %r, then %r: %s" % (lang, a[-120:], b[:120], difference(whole, want, ts[3])), replay(lang, f, whole, first=a.decode("utf-8", "replace"), between=mid.decode("utf-8", "replace"), second=b.decode("utf-8", "replace"))))
        elif not samples and len(whole) < 300: samples.append("%s: %s" % (lang, whole.decode("utf-8", "replace")))
    return len(plan), ids, cnt, fails, samples
# ---------------------------------------------------------------------------------------------- C46
NONID = list("\u0301\u200d×€😀\x01\x08\x1f\x7f")
STRAY = {"c": list("@`$") + NONID, "cpp": list("@`$") + NONID, "js": list("\\#") + NONID, "ts": list("\\#") + NONID, "java": list("#\\`") + NONID, "kotlin": list("$&\\^|~") + NONID, "rust": ["`"] + NONID, "python": list("!$?`") + NONID,
         "llvm": list("&'+?\\`~é中") + NONID, "nasm": list("#\\é中") + NONID}
TOUCH = {("kotlin", "$")}       # what a string can start with
# quotes, escapes which are not defined (followed by a blank), prefixes of literals
H = "0123456789abcdefABCDEF"
def bad_escapes(lang, r):
    h = lambda n: "".join(r.choice(H) for _ in range(n))
    if lang in ("c", "cpp"): return r.choice([("", "\"'"), ("L", "\"'"), ("u8", "\"'"), ("U", "\"")]), r.choice(["\\x", "\\u" + h(r.randint(0, 3)), "\\U" + h(r.randint(0, 4)), "\\u{}", "\\o{}", "\\x{}", "\\N{}", "\\é", "\\N", "\\o", "\\o7", "\\o8", "\\x{g}", "\\u{" + h(3) + "g}", "\\o{8}"])
    if lang in ("js", "ts"): return ("", "\"'`"), r.choice(["\\x", "\\x" + h(1), "\\u" + h(r.randint(0, 3)), "\\u{}"])
    if lang == "java": return ("", "\""), r.choice(["\\u" + h(r.randint(0, 3)), "\\q", "\\x", "\\9", "\\é", "\\8", "\\N", "\\a", "\\v", "\\U"])
    if lang == "kotlin": return ("", "\""), r.choice(["\\u" + h(r.randint(0, 3)), "\\q", "\\x", "\\9", "\\é", "\\0", "\\a", "\\f", "\\{", "\\v"])
    if lang == "rust": return r.choice([("", "\""), ("b", "\""), ("c", "\"")]), r.choice(["\\x", "\\x" + h(1), "\\u{}", "\\u", "\\q", "\\1", "\\é", "\\a", "\\{", "\\N"])
    if lang == "python":
        pre = r.choice(["", "b", "f", "u", "B"])
        return (pre, "\"'"), r.choice(["\\x", "\\x" + h(1)] + (["\\u" + h(4), "\\N{DIGIT ONE}", "\\U0001f600"] if pre in "bB" and pre else ["\\u" + h(r.randint(0, 3)), "\\U" + h(r.randint(0, 7)), "\\N{}", "\\N"]) + ["\\q", "\\8", "\\é", "\\z"])
    if lang == "llvm": return r.choice([("", "\""), ("c", "\""), ("%", "\""), ("@", "\"")]), r.choice(["\\q", "\\x", "\\n", "\\g" + h(1), "\\é", "\\ "])
    if lang == "nasm": return ("", "`"), r.choice(["\\u" + h(r.randint(0, 3)), "\\U" + h(r.randint(0, 7)), "\\x", "\\q", "\\9", "\\é", "\\z"])
# what a line end terminates: literals as the last thing on a line
UNTERMINATED = {"c": ['"', "'", 'L"', "u8'"], "cpp": ['"', "'", 'L"', "u8'"], "js": ['"', "'"], "ts": ['"', "'"], "java": ['"'], "kotlin": ['"'], "python": ['"', "'", 'f"', "b'", "r'"], "lua": ['"', "'"], "css": ['"', "'"], "nasm": ['"', "'", "`"]}
def malformed(lang, r, T):
    """Segments of one line with something malformed, T being its text."""
    k = r.random()
    if lang in UNTERMINATED and (k < .3 or lang in ("lua", "css")):
        o = r.choice(UNTERMINATED[lang])
        t = "".join(c for c in T if c not in "\"'`\\{}$\r\n\v\u2028\u2029") + r.choice(["x", "/*", "//", "#", ")", "--", " "])
        return [(o, lex.ANY), (t, "string"), (r.choice(["\n", "\r\n"]), None)]
    if lang in STRAY and k < .6:
        out = []
        for _ in range(r.randint(1, 4)):
            # C and C++ leave stray characters without a highlight
            c = r.choice(STRAY[lang]); out.append((c, None if lang in ("c", "cpp") else "error"))
            if r.random() < .4 and (lang, c) not in TOUCH:
                t = "".join(c for c in T if c not in "\"'`\\{}$\r\n\v\u2028\u2029%")
                out += r.choice([[('"', lex.ANY), (t, "string"), ('"', lex.ANY)], [("(", ("symbol_parens", "symbol"))]])
            out.append((r.choice([" ", "\t", "  "]), None))
        return out + [("\n", None)]
    e = bad_escapes(lang, r)
    if not e: return None
    (pre, qs), x = e; q = r.choice(qs)
    t = "".join(c for c in T if c not in "\"'`\\{}$\r\n\v\u2028\u2029%")
    out = [(pre, lex.ANY), (q, lex.ANY), (t, "string")]
    for _ in range(r.choice([1, 1, 2])):
        out += [("\\", "error"), (x[1:], lex.ANY), (" ", lex.ANY), ("zz" + t, "string")]
        x = bad_escapes(lang, r)[1] if lang not in ("python",) else x
    return out + [(q, lex.ANY), ("\n", None)]
def c46_job(exe, seed, lang, n):
    r = random.Random(seed); s = Sources(r, lang); proc = lex.Proc(exe, r.choice([1, 3, 64, 1000]))
    plan, cases = [], []
    for _ in range(n):
        d = s.complete(); f = getattr(d, "flags", None)
        if f is None: f = r.choice([0, 0, 1])
        a = lex.flatten(d)[0] + SEP[lang]
        m = malformed(lang, r, s.gen.text())
        if m is None: return 0, set(), {}, {}, []
        mid, segs = lex.flatten([("malformed", m)])
        b = lex.flatten(s.complete())[0] if r.random() < .6 else s.get()
        if bad_start(lang, b): continue
        sep = b"" if lang not in ("js", "ts") else b";\n"
        i = len(cases)
        cases += [(s.id, f, a), (s.id, f, b), (s.id, f, a + mid + sep + b), (s.id, f, sep)]
        plan.append((i, f, a, mid + sep, b, m, segs))
    res = proc.run(cases)
    ids, cnt, fails, samples = set(), {"malformed_" + lang: len(plan)}, {}, []
    for i, f, a, mid, b, m, segs in plan:
        whole = a + mid + b; ids.add(hash((lang, mid, f)))
        (s1, t1), (s2, t2), (s3, t3), _ = res[i:i + 4]
        def fail(key, d): fails.setdefault("c46:%s:%s" % (lang, key), ("%s: %r: %s" % (lang, mid.decode("utf-8", "replace"), d), replay(lang, f, whole, malformed=mid.decode("utf-8", "replace"))))
        if None in (s1, s2, s3): continue
        if s1 or s2 or s3: fail("status", "status %s" % [s1, s2, s3]); continue
        lo, hi = len(a), len(a) + len(mid)
        inner = [(x - lo, k, t) for x, k, t in t3 if lo <= x < hi]
        v = lex.judge([("malformed", m)], mid, segs, 0, inner)
        if v: fail("malformed", v[1]); continue
        before, after = [x for x in t3 if x[0] < lo], [x for x in t3 if x[0] >= hi]
        w1, w2 = t1, shift(t2, hi)
        if before != w1: fail("before", difference(whole, w1, before))
        elif after != w2: fail("after", difference(whole, w2, after))
        elif not samples and len(whole) < 300: samples.append("%s: %s" % (lang, whole.decode("utf-8", "replace")))
    return len(plan), ids, cnt, fails, samples
def c46(chk):
    chk.cov["rule"] = "a generated source, a line with an undefined escape, a stray character or a literal without its end, and another source; the malformed part must be flagged, and all other tokens must be those of the sources alone; distinct: different malformed lines"
    exe = build.program("asan", "tok.cpp")
    k = 40 if chk.thorough else 5
    langs = [l for l in SEP if l in STRAY or l in UNTERMINATED]
    parallel(chk, "c46", c46_job, [(exe, "%s/c46/%s/%d" % (chk.seed, l, j), l, 300) for l in langs for j in range(k)])
def bad_start(lang, b):
    """Whether the second source begins with something which is special at the very beginning of a source."""
    if b.startswith(b"\xef\xbb\xbf"): return True
    if lang in ("js", "ts", "lua", "bash", "python", "kotlin", "rust") and b.startswith(b"#!"): return True
    if lang == "xml" and (re.search(rb"<!(?!--)", b.replace(b"<![CDATA[", b"") if re.match(rb"[^<]*<[^!?]", b) else b) or b.lstrip().startswith(b"<?xml")): return True  # only before the root element
    return False
def c45(chk):
    chk.cov["rule"] = "a generated source of complete items, a separator, optionally a comment, and any second source; the tokens must be those of the three, shifted; distinct: different concatenations"
    exe = build.program("asan", "tok.cpp")
    k = 12 if chk.thorough else 2
    parallel(chk, "c45", c45_job, [(exe, "%s/c45/%s/%d" % (chk.seed, l, j), l, 300) for l in SEP for j in range(4 * k)])

# ---------------------------------------------------------------------------------------------- C47
CM = ("comment_delim", "comment")
def cut(lang, r, T):
    """(what comes before, segments) for a construct which the end of the source leaves unterminated; T is its text."""
    nl = r.choice(["\n", "\n", "\r\n"])
    multi = T if r.random() < .5 else T[:len(T) // 2] + nl + T[len(T) // 2:]
    def block(o, ct, bad, ends, nested=False):
        t = without(multi, *bad).rstrip("*")
        if nested and r.random() < .4: t += o + " " + (without(T, *bad, o) + " " + ct if r.random() < .6 else "")
        t += r.choice(["", nl, " "] + ends)
        t = without(t, *bad) if not nested else t
        return [(o, "comment_delim"), (t, "comment")]
    def lines(t, ty):
        """Text whose line ends and indentation are not judged."""
        out = []
        for l in t.replace("\r", "").split("\n"):
            if out: out.append((nl, lex.ANY))
            out.append(("x" + l.strip("\t \v\f") + "x", ty))
        return out
    def lit(o, t, ot=lex.ANY): return [(o, ot), (t + r.choice(["", "", nl, nl + nl, " ", " x"]), "string")]
    k = r.random()
    def c_block(nested=False): return block("/*", "*/", ["*/"] + (["/*"] if nested else []), ["*", "**", "/", "//", "x"], nested)
    if lang in ("c", "cpp"):
        if lang == "c" or k < .5: return c_block()
        d = r.choice(["", "x", "ab(".rstrip("("), "--"]); return lit(r.choice(["R", "u8R", "LR"]) + '"' + d + "(", without(multi, ")" + d + '"') + r.choice(["", ")", ")" + d]))
    if lang in ("js", "ts"): return c_block() if k < .5 else lit("`", without(multi.replace("\\", "").replace("`", ""), "${") + r.choice(["", "$", "x"]), "string_delim")
    if lang == "java": return c_block() if k < .5 else [('"""', "string_delim"), (nl, lex.ANY), ("x" + without(multi.replace("\\", ""), '"""').strip('"') + r.choice(["", "x", '"', '""']), "string")]
    if lang == "kotlin": return c_block(True) if k < .5 else lit('"""', "x" + without(multi.replace("$", ""), '"""').strip('"') + r.choice(["", "x", '"', '""']), "string_delim")
    if lang == "rust":
        if k < .4: return c_block(True)
        t = multi.replace("\r", "")
        if k < .7: return lit(r.choice(["", "b", "c"]) + '"', t.replace("\\", "").replace('"', ""))
        h = "#" * r.randint(1, 3); return lit(r.choice(["r", "br"]) + h + '"', without(t, '"' + h) + r.choice(["", '"', '"' + h[1:], "\\"]))
    if lang == "python":
        q = r.choice(['"""', "'''"]); p = r.choice(["", "r", "b", "f", "Rb", "u"])
        return lit(p + q, "x" + without(multi.replace("\\", "").replace("{", "").replace("}", ""), q).strip(q[0]) + r.choice(["", "x", q[0], q[0] * 2]))
    if lang == "lua":
        n = "=" * r.choice([0, 0, 1, 3]); c = "]" + n + "]"
        t = "x" + without(multi, c).rstrip("]=") + r.choice(["", "]", "]" + n if n else "]", "x", nl, nl + nl, " "])
        return [("--[" + n + "[", "comment_delim"), (t, "comment")] if k < .5 else lit("[" + n + "[", t)
    if lang == "bash": return lit("'", multi.replace("'", ""), "string_delim") if k < .5 else lit('"', "".join(c for c in multi if c not in '"\\$`!'), "string_delim")
    if lang == "css": return c_block()
    if lang in ("html", "xml"): return [("<!--", "comment_delim"), ("x" + without(multi, "--" if lang == "xml" else "-->", "--!>").rstrip("-") + r.choice(["", " -" if lang == "html" else "", "x", nl, nl + nl, " "]), "comment")]
    if lang in ("json", "jsonc"): return c_block()
    if lang == "yaml": return [(r.choice(["", "k: ", "- "]), lex.ANY)] + (lambda q: [(q, "string_delim")] + lines(multi.replace(q, "").replace("\\", ""), "string"))(r.choice("\"'"))
    if lang == "ebnf":
        if k < .5: return block("(*", "*)", ["*)"], ["*", "x", "("])
        q = r.choice("\"'"); return [("a", lex.ANY), (" = ", lex.ANY)] + lit(q, multi.replace(q, ""), "string_delim")
    if lang == "llvm": return lit('"', multi.replace("\\", "").replace('"', ""), "string_delim") if k < .5 else c_block()
    if lang == "cowel": return block("\\*", "*\\", ["*\\"], ["*", "x", "\\"])
    if lang == "markdown":
        if k < .5: return [("<!--", "comment_delim")] + lines(without(multi, "--").replace("<", "").replace(">", ""), "comment")
        f = r.choice(["```", "~~~~"]); return [(f, "string_delim"), (nl, lex.ANY)] + lines(multi, "text_code")
# single-line literals at the very end, and an escape which may come last
LAST = {"c": "\\n", "cpp": "\\n", "js": "\\n", "ts": "\\n", "java": "\\n", "kotlin": "\\n", "python": "\\n", "lua": "\\n"}
def c47_job(exe, seed, lang, n):
    r = random.Random(seed); s = Sources(r, lang); proc = lex.Proc(exe, r.choice([1, 3, 64, 1000]))
    plan, cases = [], []
    for _ in range(n):
        d = s.complete(); f = getattr(d, "flags", None)
        if f is None: f = r.choice([0, 0, 1])
        a = lex.flatten(d)[0] + SEP.get(lang, b"\n")
        T = s.gen.text()
        T = T.replace("\ufeff", "")
        if lang in ("json", "jsonc"): a = r.choice([b"", b" ", b"\n"]); f = 0
        if lang in LAST and r.random() < .35:
            t = "".join(c for c in T if c not in "\"'`\\{}$\r\n\v\u2028\u2029")
            m = [(r.choice(UNTERMINATED[lang]), lex.ANY), ("x" + t, "string")]
            if not (lang == "python" and m[0][0][0] == "r") and r.random() < .5: m.append((LAST[lang], "string" if lang == "lua" else "string_escape"))  # (Lua: escapes have no highlight of their own)
        else: m = cut(lang, r, T)
        tail, segs = lex.flatten([("unterminated", m)])
        i = len(cases); cases += [(s.id, f, a), (s.id, f, a + tail)]
        plan.append((i, f, a, tail, m, segs))
    res = proc.run(cases)
    ids, cnt, fails, samples = set(), {"unterminated_" + lang: len(plan)}, {}, []
    for i, f, a, tail, m, segs in plan:
        whole = a + tail; ids.add(hash((lang, whole, f)))
        (s1, t1), (s2, t2) = res[i:i + 2]
        def fail(key, d): fails.setdefault("c47:%s:%s" % (lang, key), ("%s: %r: %s" % (lang, tail.decode("utf-8", "replace"), d), replay(lang, f, whole, unterminated=tail.decode("utf-8", "replace"))))
        if s1 is None or s2 is None: continue
        if s1 or s2: fail("status", "status %s" % [s1, s2]); continue
        v = lex.judge([("unterminated", m)], tail, segs, 0, [(x - len(a), k, t) for x, k, t in t2 if x >= len(a)])
        if v: fail(m[0][0].strip("abcdefghijklmnopqrstuvwxyzLRU8") or "literal", v[1]); continue
        before = [x for x in t2 if x[0] < len(a)]
        if before != t1: fail("before", difference(whole, t1, before))
        elif not samples and len(whole) < 300: samples.append("%s: %s" % (lang, whole.decode("utf-8", "replace")))
    return len(plan), ids, cnt, fails, samples
def c47(chk):
    chk.cov["rule"] = "a generated source followed by a comment or literal which the source's end leaves unterminated; all of the rest must belong to it, and all tokens before must stay; distinct: different sources"
    exe = build.program("asan", "tok.cpp")
    k = 40 if chk.thorough else 5
    langs = [l for l in list(SEP) + ["json", "jsonc"] if cut(l, random.Random(1), "abc") or l in LAST]
    parallel(chk, "c47", c47_job, [(exe, "%s/c47/%s/%d" % (chk.seed, l, j), l, 300) for l in langs for j in range(k)])

# ---------------------------------------------------------------------------------------------- C48
NOCRLF = {"bash"}             # a carriage return is part of a word in Bash
def without_cr(crlf, tokens):
    """The tokens as they would be in the source without its carriage returns."""
    at, k = [], 0
    for c in crlf:
        at.append(k); k += c != 13
    at.append(k)
    return [(at[x], at[x + n] - at[x], t) for x, n, t in tokens if at[x + n] > at[x]]
def c48_job(exe, seed, lang, n):
    r = random.Random(seed); s = Sources(r, lang); proc = lex.Proc(exe, r.choice([1, 3, 64, 1000]))
    plan, cases, ids, cnt, fails, samples = [], [], set(), {"line_ends": 0}, {}, []
    while len(plan) < n:
        lf = s.get().replace(b"\r\n", b"\n").replace(b"\r", b"")
        if b"\n" not in lf: continue
        crlf = lf.replace(b"\n", b"\r\n"); f = r.choice([0, 0, 0, 1, 2, 3])
        plan.append((len(cases), lf, crlf, f)); cases += [(s.id, f, lf), (s.id, f, crlf)]
    res = proc.run(cases)
    for i, lf, crlf, f in plan:
        (s1, t1), (s2, t2) = res[i:i + 2]
        ids.add(hash((lang, lf, f))); cnt["line_ends"] += lf.count(b"\n")
        if s1 is None or s2 is None: continue
        if s1 or s2:
            fails.setdefault("c48:%s:status" % lang, ("%s: status %s" % (lang, [s1, s2]), replay(lang, f, crlf))); continue
        got = without_cr(crlf, t2)
        if f & 1: got = coalesced(got)
        if got != t1:
            w = first_pos(t1, got); near = [t for x, k, t in t1 if x <= w < x + k]
            fails.setdefault("c48:%s:%s" % (lang, type_name(near[0]) if near else "none"), ("%s: with CRLF line ends: %s" % (lang, difference(lf, t1, got)), replay(lang, f, crlf)))
        elif not samples and len(lf) < 200: samples.append("%s: %s" % (lang, lf.decode("utf-8", "replace")))
    return len(plan), ids, cnt, fails, samples
def c48(chk):
    chk.cov["rule"] = "a source with LF and with CRLF line ends: the same tokens except for the carriage returns; distinct: different sources"
    exe = build.program("asan", "tok.cpp")
    k = 100 if chk.thorough else 12
    parallel(chk, "c48", c48_job, [(exe, "%s/c48/%s/%d" % (chk.seed, l, j), l, 300) for l in GENS.keys() | SAME.keys() if l not in NOCRLF for j in range(k)])
