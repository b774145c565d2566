"""C16-C18: the event-based JSON parser against an independent recogniser which also knows, for every
text, the first byte after which no continuation could be valid, and every event with its position."""
import itertools, random, re, struct
from concurrent.futures import ProcessPoolExecutor
import build
from batch import run_process, describe

WS = " \t\n\r"

class Bad(Exception):
    """pos: the first byte which cannot be; low: where the character, escape sequence, number, word, comment
    or unterminated string starts which contains it."""
    def __init__(self, pos, low=None, kinds=()): self.pos = pos; self.low = pos if low is None else low; self.kinds = set(kinds)
# the kinds of error in the order of JSON_Error, and those which may be reported for a failure (empty: any)
ERROR, COMMENT, CHARACTER, ESCAPE, NUMBER, STRING, OBJECT, ARRAY, VALUELESS = range(9)
KINDS = "error comment illegal_character illegal_escape illegal_number unterminated_string unterminated_object unterminated_array valueless_member".split()

class Ref:
    """Reference: b is the document as bytes. Events: (kind, pos, payload)."""
    def __init__(self, b, comments):
        self.b, self.n, self.c, self.ev, self.i, self.touching, self.end = b, len(b), comments, [], 0, 0, -1
    def run(self):
        try:
            self.ws(); self.value(); self.ws()
            if self.i < self.n: raise Bad(self.i, kinds=[CHARACTER])
            return True, None
        except Bad as e:
            self.kinds = e.kinds
            if not self.c and e.pos == self.i and e.low == e.pos and self.end != e.pos and self.b[e.pos:e.pos + 1] == b"/": self.kinds = {COMMENT} | self.kinds | {CHARACTER} if self.b[e.pos:e.pos + 2] not in (b"//", b"/*") else {COMMENT}
            elif self.kinds and self.end == e.pos: self.kinds |= {NUMBER, COMMENT}
            self.low = min(e.low, self.touching) if self.end == e.pos else e.low # 01 is one wrong number
            return False, e.pos
    def peek(self): return self.b[self.i] if self.i < self.n else -1
    def ws(self):
        b = self.b
        while self.i < self.n:
            ch = b[self.i]
            if ch in b" \t\n\r":
                self.i += 1
            elif ch == 0x2f and self.c:
                if self.i + 1 >= self.n: raise Bad(self.n, self.i)
                if b[self.i + 1] == 0x2f:
                    e = b.find(b"\n", self.i)
                    e = self.n if e < 0 else e
                    # the line end itself (also of \r\n) is no part of the comment
                    t = e - 1 if e < self.n and b[e - 1] == 0x0d else e
                    self.ev.append(("lc", self.i, b[self.i:t])); self.i = e
                elif b[self.i + 1] == 0x2a:
                    e = b.find(b"*/", self.i + 2)
                    if e < 0: raise Bad(self.n, self.i, [COMMENT])
                    self.ev.append(("bc", self.i, b[self.i:e + 2])); self.i = e + 2
                else:
                    raise Bad(self.i + 1, self.i)
            else:
                return
    def value(self, where=None):
        ch = self.peek()
        if ch == 0x22: self.string("str")
        elif ch == 0x7b: self.object()
        elif ch == 0x5b: self.array()
        elif ch == 0x2d or 0x30 <= ch <= 0x39: self.number()
        elif ch >= 0 and ch in b"tfn":
            w = {0x74: b"true", 0x66: b"false", 0x6e: b"null"}[ch]
            for k, x in enumerate(w):
                if self.i + k >= self.n or self.b[self.i + k] != x: raise Bad(self.i + k, self.i, [CHARACTER])
            self.ev.append((w.decode(), self.i, None)); self.touching = self.i; self.i += len(w); self.end = self.i
        elif ch < 0: raise Bad(self.i, kinds={None: [ERROR], OBJECT: [VALUELESS, OBJECT, ERROR], ARRAY: [ARRAY, ERROR]}[where])
        else: raise Bad(self.i, kinds=[VALUELESS] if where == OBJECT and ch in b",}" else [CHARACTER])
    def number(self):
        b, s = self.b, self.i
        def digits():
            k = self.i
            while self.i < self.n and 0x30 <= b[self.i] <= 0x39: self.i += 1
            if self.i == k: raise Bad(self.i, s, [NUMBER])
        if self.peek() == 0x2d: self.i += 1
        if self.peek() == 0x30:
            self.i += 1
        else: digits()
        if self.peek() == 0x2e: self.i += 1; digits()
        if self.peek() in (0x65, 0x45):
            self.i += 1
            if self.peek() in (0x2b, 0x2d): self.i += 1
            digits()
        self.ev.append(("num", s, b[s:self.i])); self.touching, self.end = s, self.i
    def string(self, kind):
        b = self.b
        start = self.i; self.ev.append((kind + "+", self.i, None)); self.i += 1
        s = self.i
        def flush():
            if self.i > s: self.ev.append(("lit", s, b[s:self.i]))
        while True:
            if self.i >= self.n: flush(); raise Bad(self.i, start, [STRING])
            ch = b[self.i]
            if ch == 0x22:
                flush(); self.ev.append((kind + "-", self.i, None)); self.i += 1; return
            if ch < 0x20: flush(); raise Bad(self.i, kinds=[CHARACTER])
            if ch == 0x5c:
                flush()
                if self.i + 1 >= self.n: raise Bad(self.n, self.i, [ESCAPE, STRING])
                x = b[self.i + 1]
                if x == 0x75:
                    for k in range(2, 6):
                        if self.i + k >= self.n or b[self.i + k] not in b"0123456789abcdefABCDEF": raise Bad(self.i + k, self.i, [ESCAPE] + ([STRING] if self.i + k >= self.n else []))
                    self.ev.append(("esc", self.i, b[self.i:self.i + 6])); self.i += 6
                elif x in b'"\\/bfnrt':
                    self.ev.append(("esc", self.i, b[self.i:self.i + 2])); self.i += 2
                else: raise Bad(self.i + 1, self.i, [ESCAPE])
                s = self.i
            else: self.i += 1
    def object(self):
        self.ev.append(("obj+", self.i, None)); self.i += 1
        self.ws()
        if self.peek() != 0x7d:
            while True:
                if self.peek() != 0x22: raise Bad(self.i, kinds=[CHARACTER if self.i < self.n else OBJECT])
                self.string("key"); self.ws()
                if self.peek() != 0x3a: raise Bad(self.i, kinds=[VALUELESS] + ([OBJECT] if self.i >= self.n else [] if self.peek() in b",}" else [CHARACTER]))
                self.i += 1; self.ws(); self.value(OBJECT); self.ws()
                if self.peek() == 0x2c: self.i += 1; self.ws(); continue
                if self.peek() == 0x7d: break
                raise Bad(self.i, kinds=[CHARACTER if self.i < self.n else OBJECT])
        self.ev.append(("obj-", self.i, None)); self.i += 1
    def array(self):
        self.ev.append(("arr+", self.i, None)); self.i += 1
        self.ws()
        if self.peek() != 0x5d:
            while True:
                self.value(ARRAY); self.ws()
                if self.peek() == 0x2c: self.i += 1; self.ws(); continue
                if self.peek() == 0x5d: break
                raise Bad(self.i, kinds=[CHARACTER if self.i < self.n else ARRAY])
        self.ev.append(("arr-", self.i, None)); self.i += 1

SIMPLE = {0x22: '"', 0x5c: "\\", 0x2f: "/", 0x62: "\b", 0x66: "\f", 0x6e: "\n", 0x72: "\r", 0x74: "\t"}

def expected_payload(kind, payload, opts):
    """The log line's tail for an event under the options."""
    h = lambda x: x.hex() or "-"
    if payload is None: return kind, ""
    if kind == "num":
        return ("num1", "%s %s" % (h(payload), None)) if opts & 2 else ("num0", h(payload))
    if kind == "esc":
        m = opts >> 2
        cp = int(payload[2:], 16) if payload[1] == 0x75 else ord(SIMPLE[payload[1]])
        if m == 0: return "esc0", h(payload)
        if m == 1: return "esc1", "%s %d" % (h(payload), cp)
        return "esc2", "%s %d %s" % (h(payload), cp, chr(cp).encode("utf-8", "surrogatepass").hex())
    return kind, h(payload)

def compare(doc, opts, lines):
    """[(property, key, detail)] for one document and the log of the real parser."""
    ref = Ref(doc, bool(opts & 1))
    ok, bad = ref.run()
    last = lines[-1].split()
    if last[1] == "assert":
        return [("C16", "assert", "internal assertion failed: " + " ".join(last[2:]))], ok, ref
    out = []
    got_ok, deaf = last[1] == "1", last[2] == "1"
    if got_ok != ok: out.append(("C16", "accepts" if got_ok else "rejects", "the parser %s a text which is %s" % ("accepts" if got_ok else "rejects", "valid" if ok else "not valid JSON")))
    if deaf != got_ok: out.append(("C16", "handler-dependent", "acceptance depends on which events are handled"))
    ev, errs = [], []
    prev = -1
    nl = [0]
    for k, ch in enumerate(doc):
        if ch == 0x0a: nl.append(k + 1)
    import bisect
    for idx, l in enumerate(lines[:-1]):
        f = l.split(" ", 4)
        kind, pos, line, col = f[0], int(f[1]), int(f[2]), int(f[3])
        tail = f[4] if len(f) > 4 else ""
        wl = bisect.bisect_right(nl, pos) - 1
        if pos > len(doc) or (line, col) != (wl, pos - nl[wl]):
            out.append(("C18" if kind == "err" else "C17", "position", "%s event at offset %d reports line %d column %d" % (kind, pos, line, col)))
        if kind == "err":
            errs.append((idx, pos, tail))
            continue
        if pos < prev: out.append(("C17", "order", "event offsets decrease at %d" % pos))
        prev = pos
        if kind == "lit" and ev and ev[-1][0] == "lit":
            ev[-1] = ("lit", ev[-1][1], ev[-1][2] + tail)
        else: ev.append((kind, pos, tail))
    def want(e):
        kind, pos, payload = e
        k, t = expected_payload(kind, payload, opts)
        return k, pos, t
    def same(g, w):
        if g[0] != w[0] or g[1] != w[1]: return False
        if g[0] == "num1":
            t, v = g[2].split(" ")
            return t == w[2].split(" ")[0] and float.fromhex(v).hex() == float(bytes.fromhex(t)).hex()
        return g[2] == w[2]
    wanted = [want(e) for e in ref.ev]
    if ok:
        if got_ok and errs: out.append(("C18", "error-on-accept", "an error was reported for an accepted document"))
        if len(ev) != len(wanted) or not all(same(g, w) for g, w in zip(ev, wanted)):
            d = next((k for k, (g, w) in enumerate(zip(ev, wanted)) if not same(g, w)), min(len(ev), len(wanted)))
            out.append(("C17", "event:%s" % (wanted[d][0] if d < len(wanted) else "extra"), "event %d: got %r want %r" % (d, ev[d:d + 1], wanted[d:d + 1])))
    else:
        if not got_ok:
            if len(errs) != 1: out.append(("C18", "errors", "%d errors reported for a rejected document" % len(errs)))
            elif errs[0][0] != len(lines) - 2: out.append(("C18", "event-after-error", "events were delivered after the error"))
        if errs:
            p = errs[0][1]
            if p > bad: out.append(("C18", "error-late", "the error is at %d but the text cannot be continued from %d on" % (p, bad)))
            elif p < ref.low: out.append(("C18", "error-early", "the error is at %d but what is wrong starts at %d" % (p, ref.low)))
            code = int(errs[0][2])
            if bad >= len(doc) and ref.kinds: ref.kinds |= {CHARACTER, ERROR} # at the end of the text, the document leaves room
            if ref.kinds and code not in ref.kinds and p >= ref.low: out.append(("C18", "error-kind:%s" % "|".join(KINDS[x] for x in sorted(ref.kinds)), "the error at %d is %s instead of %s" % (p, KINDS[code] if code < 9 else code, " or ".join(KINDS[x] for x in sorted(ref.kinds)))))
            for k, g in enumerate(ev):
                fine = k < len(wanted) and (same(g, wanted[k]) or (g[0] == "lit" and k == len(ev) - 1 and wanted[k][0] == "lit" and g[1] == wanted[k][1] and wanted[k][2].startswith(g[2])))
                if not fine:
                    out.append(("C18", "prefix-event:%s" % g[0], "event %d %r before the error is not that of a valid prefix (want %r)" % (k, g, wanted[k:k + 1]))); break
            missing = [w for w in wanted[len(ev):] if w[1] < p]
            if missing: out.append(("C18", "missing-event:%s" % missing[0][0], "event %r before the error at %d is missing" % (missing[0], p)))
    return out, ok, ref

# ---------------------------------------------------------------- workload
def gen_ws(r, comments):
    o = ""
    for _ in range(r.choice((0, 0, 0, 1, 1, 2, 3))):
        if comments and r.random() < .35:
            if r.random() < .5: o += "//" + "".join(r.choice("a /*\"\\{}é€💩\t") for _ in range(r.randrange(8))) + r.choice(("\n", "\r\n"))
            else: o += "/*" + "".join(r.choice("a /\"\\{}é€💩\n\r\t") for _ in range(r.randrange(8))) + r.choice(("", "*", "**")) + "*/"
        else: o += r.choice(WS)
    return o
def gen_str(r):
    o = '"'
    for _ in range(r.choice((0, 1, 1, 2, 3, 5, 12))):
        k = r.random()
        if k < .5: o += r.choice("abcXYZ019 /'{}[]:,\x7f")
        elif k < .6: o += r.choice("éß€漢💩\u2028\ufeff\U0010ffff")
        elif k < .85: o += "\\" + r.choice('"\\/bfnrt')
        else: o += "\\u" + r.choice(("%04x", "%04X")) % r.choice((0, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd800, 0xdfff, 0xdc00, 0xffff, 0x20ac, r.randrange(65536)))
    return o + '"'
def gen_num(r):
    o = r.choice(("", "", "-")) + r.choice(("0", "1", "9", "10", "123", str(r.randrange(10 ** r.choice((1, 5, 17, 25))))))
    if r.random() < .4: o += "." + "".join(r.choice("0123456789") for _ in range(r.choice((1, 2, 5, 20))))
    if r.random() < .4: o += r.choice("eE") + r.choice(("", "+", "-")) + r.choice(("0", "1", "7", "01", "22", "307", "308", "309", "323", "324", "400"))
    return o
def gen_value(r, depth, c):
    k = r.random()
    if depth <= 0 or k < .5:
        return r.choice((gen_str, gen_num, gen_num, lambda r: r.choice(("true", "false", "null"))))(r)
    w = lambda: gen_ws(r, c)
    n = r.choice((0, 1, 1, 2, 3, 4))
    if k < .75: return "[" + w() + ",".join(w() + gen_value(r, depth - 1, c) + w() for _ in range(n)) + "]"
    return "{" + w() + ",".join(w() + gen_str(r) + w() + ":" + w() + gen_value(r, depth - 1, c) + w() for _ in range(n)) + "}"
FRAG = list('{}[],:"\\/0123456789-+.eEtfnaul') + ["\n", "\r\n", "\t", " ", "\f", "\v", "\0", "\x1f", "\x7f", "é", "\ufeff", "true", "false", "null", "//", "/*", "*/", "\\u", "\\u12", "\\x", "0x1", "01", "NaN", "Infinity", "-", "1.", ".5", "1e", "'a'", "{}", "[]", ",,", "[1,]", '{"a":1,}', "\u00a0", "\u2028", "nul", "tru", "truex", '"', '{"a"', "{1:2}", "#c\n", "1 2", "undefined"]
def mutate(r, s):
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        i = r.randrange(len(s) + 1)
        k = r.random()
        if k < .45: s = s[:i] + r.choice(FRAG) + s[i:]
        elif k < .7: s = s[:i] + s[i + r.choice((1, 1, 1, 2, 4)):]
        elif k < .85: s = s[:i] + r.choice(FRAG) + s[i + 1:]
        elif k < .93: s = s[:i]
        else: j = r.randrange(len(s) + 1); s = s[:i] + s[min(i, j):max(i, j)] + s[i:]
    return s
def lone_cr_comment(s):
    """A lone carriage return inside a line comment: whether it ends the comment is left open."""
    return "//" in s and (re.search(r"//[^\n]*\r(?!\n)", s) or re.search("//[^\n]*[\u2028\u2029]", s))

def cases(shard, shards, seed, n, exh):
    r = random.Random(seed * 1000003 + shard)
    for _ in range(n):
        c = r.random() < .5
        d = gen_ws(r, c) + gen_value(r, r.choice((0, 1, 2, 3, 5)), c) + gen_ws(r, c)
        k = r.random()
        if k < .4: yield d, (1 if c else 0)
        elif k < .9: yield mutate(r, d), r.randrange(2)
        else:
            for i in range(min(len(d), 60)): yield d[:i], (1 if c else 0)
    alpha = ['{', '}', '[', ']', ',', ':', '"', '"a"', '0', '1', '-', '.', 'e', 'true', 'null', ' ', '\n', '\\', '//', '/*', '*/', 'x']
    k = 0
    for L in range(0, exh + 1):
        for t in itertools.product(alpha, repeat=L):
            k += 1
            if k % shards == shard: yield "".join(t), k // shards % 2
    for depth in (50, 200):     # moderately deep nesting
        if depth % shards == shard % 8: yield "[" * depth + "]" * depth, 0

def worker(a):
    exe, shard, shards, seed, n, exh = a
    docs = []
    r = random.Random(seed + shard * 77)
    for d, c in cases(shard, shards, seed, n, exh):
        if lone_cr_comment(d): continue
        docs.append((d.encode("utf-8", "surrogatepass"), c | r.randrange(2) << 1 | r.randrange(3) << 2))
    found, stats = [], {"documents": 0, "accepted": 0, "rejected": 0, "events": 0, "distinct": 0}
    seen, samples = set(), []
    start = crashes = 0
    while start < len(docs):
        payload = b"".join(struct.pack("<BI", o, len(d)) + d for d, o in docs[start:])
        rc, so, se = run_process(exe, payload)
        chunks = so.decode("ascii", "replace").splitlines()
        cur, k = [], start
        for l in chunks:
            cur.append(l)
            if l.startswith("="):
                d, o = docs[k]
                out, ok, ref = compare(d, o, cur)
                stats["documents"] += 1; stats["accepted" if ok else "rejected"] += 1; stats["events"] += len(cur) - 1
                h = hash(tuple(x.split(" ", 1)[0] for x in cur))
                if h not in seen and len(cur) > 2:
                    seen.add(h)
                    if len(samples) < 2 and len(d) < 120: samples.append({"document": d.decode("utf-8", "replace"), "options": o, "log": cur[:12]})
                for p, key, det in out:
                    if len(found) < 60: found.append((p, key, det, d, o))
                cur = []; k += 1
        if rc == 0 and k == len(docs): break
        if k >= len(docs): break
        key, det = describe(rc, se)
        if rc == -26: key, det = "hang", "no result within 5 s of CPU time"
        found += [(p, key, det, docs[k][0], docs[k][1]) for p in ("C16", "C17", "C18")]     # nothing is known about it
        start = k + 1; crashes += 8 if key == "hang" else 1
        if crashes > 16: break
    stats["distinct"] = len(seen)
    return found, stats, samples

def run(chk):
    exe = build.program("asan", "jsonp.cpp")
    n, exh = (40000, 5) if chk.thorough else (15000, 4)
    if chk.thorough: jobs = [(exe, s, 32, chk.seed, n, exh) for s in range(32)]
    else: jobs = [(exe, s, 8, chk.seed, n, exh) for s in range(8)]
    chk.cov["rule"] = "cases: random valid documents, mutations and prefixes of them, and all sequences of up to %d JSON fragments, under random parser options; non-trivial and distinct: event logs with a sequence of event kinds not seen before in the same shard" % exh
    with ProcessPoolExecutor(8) as ex:
        for found, stats, samples in ex.map(worker, jobs):
            for p, key, det, d, o in found:
                if p == chk.prop:
                    chk.violation("json:" + key, "%s; options %d, document %r" % (det, o, d[:200]), {"options": o, "document": d.decode("latin-1")})
            for k, v in stats.items(): chk.cov[k] = chk.cov.get(k, 0) + v
            for s in samples: chk.sample(s)
    chk.cov["evaluations"] = chk.cov["documents"]
    chk.add_distinct(chk.cov["distinct"])
