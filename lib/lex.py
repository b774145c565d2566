"""Judges token streams against grammars: generators emit sources as items whose segments carry the type
which the language's grammar gives them; the observed tokens have to cover exactly those segments.

An item is (kind, [(text, type), ...]); a type is the lower-case name of an ULIGHT_HL_ constant, None for
text without a token, ANY for text that is not judged, or a tuple of acceptable types."""
import multiprocessing, os, random, re, struct, subprocess, time
import build, corpus
from build import REPO
from fuzzcheck import SAN_ENV, classify
from core import Inconclusive

ANY = "?"
_types = None
def types():
    global _types
    if _types is None:
        t = open(os.path.join(REPO, "include/ulight/ulight.h"), encoding="utf-8").read()
        _types = {m.group(1).lower(): int(m.group(2), 0) for m in re.finditer(r"\bULIGHT_HL_(\w+)\s*=\s*(0x[0-9a-fA-F]+|\d+)", t)}
        if len(_types) < 50: raise Inconclusive("the header's highlight types are not found")
    return _types
def type_name(v):
    for k, x in types().items():
        if x == v: return k
    return hex(v)

class Proc:
    """A highlighter process; restarted after a crash."""
    def __init__(self, exe, cap=64): self.exe, self.cap, self.p = exe, cap, None
    def run(self, cases):
        """cases: [(lang, flags, bytes)] -> [(status, [(begin, length, type)])]; status is a string for crashes."""
        out, crashes = [], 0
        while len(out) < len(cases):
            if crashes >= 8: out += [(None, [])] * (len(cases) - len(out)); break      # enough is known
            chunk = cases[len(out):]
            env = dict(os.environ, **SAN_ENV)
            p = subprocess.run(["prlimit", "--cpu=300:305", "--core=0", self.exe, str(self.cap)], input=b"".join(struct.pack("<BBI", l, f, len(x)) + x for l, f, x in chunk), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
            b, i, n0 = p.stdout, 0, len(out)
            while i + 8 <= len(b):
                st, n = struct.unpack_from("<iI", b, i)
                if i + 8 + 9 * n > len(b): break
                out.append((st, list(struct.iter_unpack("<IIB", b[i + 8:i + 8 + 9 * n])))); i += 8 + 9 * n
            if len(out) < len(cases):
                if p.returncode == 0: raise Inconclusive("the harness stopped early")
                if p.returncode == 2 and not p.stderr.strip(): raise Inconclusive("harness error")
                if p.returncode == -9: raise Inconclusive("the harness was killed")
                k, d = classify(p.stderr.decode("utf-8", "replace"))
                what = "hang" if p.returncode in (-26, -24) else k or "signal %d" % p.returncode
                crashes += 4 if what == "hang" else 1      # hangs cost seconds each
                out.append((what + ": " + (d or ""), []))
        return out

def flatten(doc):
    """(bytes, [(start, end, type, item index)])"""
    parts, segs, pos = [], [], 0
    for i, (kind, ss) in enumerate(doc):
        for text, t in ss:
            b = text if isinstance(text, bytes) else text.encode("utf-8")
            if not b: continue
            segs.append((pos, pos + len(b), t, i)); parts.append(b); pos += len(b)
    return b"".join(parts), segs

EXACT = frozenset(("operator", "keyword", "identifier", "number"))
def judge(doc, data, segs, status, tokens, exact=()):
    """None, or (key suffix, detail)."""
    if status is None: return None
    if status != 0: return "status:%s" % (str(status).split(":")[0]), "status %s" % status
    m = bytearray(len(data))
    for b, n, t in tokens:
        if b + n > len(data): return "tokens:out of range", "a token at %d of length %d in a source of %d bytes" % (b, n, len(data))
        m[b:b + n] = bytes([t]) * n
    T = types()
    spans = {(b, b + n) for b, n, t in tokens} if exact else None
    for s, e, t, i in segs:
        if t == ANY: continue
        if exact and t and doc[i][0] in exact and (s, e) not in spans and all(m[s:e]):
            return "%s:not one token" % doc[i][0], "%r of item '%s' at %d is not one token, but the tokens %s" % (data[s:e].decode("utf-8", "replace")[:80], doc[i][0], s, sorted((data[b:b + n].decode("utf-8", "replace"), type_name(t)) for b, n, t in tokens if b < e and b + n > s)[:5])
        got = m[s:e]
        if t is None: ok = not any(got); want = "none"
        elif isinstance(t, tuple):
            ok = any(got == bytes([T[x] if x else 0]) * (e - s) for x in t); want = "|".join(str(x) for x in t)
        else:
            if t not in T: raise Inconclusive("unknown type " + t)
            ok = got == bytes([T[t]]) * (e - s); want = t
        if not ok:
            allowed = [T[x] if x else 0 for x in (t if isinstance(t, tuple) else (t,))]
            bad = next((x for x in got if x not in allowed), got[0])
            return "%s:%s->%s" % (doc[i][0], want, type_name(bad) if bad else "none"), "%r of item '%s' at %d should be %s, but is %s" % (data[s:e].decode("utf-8", "replace")[:80], doc[i][0], s, want, [type_name(x) if x else "none" for x in sorted(set(got))])
    return None

def shrink(proc, lang, flags, doc, key, rejoin, limit=200, exact=()):
    """Removes items while some failure with the same key remains. rejoin(doc) restores validity (or None)."""
    tries = 0
    n = max(1, len(doc) // 2)
    t0 = time.process_time() + os.times().children_user
    while n >= 1 and tries < limit and time.process_time() + os.times().children_user - t0 < 60:
        i = 0; progress = False
        cands, where = [], []
        while i < len(doc):
            c = doc[:i] + doc[i + n:]
            c = rejoin(c)
            if c: cands.append(c); where.append(i)
            i += n
        if cands:
            flat = [flatten(c) for c in cands]
            res = proc.run([(lang, flags, f[0]) for f in flat]); tries += len(cands)
            for c, f, (st, tk) in zip(cands, flat, res):
                v = judge(c, f[0], f[1], st, tk, exact)
                if v and v[0] == key and len(c) < len(doc):
                    doc = c; progress = True; break
        if not progress: n //= 2
    return doc

def _work(args):
    exe, genf, lang, seed, docs, flagset, opts = args
    r = random.Random(seed)
    gen = genf(r)
    proc = Proc(exe, r.choice([1, 3, 64, 1000]))
    rejoin = getattr(gen, "rejoin", None) or (lambda d: d)
    exact = getattr(gen, "exact", EXACT)
    fails, kinds, pairs, ntok, samples, hashes = {}, {}, set(), 0, [], set()
    todo = [gen.doc() for _ in range(docs)]
    flat = [flatten(d) for d in todo]
    langs = [getattr(d, "lang", lang) for d in todo]
    flags = [getattr(d, "flags", None) if getattr(d, "flags", None) is not None else r.choice(flagset) for d in todo]
    res = proc.run([(lg, fl, f[0]) for lg, fl, f in zip(langs, flags, flat)])
    for lg, fl, d, f, (st, tk) in zip(langs, flags, todo, flat, res):
        ntok += len(tk); hashes.add(hash(f[0]))
        prev = None
        for k, _ in d:
            kinds[k] = kinds.get(k, 0) + 1
            if prev: pairs.add((prev, k))
            prev = k
        ex = () if fl & 1 else exact
        v = judge(d, f[0], f[1], st, tk, ex)
        if v:
            e = fails.setdefault(v[0], [0, None])
            e[0] += 1
            if e[1] is None:
                if len(fails) <= 12 and v[0] != "status:hang":
                    d2 = shrink(proc, lg, fl, list(d), v[0], rejoin, exact=ex)
                    f2 = flatten(d2); st2, tk2 = proc.run([(lg, fl, f2[0])])[0]
                    v2 = judge(d2, f2[0], f2[1], st2, tk2, ex) or v
                    e[1] = (v2[1], f2[0], lg, fl)
                else: e[1] = (v[1], f[0], lg, fl)
        elif len(samples) < 1: samples.append(f[0].decode("utf-8", "replace")[:300])
    return fails, kinds, pairs, ntok, samples, hashes

def check(chk, prefix, lang, genf, docs, flagset=(0, 0, 0, 1), exe=None):
    """Runs docs documents of genf(random).doc() in parallel."""
    exe = exe or build.program("asan", "tok.cpp")
    workers = os.cpu_count() or 8
    docs = int(docs * (20 if chk.thorough else 6))
    n = max(32, -(-docs // 1500))
    jobs = [(exe, genf, lang, "%s/%s/%d" % (chk.seed, prefix, i), max(1, docs // n), flagset, {}) for i in range(n)]
    obs = chk.cov.setdefault("observed", {})
    with multiprocessing.get_context("fork").Pool(workers) as pool:
        fails, kinds, pairs, total = {}, {}, set(), set()
        for fl, ki, pa, nt, sa, ha in pool.imap_unordered(_work, jobs):
            for k, (n, ex) in fl.items():
                e = fails.setdefault(k, [0, ex]); e[0] += n
                if ex and e[1] and len(ex[1]) < len(e[1][1]): e[1] = ex
            for k, n in ki.items(): kinds[k] = kinds.get(k, 0) + n
            pairs |= pa; total |= ha
            obs[prefix + "_tokens"] = obs.get(prefix + "_tokens", 0) + nt
            for s in sa: chk.sample(prefix + ": " + s)
    chk.cov["evaluations"] += sum(j[4] for j in jobs)
    chk.add_distinct(len(total))
    obs[prefix + "_items"] = dict(sorted(kinds.items()))
    obs[prefix + "_distinct_neighbour_pairs"] = len(pairs)
    for k, (n, (detail, data, lg, fl)) in sorted(fails.items()):
        chk.violation("%s:%s" % (prefix, k), "%s: %s; %d documents; shortest: %r" % (prefix, detail, n, data.decode("utf-8", "replace")[:500]), {"language": corpus.LANGS[lg], "flags": fl, "source": data.decode("utf-8", "replace"), "hex": data.hex(), "detail": detail})

RULE = "documents of random sequences of the grammar's elements, in random neighbourhoods; the observed tokens are painted over the source and compared, element by element, with the extent and type the grammar gives; distinct: different documents"
class Doc(list):
    """A document; may carry a language and flags of its own."""

def witness(chk, prefix, lang, docs, flags=0):
    """Judges fixed documents, for defects which known_findings.txt lists by name: {name: [items]}; the key is prefix:witness:name."""
    exe = build.program("asan", "tok.cpp")
    names = sorted(docs); flat = [flatten(docs[n]) for n in names]
    for n, f, (st, tk) in zip(names, flat, Proc(exe).run([(lang, flags, f[0]) for f in flat])):
        chk.case("witness " + n)
        v = judge(docs[n], f[0], f[1], st, tk, EXACT)
        if v: chk.violation("%s:witness:%s" % (prefix, n), v[1], {"language": corpus.LANGS[lang], "flags": flags, "source": f[0].decode("utf-8", "replace"), "hex": f[0].hex(), "detail": v[1]})
