"""C24, C25: loading files and the command-line tool."""
import os, random, resource, shutil, stat, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import build, corpus, unit
from build import REPO

WRAP = ["-Wl,--wrap=" + f for f in ("fopen", "fclose", "fread", "ferror")]

def c24(chk):
    d = tempfile.mkdtemp(prefix="verif-io-")
    try:
        jobs = []
        for v in ("asan", "ndebug"):
            ex = build.program(v, "u_io.cpp", with_library=False, extra_sources=unit.sources("io.cpp", "chars.cpp"), libs=WRAP)
            for s in range(4):
                os.mkdir(os.path.join(d, v + str(s)))
                jobs.append((v, ex, ["-", chk.seed, chk.tier, s, os.path.join(d, v + str(s))], b""))
        st = unit.run(chk, jobs)
    finally: shutil.rmtree(d, ignore_errors=True)
    chk.cov["evaluations"] = sum(st.get(k, 0) for k in ("loads", "faults", "utf8", "utf32", "real_failures", "handle_operations"))
    chk.cov["rule"] = "files of sizes around multiples of the block size and random ones through every loading function, with failing opens and reads injected into stdio and real failures (directories, missing, unreadable, over-long and looping paths); random histories of handles; monitors: each stream closed exactly once, descriptors balanced; distinct: loads, faults and histories"
    chk.add_distinct(sum(st.get(k, 0) for k in ("loads", "faults", "utf8", "utf32", "real_failures")) + st.get("handle_operations", 0) // 14)

import struct, re
from core import Inconclusive
from batch import run_process, describe
from fuzzcheck import SAN_ENV

def expected_html(exe, items):
    data = b"".join(struct.pack("<BI", l, len(x)) + x for l, x in items)
    rc, so, se = run_process(exe, data)
    if rc: raise Inconclusive("the reference run failed: " + se[-300:])
    out, i = [], 0
    while i < len(so):
        r, n = struct.unpack_from("<iI", so, i); out.append((r, so[i + 8:i + 8 + n])); i += 8 + n
    if len(out) != len(items): raise Inconclusive("the reference run is incomplete")
    return out

def library_names():
    """name -> language value, from the library's own list in the header's order (through u_api)."""
    rc, so, se = run_process(build.program("plain", "u_api.cpp"), b"", args=["langs", "1", "quick", "0", "1"])
    t = {}
    for l in so.decode().splitlines():
        if l.startswith("LANG "): _, n, v = l.split(" "); t[n] = int(v)
    if not t: raise Inconclusive("no languages")
    return t

def c25(chk):
    cli = build.program("asan", "nothing.cpp", extra_sources=unit.sources("main.cpp"), name="ulight-cli")
    ref = build.program("plain", "ref_html.cpp")
    names = library_names()
    r = random.Random(chk.seed)
    d = tempfile.mkdtemp(prefix="verif-cli-")
    env = dict(os.environ, **SAN_ENV)
    def run(args, stdout=subprocess.PIPE, preexec=None, cwd=d):
        p = subprocess.run(["prlimit", "--cpu=60", "--core=0", cli] + args, stdin=subprocess.DEVNULL, stdout=stdout, stderr=subprocess.PIPE, cwd=cwd, env=env, preexec_fn=preexec)
        return p.returncode, p.stdout or b"", p.stderr.decode("utf-8", "replace")
    try:
        cases = []     # (kind, file name, content, lang)
        by_lang = {}
        for n, v in names.items(): by_lang.setdefault(v, []).append(n)
        per = 12 if chk.thorough else 4
        k = 0
        for v in sorted(by_lang):
            pool = [x for x in corpus.load_pack(v) + corpus.repo_seeds(v) if valid(x)]
            for i in range(per):
                x = r.choice(pool) if pool and i else b""
                if i == 2: # large enough for several flushes of text
                    while len(x) < 70000 and pool: x += r.choice(pool) + b"\n"
                if not valid(x): x = b""
                ext = by_lang[v][i % len(by_lang[v])]
                name = "f%d%s.%s" % (k, r.choice(["", ".x", " y", ".c.d"]), ext); k += 1
                cases.append(("ok", name, x, v))
            for bad in (b"a\xff", b"\xc3", b"x = \xed\xa0\x80"):
                cases.append(("badtext", "b%d.%s" % (k, by_lang[v][0]), bad, v)); k += 1
        want = expected_html(ref, [(c[3], c[2]) for c in cases])
        def one(iw):
            i, (c, (st, html)) = iw
            kind, name, x, v = c
            p = os.path.join(d, name)
            open(p, "wb").write(x)
            res = []
            res.append(("stdout", run([name if i % 2 else p])))
            o = os.path.join(d, "out%d" % i)
            if i % 3 == 0: open(o, "wb").write(b"old content" * 1000)
            res.append(("file", run([p, o] if i % 2 else [name, "out%d" % i])))
            content = open(o, "rb").read() if os.path.exists(o) else None
            os.remove(p)
            return c, st, html, res, content
        with ThreadPoolExecutor(8) as ex: results = list(ex.map(one, enumerate(zip(cases, want))))
        for (kind, name, x, v), st, html, res, content in results:
            for mode, (rc, so, se) in res:
                chk.case((mode, name))
                chk.cov["observed"] = chk.cov.get("observed", {}); chk.cov["observed"][kind + "_" + mode] = chk.cov["observed"].get(kind + "_" + mode, 0) + 1
                rep = {"name": name, "content": x.hex()[:4000], "mode": mode, "exit": rc, "stderr": se[-500:]}
                if rc < 0 or "Sanitizer" in se or "runtime error" in se:
                    chk.violation("crash", "the tool ends with %s for %r: %s" % (rc, name, se[-200:]), rep); continue
                if kind == "ok":
                    if rc != 0: chk.violation("ok:exit", "exit status %d for a valid file %r: %s" % (rc, name, se[:200]), rep)
                    elif (so if mode == "stdout" else content) != html: chk.violation("ok:output:" + mode, "the output for %r (%d bytes) is not the library's HTML (%d instead of %d bytes)" % (name, len(x), len((so if mode == "stdout" else content) or b""), len(html)), rep)
                    elif mode == "file" and so: chk.violation("ok:stdout", "something is written to standard output", rep)
                else:
                    if rc == 0: chk.violation("badtext:exit", "exit status 0 for ill-formed text %r" % name, rep)
                    elif not se.strip(): chk.violation("badtext:silent", "no explanation for ill-formed text", rep)
        # failures
        good = os.path.join(d, "good.cpp"); open(good, "wb").write(b"int x = 1; // a<b\n" * 20)
        big = os.path.join(d, "big.cpp"); open(big, "wb").write(b"int x = 1; // a<b\n" * 20000)
        sub = os.path.join(d, "dir.cpp"); os.mkdir(sub)
        full = open("/dev/full", "wb")
        rd = open(good, "rb")  # not writable
        def closed(): os.close(1)
        def fsize(n): return lambda: (__import__("signal").signal(25, __import__("signal").SIG_IGN), resource.setrlimit(resource.RLIMIT_FSIZE, (n, n)))
        limited = os.path.join(d, "limited.html")
        failures = [("no-arguments", [], {}), ("unknown-extension", [os.path.join(d, "x.unknown")], {}), ("no-extension", [os.path.join(d, "cpp")], {}), ("empty-path", [""], {}),
            ("dot-only", ["."], {}), ("missing-file", [os.path.join(d, "none.cpp")], {}), ("directory", [sub], {}), ("case", [os.path.join(d, "good.CPP")], {}),
            ("output-missing-directory", [good, os.path.join(d, "none", "o.html")], {}), ("output-is-directory", [good, sub], {}), ("output-empty", [good, ""], {}),
            ("stdout-full", [good], {"stdout": full}), ("stdout-full-big", [big], {"stdout": full}), ("stdout-read-only", [good], {"stdout": rd}), ("stdout-closed", [big], {"preexec": closed, "stdout": None}),
            ("file-full", [good, "/dev/full"], {}), ("file-full-big", [big, "/dev/full"], {}), ("file-limit", [big, limited], {"preexec": fsize(50000)}), ("file-limit-0", [good, limited], {"preexec": fsize(0)})]
        for name, args, kw in failures:
            rc, so, se = run(args, **kw)
            chk.case(("failure", name)); chk.cov["observed"]["failure_modes"] = chk.cov["observed"].get("failure_modes", 0) + 1
            rep = {"case": name, "args": args, "exit": rc, "stderr": se[-500:]}
            if rc < 0 or "Sanitizer" in se or "runtime error" in se: chk.violation("crash:" + name, "the tool ends with %s: %s" % (rc, se[-300:]), rep)
            elif rc == 0: chk.violation("failure:" + name, "exit status 0 although the run cannot have succeeded (%s)" % name, rep)
            elif not se.strip(): chk.violation("silent:" + name, "no explanation (%s)" % name, rep)
            elif so.strip(): chk.violation("output:" + name, "output although the run fails (%s)" % name, rep)
        # a good run does not touch its input; output over the input's own name is not judged
        rc, so, se = run([good])
        if open(good, "rb").read() != b"int x = 1; // a<b\n" * 20: chk.violation("input", "the input file is changed", {})
        full.close(); rd.close()
    finally: shutil.rmtree(d, ignore_errors=True)
    chk.cov["rule"] = "the tool, built with AddressSanitizer, on files of every language and name (empty, typical, several flushes long, ill-formed) to standard output and to files, compared with the library's HTML; argument, input and output failures; distinct: runs on different files and failure modes"

def valid(b):
    try: b.decode("utf-8"); return True
    except UnicodeDecodeError: return False
