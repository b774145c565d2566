#!/usr/bin/env python3
"""Development tool (no check uses it): random mutants of one source file which pass the test suite, against given checks.
mutate.py FILE N SEED WORKERS CHECK... ; results go to /tmp/mut/<file>.jsonl"""
import json, os, random, re, shutil, subprocess, sys, threading, queue
OUT = "/tmp/mut"
def sh(cmd, t=600, **k):
    try: return subprocess.run("exec timeout -k 5 %d %s" % (t, cmd), shell=True, capture_output=True, text=True, errors="replace", **k)
    except Exception as e: raise
def sites(src):
    """[(line number, new line, what)]"""
    L = src.split("\n"); out = []; depth_comment = False
    hts = sorted(set(re.findall(r"Highlight_Type::(\w+)", src)))
    start = 0
    for n, l in enumerate(L):
        s = l.strip()
        if not s or s.startswith(("//", "#", "*", "/*", "static_assert", "using ", "namespace", "template", "[[nodiscard]]")) or "ASSERT" in l or "static_assert" in l: continue
        code = l.split(" //")[0]
        def add(a, b, new, what): out.append((n, l[:a] + new + l[b:], what))
        for m in re.finditer(r" (==|!=|<=|>=|<|>|&&|\|\||\+|-) ", code):
            o = m.group(1)
            if o in "<>" and ("template" in l or re.search(r"\w+<[\w:]+ ?>", l)): continue
            for r in {"==": ["!="], "!=": ["=="], "<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "&&": ["||"], "||": ["&&"], "+": ["-"], "-": ["+"]}[o]:
                add(m.start(), m.end(), " %s " % r, "%s->%s" % (o, r))
        m = re.match(r"(\s*(?:\} else )?(?:else )?if \()([^;={}]*(?:[=!<>]=[^;={}]*)*)(\) \{\s*)$", code)
        if m:
            out.append((n, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3), "if false"))
            out.append((n, m.group(1) + "true || (" + m.group(2) + ")" + m.group(3), "if true"))
        for m in re.finditer(r"\(!(?=\w)|&& !(?=\w)|\|\| !(?=\w)", code): add(m.end() - 1, m.end(), "", "no !")
        for m in re.finditer(r"(?<![\w'.\"])(\d+)(?![\w'.\"])", code):
            if len(m.group(1)) < 4: add(m.start(), m.end(), str(int(m.group(1)) + 1), "n+1")
            if m.group(1) not in ("0",): add(m.start(), m.end(), str(int(m.group(1)) - 1), "n-1")
        for m in re.finditer(r"u8'(\\?.)'", code): add(m.start(1), m.end(1), "~" if m.group(1) != "~" else "@", "char")
        for m in re.finditer(r'u8"((?:\\.|[^"\\])+)"', code):
            t = re.findall(r"\\.|[^\\]", m.group(1))
            i = (n * 7) % len(t)
            if len(t) > 1: add(m.start(1), m.end(1), "".join(t[:i] + t[i + 1:]), "string")
            if len(t) > 1: add(m.start(1), m.end(1), "".join(t[:-1]), "string end")
        for m in re.finditer(r"Highlight_Type::(\w+)", code):
            o = [h for h in hts if h != m.group(1)]
            if o: add(m.start(1), m.end(1), o[(n * 13) % len(o)], "type")
        for m in re.finditer(r"\b(true|false)\b", code): add(m.start(), m.end(), "false" if m.group(1) == "true" else "true", "bool")
        if re.match(r"\s*(?:[\w.>-]+\(.*\);|\+\+\w+;|[\w.]+ \+?-?= [^;]*;|break;|continue;)\s*$", code) and not re.match(r"\s*return\b", code): out.append((n, "", "delete"))
        if re.match(r"\s*return [^;]+;\s*$", code) and "return true" not in code and "return false" not in code and "return {" not in code: pass
        if re.match(r"\s*(\|\||&&) .*[^;{]\s*$", code) and code.count("(") == code.count(")"): out.append((n, "", "drop condition"))
        if re.match(r"\s*case [\w:']+:.*$", code) and not re.search(r"return|;", code) and n and L[n - 1].strip().startswith("case "): out.append((n, "", "drop case"))
    return [x for x in out if x[1] != L[x[0]]]
def worker(i, q, f, checks, log, lock):
    w = "%s/w%d" % (OUT, i); repo, verif, b = w + "/repo", w + "/verif", w + "/b"
    os.makedirs(w, exist_ok=True)
    sh("rsync -a --delete --exclude _build /repo/ %s/" % repo); sh("rsync -a --delete --exclude replays --exclude seeded --exclude .git --exclude build /verif/ %s/" % verif)
    os.makedirs(b, exist_ok=True)
    r = sh('cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_FLAGS_DEBUG="-g0 -O1" -DCMAKE_CXX_FLAGS_DEBUG="-g0 -O1" -DCMAKE_C_COMPILER=gcc-13 -DCMAKE_CXX_COMPILER=g++-13 -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest' % (repo, b))
    sh("find %s -name '*.cpp' -exec touch {} +" % repo)        # rsync sets old times: objects of an earlier mutant would stay
    r = sh("ninja -C %s -j4 ulight-test" % b, 900); assert r.returncode == 0, r.stdout[-500:]
    r = sh("%s/ulight-test --gtest_brief=1" % b, 120, cwd=repo); assert r.returncode == 0, r.stdout[-500:]
    p = repo + "/" + f; orig = open(p).read(); L = orig.split("\n")
    while True:
        try: n, new, what = q.get_nowait()
        except queue.Empty: break
        M = L[:]; M[n] = new
        open(p, "w").write("\n".join(M))
        res = {"line": n + 1, "old": L[n].strip(), "new": new.strip(), "what": what}
        r = sh("ninja -C %s -j3 ulight-test" % b, 300)
        if r.returncode: res["r"] = "nobuild"
        else:
            r = sh("prlimit --as=8000000000 %s/ulight-test --gtest_brief=1 --gtest_filter=-*exhaustive*" % b, 20, cwd=repo)
            if not r.returncode: r = sh("prlimit --as=8000000000 %s/ulight-test --gtest_brief=1" % b, 60, cwd=repo)
            if r.returncode: res["r"] = "tests"
            else:
                res["r"] = "MISSED"
                for c in checks:
                    r = sh("python3 check.py %s" % c, 700, cwd=verif, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1"))
                    if r.returncode == 1:
                        res["r"] = "caught"; res["by"] = c; m = re.search(r"replay=(\S+)", r.stdout)
                        try: res["replay"] = json.load(open(m.group(1)))
                        except Exception: pass
                        break
                    if r.returncode not in (0, 1): res["r"] = "exit %d" % r.returncode; res["by"] = c; res["out"] = (r.stdout + r.stderr)[-300:]; break
        open(p, "w").write(orig)
        with lock:
            log.write(json.dumps(res) + "\n"); log.flush()
def main():
    f, n, seed, ws = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]); checks = sys.argv[5:]
    src = open("/repo/" + f).read(); ss = sites(src)
    r = random.Random(seed); r.shuffle(ss)
    seen, pick = {}, []
    for s in ss:
        if seen.get(s[0], 0) >= 2: continue
        seen[s[0]] = seen.get(s[0], 0) + 1; pick.append(s)
    print(f, len(ss), "sites")
    q = queue.Queue()
    for s in pick[:n]: q.put(s)
    lock = threading.Lock(); name = OUT + "/" + os.path.basename(f) + ".jsonl"
    with open(name, "a") as log:
        ts = [threading.Thread(target=worker, args=(i, q, f, checks, log, lock)) for i in range(ws)]
        for t in ts: t.start()
        for t in ts: t.join()
    c = {}
    for l in open(name): x = json.loads(l); c[x["r"]] = c.get(x["r"], 0) + 1
    print(f, c)
if __name__ == "__main__": main()
