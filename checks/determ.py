"""C07: determinism, reentrancy and thread safety."""
import random, struct
import build, corpus, unit
from batch import run_process, describe

def payload(chk, per):
    r = random.Random(chk.seed); items = []
    for l in corpus.LANGS:
        pool = [x for x in corpus.load_pack(l) + corpus.repo_seeds(l) if len(x) < 3000]
        for x in r.sample(pool, min(per, len(pool))):
            if r.random() < .15 and len(x) > 3: x = x[:r.randrange(len(x))]
            items.append((l, r.randrange(4), x))
    return items, b"".join(struct.pack("<BBI", l, f, len(x)) + x for l, f, x in items)

def c07(chk):
    items, data = payload(chk, 150 if chk.thorough else 40)
    tsan, plain = build.program("tsan", "u_determ.cpp"), build.program("ndebug", "u_determ.cpp")
    zero = build.program("plain", "u_determ.cpp", extra=["-ftrivial-auto-var-init=zero"])
    pat = build.program("plain", "u_determ.cpp", extra=["-ftrivial-auto-var-init=pattern"])
    # the same in different orders, and with memory that starts out as zeroes or as a pattern
    ref = None
    for n, (label, exe, shard, env) in enumerate([("ndebug", plain, 0, {}), ("ndebug reordered", plain, 1, {"MALLOC_PERTURB_": "165"}), ("ndebug reordered again", plain, 2, {"MALLOC_PERTURB_": "90"}),
                                     ("zeroed stack", zero, 3, {}), ("pattern stack", pat, 4, {"MALLOC_PERTURB_": "255"})]):
        rc, so, se = run_process(exe, data, env=env, args=["digest", str(chk.seed), chk.tier, str(shard), "8"])
        dig = [l.split(" ")[1:] for l in so.decode().splitlines() if l.startswith("DIGEST ")]
        if rc or len(dig) != len(items):
            k, dd = describe(rc, se); chk.violation("digest:" + k, "[%s] %s" % (label, dd), {"label": label})
            if k == "hang": return
            continue
        chk.case(n=len(dig) * 2)
        if ref is None: ref = dig
        for a, b in zip(ref, dig):
            if a != b:
                l, f, x = items[int(a[0])]
                chk.violation("digest:%s" % corpus.LANGS[l], "language %s, flags %d: the result in the run '%s' differs from the first; source %r" % (corpus.LANGS[l], f, label, x[:300]), {"lang": l, "flags": f, "hex": x.hex()})
    jobs = [("history", plain, ["history", chk.seed, chk.tier, s, 6], data) for s in range(6)] + [("threads", tsan, ["threads", chk.seed, chk.tier, 10 + s, 2], data) for s in range(2)]
    st = unit.run(chk, jobs, workers=4)
    chk.cov["evaluations"] += st.get("runs", 0)
    chk.cov["observed"]["orders_and_builds"] = 5
    chk.cov["rule"] = "digests of tokens, HTML, status and message of each source: in five processes with different orders, stack and heap contents; in random histories of one state with failures in between, other buffers and addresses; and in eight threads under ThreadSanitizer; distinct: runs in histories and threads"
    chk.add_distinct(st.get("runs", 0))
