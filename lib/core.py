"""Result bookkeeping shared by all checks: seeds, violations, known findings, evidence, exit codes."""
import hashlib, json, os, re, sys, time, traceback
from build import VERIF, REPO, BuildError

class Inconclusive(Exception):
    """The check could not decide (harness failure): exit 2, never a verdict."""

KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")

def known_findings(prop):
    """Lines 'known: property=<id> key=<key> <what fails>'; 'fixed:' lines suppress nothing."""
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out

class Check:
    def __init__(self, prop, tier, seed, level="exploration"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.violations = []      # (key, detail, replay path)
        self.known_hits = {}
        self.known = known_findings(prop)
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.assumptions = []
        self._distinct = set()
        self.max_violations = 10

    # -- verdicts
    def violation(self, key, detail, replay):
        """replay: bytes, str or a JSON-serialisable object which reproduces the failure."""
        if key in self.known:
            self.known_hits.setdefault(key, detail)
            return
        if len(self.violations) >= self.max_violations or any(v[0] == key for v in self.violations):
            return
        d = os.path.join(VERIF, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        if isinstance(replay, (dict, list)):
            b = json.dumps({"property": self.prop, "key": key, "detail": detail, "case": replay}, indent=1, default=repr).encode()
        elif isinstance(replay, str):
            b = replay.encode("utf-8", "surrogateescape")
        else:
            b = bytes(replay)
        name = re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:60] + "-" + hashlib.sha256(b).hexdigest()[:10]
        p = os.path.join(d, name)
        with open(p, "wb") as f:
            f.write(b)
        self.violations.append((key, detail, p))

    @property
    def saturated(self):
        return len(self.violations) >= self.max_violations

    # -- coverage
    def case(self, identity=None, n=1):
        """One evaluated case; identity (hashable) if it is non-trivial by the rule."""
        self.cov["evaluations"] += n
        if identity is not None:
            self._distinct.add(hash(identity))

    def add_distinct(self, n):
        self.cov["distinct_nontrivial"] += n

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s if isinstance(s, (dict, list, int)) else str(s)[:600])

    def finish(self):
        self.cov["distinct_nontrivial"] += len(self._distinct)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        if self.known_hits:
            self.cov["known_findings_seen"] = sorted(self.known_hits)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        os.replace(p + ".tmp", p)
        for key in sorted(self.known_hits):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[key]))
        for key, detail, path in self.violations:
            print("  [%s] %s" % (key, detail[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1fs" % (
            self.prop, self.tier, self.seed, self.cov["evaluations"], self.cov["distinct_nontrivial"],
            len(self.violations), ev["wall_s"]))
        return 1 if self.violations else 0
