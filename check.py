#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current working tree.
Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough).
Exit 0: held on everything explored; 1: VIOLATION lines; 2: no verdict (harness failure)."""
import importlib, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from core import Check, Inconclusive
from build import BuildError

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for a in sys.argv[2:]:
        if a.startswith("--seed="): seed = int(a[7:])
    import registry
    mod, fn, level = registry.CHECKS[prop][:3]
    chk = Check(prop, tier, seed, level)
    if chk.thorough:
        import batch; batch.CPU = 3000
    try:
        getattr(importlib.import_module("checks." + mod), fn)(chk)
    except (Inconclusive, BuildError) as e:
        print("INCONCLUSIVE property=%s %s" % (prop, e))
        if chk.violations:
            return chk.finish()
        return 2
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE property=%s the harness failed" % prop)
        if chk.violations:
            return chk.finish()
        return 2
    return chk.finish()

if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True, errors="backslashreplace")
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
