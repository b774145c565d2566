#!/usr/bin/env python3
"""Checks that the tools the checks rely on are there; each check builds what it needs itself."""
import shutil, sys
missing = [t for t in ("clang++", "g++", "prlimit") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + ", ".join(missing))
print("setup: ok")
