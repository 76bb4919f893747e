#!/usr/bin/env python3
"""Pre-builds the library variants and all harnesses (only a cache: every check rebuilds what it needs)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, V)
import build
CHECKS = {}
exec(open(os.path.join(V, "checks.conf")).read())
for i in sorted(CHECKS):
    c = CHECKS[i]
    build.build(c["variant"], [(i.lower(), c["src"])] if c.get("src") else [], c.get("plugins", []), c.get("pylm", False))
print("setup done")
