#!/usr/bin/env python3
"""python3 check.py ID...: run the checks of properties; exit 0, 1 (VIOLATION) or 2 (no answer)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import checks
rc = 0
for a in sys.argv[1:]:
    if a == "--thorough":
        os.environ["VERIF_TIER"] = "thorough"
        continue
    rc = max(rc, checks.run(a)) if rc != 1 else rc or checks.run(a)
sys.exit(rc)
