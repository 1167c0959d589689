#!/usr/bin/env python3
"""Replays the first witness of a violation file on /repo's current tree."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, vrun
v = json.load(open(sys.argv[1]))
r = v["witnesses"][0]["replay"]
if "harness" not in r:
    print(json.dumps(r, indent=1))
    sys.exit(0)
exe = build.build_harness(r["harness"], r.get("flavor", "asan"))
cmd = [exe, "--prop", v["property"], "--seed", str(v["seed"]), "--tier", v["tier"], "--cases", "1",
       *map(str, r["args"]), "--only", str(r["case"]), "--verbose", "1"]
print(" ".join(cmd))
sys.exit(subprocess.run(cmd, env=vrun.env()).returncode)
