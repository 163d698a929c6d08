#!/usr/bin/env python3
"""replay.py FILE [n]: executes the scenario of a replay file again (n times,
hash maps iterate differently in each process) and validates it."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
text = open(sys.argv[1]).read()
prop = re.search(r"^property (\S+)", text).group(1)
spec = re.search(r"^specification (\S+)", text, re.M).group(1)
sc = re.search(r"^SC (.*)", text, re.M).group(1)
check.build()
run = check.Run(prop, "quick", 1)
for k in range(int(sys.argv[2]) if len(sys.argv) > 2 else 40):
    r = run.shard(spec, [sc], k)
    if r[4] != "ok":
        print("reproduced in run", k, r[4], r[3][r[5] - 1] if r[5] else "")
        sys.exit(1)
print("not reproduced")
