#!/usr/bin/env python3
"""replay.py <file>: runs the case (or the worker) of a replay file again on the current tree."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
f = sys.argv[1]
c = parse_case(f)
v = c.get("variant", "asan")
if v not in VARIANTS:
    log_f = f + ".log"
    sys.exit("not a replay of the C++ rig: rerun the check with the seed it names")
exe = build_rigs([v])[v]
if c.get("mode") in ("single", "fault", "steps", "prog", "progalias") and c.get("op"):
    cmd = [exe, "--replay", f, "--out", tempfile.mkdtemp()]
else:
    cmd = [exe, "--mode", c["wmode"], "--prop", c["prop"], "--seed", c["wseed"], "--index", c["windex"], "--workers", str(NCPU), "--cases", c["wcases"], "--out", tempfile.mkdtemp(), "--consts", consts_file()]
rc, out = run(cmd, 3600, ENVS.get(v))
print(out)
print("exit status", rc)
