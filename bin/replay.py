#!/usr/bin/env python3
"""replay.py ID ENTRY CEX [args]: re-runs a counterexample in a native build of /repo's sources."""
import sys
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)))
from wsymlib import *
import checks as C
pid, entry, cex = sys.argv[1:4]
work = os.path.join(BUILD, "run", "replay")
shutil.rmtree(work, ignore_errors=True)
os.makedirs(work)
b = Builder(work)
for g in C.CHECKS[pid]["groups"]:
    if any(r["entry"] == entry for r in g["runs"]):
        e = b.native(g["name"], g["srcs"], entry, tuple(g.get("defs", ())))
        st, out = replay(e, cex, sys.argv[4:], "hang")
        print(st)
        print(out)
