#!/usr/bin/env python3
"""replay.py PROPERTY SCRIPT: executes one script again on the current tree and validates its trace."""
import os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, check
exe, jd = build.build()
with tempfile.TemporaryDirectory() as d:
    rc, err = check.run_harness(exe, os.path.abspath(sys.argv[2]), d + "/t.nd", d, 300)
    if rc: print("harness exit", rc); print(err[-4000:]); sys.exit(1)
    kind, rej, c, out = check.validate(jd, d + "/t.nd", sys.argv[1], d + "/meta", 600)
    if len(sys.argv) > 3: open(sys.argv[3], "w").write(open(d + "/t.nd").read())
    if kind == "fail": print(out[-3000:])
    for r in rej: print(r)
    print(kind, len(rej), "rejections", c)
    sys.exit(1 if kind != "ok" or rej else 0)
