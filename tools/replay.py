#!/usr/bin/env python3
"""replay.py PATH [full]: run the part of a script in which a trace was rejected (or all of it) again and judge it again"""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, plans
r = json.load(open(sys.argv[1]))
lines = r["script"] if "full" in sys.argv else r["part"]
if r["module"] == "TraceFootprint" and "memlog 1" not in lines:
    lines = ["memlog 1"] + lines
if r["module"] == "TraceIso" and "cmdlog 1" not in lines:
    lines = ["cmdlog 1"] + lines
w = tempfile.mkdtemp(prefix="imu-replay-")
try:
    d = vlib.build(w, [r["flavour"]])[r["flavour"]]
    t = os.path.join(w, "t.ndjson")
    state, err = vlib.run_driver(d, lines, t)
    if state != "OK":
        print("the program running the calls ended:", state, err)
        sys.exit(1)
    post = {"TraceFootprint": plans.only_memory, "TraceIso": plans.against_alone}.get(r["module"])
    j, env = post(t, d, w) if post else (t, None)
    o = vlib.judge(j, r["property"], r["module"], "4g", 800, w, env)
    if o.ok:
        print("accepted (%d events)" % o.events)
        sys.exit(0)
    print("rejected at event %d: %s" % (o.at, o.why))
    for k, l in enumerate(open(j), 1):
        if k == o.at:
            print(l[:2000])
    sys.exit(1)
finally:
    shutil.rmtree(w, ignore_errors=True)
