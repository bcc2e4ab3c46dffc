#!/usr/bin/env python3
"""replay.py FILE: run the script of a reported violation again against /repo's current tree and show TLC's verdict"""
import sys
from vlib import *
r = json.load(open(sys.argv[1]))
if "script" not in r:
    print(json.dumps(r, indent=1)[:20000])
    sys.exit(0)
work = tempfile.mkdtemp(prefix="gdxv_replay_")
try:
    drv = build_cdriver(work) if r["driver"] in ("c", "d") else None
    drv = build_ddriver(work) if r["driver"] == "d" else drv or (build_tdriver(work) if r["driver"] == "threads" else build_driver(work, san=r["driver"] == "san"))
    tr = run_driver(drv, [r["script"]] * (4 if r["driver"] == "threads" else 1), work, "re", tmo=300, spread=r["driver"] != "threads")
    for i, e in enumerate(tr[0]["ev"], 1):
        print(i, json.dumps(e)[:300])
    bad, _ = check_traces(tr, work)
    print("conforms" if not bad else f"MISMATCH at call {bad[0][1]}: {bad[0][2]}")
    for f in glob.glob(f"{work}/tsan.*"): print(open(f, errors="replace").read()[:3000])
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(work, ignore_errors=True)
