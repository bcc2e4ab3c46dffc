#!/usr/bin/env python3
"""setup: the tools are present, the specification parses, and its accelerated operators equal their definitions"""
from vlib import *
w = tempfile.mkdtemp(prefix="gdxv_setup_")
try:
    overrides(w)
    for m in sorted(glob.glob(SPEC + "/*.tla")):
        r = sh(["java", "-cp", TLAJARS, f"-DTLA-Library={SPEC}", "tla2sany.SANY", m], cwd=SPEC)
        if r.returncode or "rror" in r.stdout.replace("Semantic errors: 0", ""):
            print(r.stdout); sys.exit(f"{m} does not parse")
    out = run_tlc(w, "SelfTest.tla", "SelfTest.cfg")
    if "SELFTEST" not in out or "No error has been found" not in out:
        print(out[-3000:]); sys.exit("self test of the accelerated operators failed")
    print("setup ok:", [l for l in out.splitlines() if "SELFTEST" in l])
finally:
    shutil.rmtree(w, ignore_errors=True)
