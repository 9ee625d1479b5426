#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property in CLAIMED, the rest under not_applicable."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = ("property-based testing: generated structs compiled with the real derive, generated call histories run and compared with a "
       "reference model, failures shrunk")
RUN_NOTE = ("Random search (fixed work per seed) over structs x histories against an executable model written from the documentation; "
            "no proof of absence. Trusts rustc 1.88, the model and the generated interpreters.")
T = {}
for i in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C13 C14 C17 C18 C20 C21".split():
    T[i] = (RUN, RUN_NOTE)
EXP = ("property-based testing: generated derive inputs expanded in process, the parsed expansion checked against {}")
EXP_NOTE = "Random search over derive inputs; the oracle works on items found by name, not on token text. Trusts syn's parser and the oracle."
exec(open(os.path.join(here, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": [
        {"property": i, "quick_cmd": f"bash ./check {i} quick", "thorough_cmd": f"bash ./check {i} thorough",
         "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": "exploration", "level_note": T[i][1]}
        for i in ids if i in T],
    "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in T],
    "notes": "No hooks in /repo: the checks use the public API of derive_builder_core and the real derive. Known findings: known_findings.txt. Replay a violation with: bash ./check replay FILE",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
