#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
CLAIMED = open(os.path.join(V, "tools", "claimed.txt")).read().split()
NA = {
 "C28": "Durability is a promise of the external databases and brokers after their client calls return; no contract on functions of this repository can express or decide what survives a crash of another process.",
 "C29": "Liveness under fair scheduling: contracts discharged function by function state what holds when a call returns, not that it is eventually scheduled; a slow storage makes Save block for an unbounded time by design.",
 "C30": "The functions are one-line wrappers of google.golang.org/protobuf, whose reflection- and unsafe-based encoder is outside the verifier's reach; assuming its round trip as a contract would assume the property itself.",
}
TODO = "the contracts of this part are not finished"
TECH = "contract-based deductive verification of the Go source (per-function contracts, loop invariants, SMT)"
NOTE = ("Every obligation generated from /repo's current source for the functions under contract is discharged for all inputs, without a bound. "
        "Trusted: the obligation generator in /verif/engine, x/tools SSA, the solvers, the models of standard-library functions listed in the evidence; "
        "floating point is treated as real arithmetic.")
EXTRA = {}
exec(open(os.path.join(V, "tools", "levelnotes.py")).read()) if os.path.exists(os.path.join(V, "tools", "levelnotes.py")) else None
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "technique": TECH, "level": "proof", "level_note": NOTE + (" " + EXTRA[i] if i in EXTRA else "")})
    else:
        na.append({"property": i, "reason": NA.get(i, TODO)})
json.dump({"version": 1, "setup_cmd": "./check --setup", "hooks": {"guard": "none", "enable": "no hooks: contracts and harnesses live in /verif/specs and are added to the packages by an overlay; /repo's files are verified as they are", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "known_findings.txt lists the genuine defects found and repaired; DESIGN.md describes the machinery."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
