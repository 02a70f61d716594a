#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {}
TECH = "deterministic simulation with fault injection: seeded runs of the real library on a simulated heap, with injected failures, judged step by step against a reference model of explicit sets"
NOTE = {
 "C01": "placements of nodes in memory, cache/table/arena sizes and preceding histories are what the seed varies",
 "C02": "all pairs of held diagrams plus a from-scratch rebuild of every result",
 "C03": "every held handle is decoded again throughout and at the end of each run",
 "C04": "stored counts at quiescent points against the starting values; simulated heap empty at the end",
 "C05": "random operation terms against an interpreter on explicit sets",
 "C06": "rewritten operations, repeatedly rewritten ones included, against the interpreter on the original term",
 "C07": "exceptions of four kinds at chosen callback calls; identity of the exception, state and retry checked",
 "C08": "mismatches at the top and further down; type of the refusal, state, later results and leaks checked",
 "C09": "up to four suspended enumerations interleaved with everything else and abandoned at any point",
 "C10": "counts against explicit sets and exact inclusion-exclusion on large cubes",
 "C11": "statistics compared around every request; recently computed results must be served without calling the user again",
 "C12": "cache clears injected between requests and inside callbacks",
 "C13": "chosen allocations fail, singly and in bursts; outcome, state, retry and final leak accounting",
 "C14": "up to three configurations, two of which share value storage; initialisations fail at chosen allocations",
 "C15": "the next steps of the plan run inside chosen callback calls, nested up to three deep",
 "C16": "terms rebuilt after arbitrary histories, permuted, repeated and grouped",
 "C17": "output streams that fail or throw after a chosen number of characters; counts against the reduced form",
 "C18": "held value sets re-examined throughout; stored count at quiescence",
 "C19": "random hierarchies of identifiers, allocation failures in construction and lookup",
 "C20": "random hypergraphs in random histories of others, allocation failures in construction",
}
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA: continue
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": "exploration",
                   "level_note": NOTE[p] + ". Search, not proof: it holds on the runs explored. Trusts the reference model (sim/model.hh), the simulated heap and the compiler; assumes single-threaded use and pure user callbacks."})
m = {"version": 1, "setup_cmd": "python3 check.py build quick", "checks": checks,
     "not_applicable": [{"property": a, "reason": b} for a, b in NA.items()],
     "notes": "No hooks in /repo: the seams are operator new/delete, the streams and the user callbacks, all outside the library. Replay a violation with: python3 check.py replay FILE."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
