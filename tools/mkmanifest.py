#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = {}
CLAIMED = "S01 S02 S03 S04 S05 S06 S07 D01 D02 D03 D04 D05 D06 G01 G02 X01 X02 X03 X04 X05 X06 X07 X08 X09 X10 X12 X13 P01 P02".split()
NA = {
 "X11": "Index.Optimize: its contract (same nodes, every word keeps its tag sets, references valid) and most of its loop invariants are within the verifier's language, but the proof of the five loops is not complete; no weaker technique is put in its place",
 "P03": "the parser dispatches to closures kept in a map and compares function values by their printed addresses (fmt %p); gvc has no contracts on function values, so the effect of a dispatched handler on the parser's path cannot be bounded",
 "P04": "the handler runs behind the same map of closures and talks to dag.Index/dag.Node interfaces that have no contract-carrying implementation at that boundary; gvc has no contracts on function values or interface methods",
 "P05": "the guarantee is about files: a created, partly written, closed or removed file is outside the verifier's state, and ParseUpdate's recover turns arbitrary panics into errors, which the calculus does not model",
 "P06": "the decision depends on the clock, the file system and an HTTP server; a contract would only restate the branches over unconstrained answers of os.Stat and http.Head",
}
DEFAULT_NA = "contracts for this part are not finished; nothing decides it yet"
NOTE = {}
TECH = "contract-based deductive verification: contracts on the Go functions, VCs generated from /repo's SSA (gvc), discharged by z3/cvc5"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
exec(open(os.path.join(V, "tools", "manifest_notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": LEVEL.get(i, "proof"), "level_note": NOTE.get(i, GENERAL)})
    else:
        na.append({"property": i, "reason": NA.get(i, DEFAULT_NA)})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
