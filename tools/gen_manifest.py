#!/usr/bin/env python3
# Regenerates MANIFEST.json from the analyser's registered specifications.
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = subprocess.run([root + "/bin/sa", "-prop", "list"], capture_output=True, text=True, check=True).stdout.split()
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
AI = "static analysis: abstract interpretation of the SSA form (value-graph domain)"
TECH = {
    "C16": "static analysis: effect analysis (package-level state scan, read/write sets of abstract heap objects)",
    "C29": "static analysis: effect analysis of all references to other packages, taint analysis of package-level state",
    "C30": "static analysis: termination measures of all loops, progress of recursion, typestate of locks (SSA)",
    "C25": "static analysis: error-flow dataflow over SSA (every error value is returned, joined, or tested and handled)",
    "C23": "static analysis: abstract interpretation of the name tables and their uses (exhaustiveness, injectivity)",
    "C22": "static analysis: abstract interpretation under different map iteration orders, comparison of value graphs",
    "C13": "static analysis: abstract interpretation, reachability of panics (bounds, nil, shapes, divisions)",
}
NOTE = "Decided from /repo's current source on each run; anything the analysis can't decide is reported as a violation. Values are unbounded symbolic reals; list lengths, matrix sizes and document shapes are those of the listed scenarios. Arithmetic is exact, rounding isn't considered. Trusted: go/ssa, the analyser, and its models of gonum and standard library calls."
NA = {
    "C26": "Accuracy to rounding quantifies over floating-point error propagation and condition numbers of arbitrary models; no sound static argument in reach bounds it.",
    "C27": "Whether a factorisation of a numerically singular matrix fails depends on rounding of run-time values; it can't be decided from the source (a pivot may round to a tiny positive number).",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ids:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH.get(i, AI),
            "level": "other",
            "level_note": NOTE,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built yet.")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. No hooks in /repo are needed; repairs of genuine defects are listed in known-findings.txt."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
