#!/usr/bin/env python3
"""Single source for MANIFEST.json (run by hand when a check changes)."""
import json
ALL=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
T={
"S01":"call-graph effect analysis + information-flow (taint) analysis on MIR",
"S02":"effect analysis over all call sites + path-sensitive abstract interpretation of MIR for print reachability",
"S03":"information-flow analysis (explicit and implicit) by abstract interpretation of MIR",
"S04":"information-flow analysis (explicit and implicit) by abstract interpretation of MIR",
"S05":"information-flow analysis (explicit and implicit) by abstract interpretation of MIR",
"S06":"provenance-token and information-flow analysis of MIR with forced stage outcomes",
"S07":"information-flow analysis of MIR, one switch setting at a time",
"S08":"dependence and provenance analysis of MIR in each mode",
"S09":"variant-set abstract interpretation of MIR with stages forced to fail",
"S10":"abstract interpretation (constants, variants, lengths) of MIR with stages forced to fail",
"S11":"variant-set abstract interpretation of MIR with invalid argument ranges",
"S12":"interval and NaN abstract interpretation of MIR",
"S13":"interval abstract interpretation of MIR over divisors, strides and clamp bounds",
"S14":"NaN abstract interpretation of comparators and partial orderings in MIR",
"S15":"loop termination analysis on MIR (finite iterators, variants with interval-checked progress)",
"S16":"provenance and ordering abstract interpretation of MIR",
"S17":"panic-freedom by abstract interpretation of MIR (every assertion, indexing, slicing and unwrap site)",
"S18":"type-level lint of derived serialization and serde attributes",
"S19":"provenance, constant and information-flow analysis of MIR",
"S20":"type-system (Send/Sync) and source-level lint of shared state",
"S21":"interval abstract interpretation of MIR with enum payload ranges",
"S22":"interval abstract interpretation of MIR with forced stage outcomes",
"S23":"interval abstract interpretation of MIR",
"S24":"range-fact dataflow by abstract interpretation of MIR (facts established by comparisons, clamps and filters against the two settings, kept by copies, lost by arithmetic)",
"S25":"length-interval abstract interpretation of MIR (loops peeled once) over fixed positions, unwraps, count subtractions and panic calls",
"S27":"interval abstract interpretation of MIR with NaN and infinity tracking",
"S29":"exact list-length abstract interpretation of MIR (counters, iterators and lists related)",
"S36":"interval abstract interpretation of MIR with exact list lengths, and identity tokens of the input values",
"S28":"path-sensitive typestate analysis of MIR (written or not, result variants) with callee summaries",
"S26":"typestate of list order by abstract interpretation of MIR (comparators interpreted on separated operands)",
}
NOTE="Sound over-approximation on every input the rule quantifies over, relative to the standard-library models in sa/src/models.rs and to the MIR the nightly compiler produces for the library with default features; see DESIGN.md for what the rule does not see."
NA={
"S23":"bounding max(|x|)*gain needs the relation between a buffer's measured peak and each of its samples under floating-point rounding; the interval domain forgets it and the limiter compares in decibels",
"S30":"accuracy is a statistical fact about music; no static argument bounds it",
"S31":"running time depends on machine and data; only termination (S15) is decidable here",
"S32":"relational floating-point property over all sample buffers",
"S33":"relational numeric property of spectra",
"S34":"quantifies over per-frame energies of the samples, a runtime quantity",
"S35":"accuracy of floating-point filters over arbitrary signals",
}
import sys
claimed=[p for p in ALL if p not in NA]
m={"version":1,"setup_cmd":"bash build.sh",
"checks":[{"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","evidence_file":f"evidence/{p}.json","technique":T[p],"level":"other","level_note":NOTE} for p in claimed],
"not_applicable":[{"property":p,"reason":NA[p]} for p in ALL if p in NA],
"notes":"Static analysis only: mirdump/ dumps the compiler's resolved MIR of /repo's library, sa/ is the analyser. No hooks in /repo; the fix: commits are listed in known_findings.txt."}
open("/verif/MANIFEST.json","w").write(json.dumps(m,indent=1)+"\n")
print(len(claimed),"claimed")
