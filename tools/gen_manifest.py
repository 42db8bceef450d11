#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of built checks below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "property-based testing: random circuit generator with satisfying witnesses, real keygen/prove/verify, reference evaluator as oracle",
 "C02": "property-based testing: fault injection into witnesses of generated circuits, real prover and verifier against a reference evaluator",
 "C03": "differential property-based testing: MockProver against an independent reference evaluator on generated circuits and perturbed witnesses",
 "C04": "mutation fuzzing of proofs, instances and keys against the must-reject oracle",
 "C05": "property-based testing: generated batches, batch verdict against the conjunction of single verdicts",
 "C06": "model-based fuzzing of transcript operation sequences against a reference transcript",
 "C07": "property-based testing: generated polynomials, points and corrupted openings with a naive opening oracle",
 "C08": "property-based testing: generated query sets and corrupted evaluations",
 "C09": "stateful model-based testing of MSM operation sequences against naive group arithmetic",
 "C10": "property-based testing: round-trip, determinism and linearity of commitment parameters",
 "C11": "differential property-based testing of polynomial operations against naive evaluation",
 "C12": "differential property-based testing of multiexp against naive sums",
 "C13": "stateful differential testing of Assigned/Value against plain field arithmetic",
 "C14": "property-based testing: floor planner event traces of generated circuits against placement invariants",
 "C15": "property-based testing: generated lookups with values in and out of the table against a reference set",
 "C16": "property-based testing: generated selector patterns, every active gate row perturbed, reference evaluator as oracle",
 "C17": "property-based testing: generated copy graphs, every class and member perturbed, reference evaluator as oracle",
 "C18": "metamorphic property-based testing across witnesses, thread counts and repeated runs",
 "C19": "metamorphic property-based testing: sensitivity of proof elements to single random draws",
 "C20": "differential property-based testing of developer reports against the generated circuit and the real proof",
 "C21": "property-based testing of generated misuses against the expected error class",
 "C22": "differential property-based testing against an independent Poseidon implementation",
 "C23": "property-based testing: circuit output against the primitive, single-cell witness mutation must be rejected",
 "C24": "property-based testing: circuit output against the primitive, witness mutation must be rejected",
 "C25": "property-based testing: generated Merkle paths against the primitive, witness mutation must be rejected",
 "C26": "property-based testing: generated point pairs including exceptional ones against the group law, witness mutation must be rejected",
 "C27": "property-based testing: generated scalars and bases against the group scalar multiple, witness mutation must be rejected",
 "C28": "property-based testing: generated scalars and bases against the group scalar multiple, witness mutation must be rejected",
 "C29": "property-based testing: boundary-biased values and decompositions against the arithmetic definition, witness mutation",
 "C30": "property-based testing: generated inputs against the boolean/bit definitions, witness mutation",
 "C31": "differential property-based testing of the SHA-256 circuit against a reference, witness mutation",
}
built = [l.strip() for l in open(os.path.join(here, "tools", "built.txt")) if l.strip()]
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
LEVEL_NOTE = "exploration: seeded random generation with shrinking over the bounds in the evidence file's assumptions; quick and thorough differ in the number of cases"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        checks.append({
            "property": i,
            "quick_cmd": f"bash run.sh run {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash run.sh run {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": T[i],
            "level": "exploration",
            "level_note": LEVEL_NOTE,
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
 "version": 1,
 "setup_cmd": "bash run.sh build",
 "hooks": {"guard": "none", "enable": "the checks need no hook: they use public APIs and wrap the public Assignment/FloorPlanner traits", "source_commits": []},
 "checks": checks,
 "not_applicable": na,
 "notes": "VERIF_SEED selects every random choice; a violation's replay file is replayed with 'bash run.sh replay <file>'. Known findings and repaired defects: known_findings.jsonl.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
