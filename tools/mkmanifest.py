"""Regenerates /verif/MANIFEST.json: one entry per check that exists in checks/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# id -> (technique, level, level_note)
C = {
 "C01": ("runtime monitoring: generated programs executed under instrumentation, trace monitor evaluates the VCs over the recorded run (completeness and falsifiability oracles)",
         "exploration", "random programs of the supported subset, inputs in a small range; quick 14 modules x 36 programs"),
 "C04": ("runtime monitoring: random typed expressions rendered by the real renderer, the text executed by an independent SMT-LIB evaluator and compared with a reference evaluation; solver parse and library consistency probes",
         "exploration", "random expressions to depth 4 over every form of the SMT fragment, random valuations; random function libraries"),
 "C05": ("runtime monitoring: random typed expressions rendered by the real renderer, the text executed by a Racket-subset evaluator that loads the repository's own .rkt library, compared with a reference evaluation",
         "exploration", "random expressions to depth 4 over every form of the Rosette fragment, random valuations; random function libraries"),
 "C06": ("runtime monitoring: random typed expressions and function definitions rendered by the real renderer, the text executed by Python and compared with a reference evaluation",
         "exploration", "random expressions to depth 4 over every form of the Python fragment, random valuations; random function libraries; function-valued parameters"),
 "C08": ("runtime monitoring: every rewriting pass run on random expressions, the result evaluated against the original on random valuations (equi-validity over a finite domain for the equality elimination), operands monitored for mutation",
         "exploration", "random expressions, mappings, sharing choices; formulas over 1-5 variables and a 3-element domain decided exhaustively"),
 "C20": ("runtime monitoring: ==, !=, hash and the containers built on them observed on pools of equal, near-miss and different expressions, against an independent structural key and set models",
         "exploration", "pools of about 35 expressions, all pairs; random operation sequences on ObjectSet; all valuations of the conjunctions"),
}
C.update(json.load(open(os.path.join(V, 'tools', 'claims.json'))))
checks = []
for pid in sorted(C):
    t, lvl, note = C[pid]
    f = f"checks/{pid.lower()}.py"
    assert os.path.exists(os.path.join(V, f)), f
    cmd = f"PYTHONHASHSEED=0 python3-vt -W ignore {f}"
    checks.append({"property": pid, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                   "evidence_file": f"evidence/{pid}.json", "technique": t, "level": lvl, "level_note": note})
NA = []
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": NA}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("claimed", len(checks), "unclaimed", [p for p in props if p not in C and p not in [n.get("property") for n in NA]])
