import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": "reference-model monitor: scanner that tries every rule at every position",
 "C02": "trace monitor: positions recomputed from byte offsets",
 "C03": "reference-model monitor: stack machine over flattened rule lists",
 "C04": "monitor with planted faults; printed copy compared in lockstep",
 "C05": "reference-model monitor over reading, printing and Add histories",
 "C06": "reference-model monitor: span-closure recogniser",
 "C07": "tree monitor: derivation and link checker on every returned tree",
 "C08": "reference-model monitor: lexicographically least derivation",
 "C09": "reference-model monitor: ordered-choice interpreter",
 "C10": "reference-model monitor: nullable and leftmost closure",
 "C11": "differential monitor: bounded language comparison before and after",
 "C12": "reference-model monitor: FIRST and nullable fixpoints",
 "C13": "reference-model monitor: language of the operators and shape of the reduced tree",
 "C14": "recording reductions checked against a functional tree model; input snapshot",
 "C15": "functional tree model and link checker after every edit",
 "C16": "round-trip monitor with arbitrary bytes; planted faults; clone independence",
 "C17": "differential monitor: reducer text against the same rules in code",
 "C18": "Go race detector and comparison of concurrent with sequential results",
 "C19": "history monitor: reused against fresh instance and fresh process, snapshots of earlier results",
 "C20": "recording stages with injected failures, checked call trace",
 "C21": "table model over operation histories, aliasing monitor",
 "C22": "counting grammar: logical work against bounds; CPU and memory watchdog",
 "C23": "end-to-end monitor against encoding/json and an expression evaluator",
 "C25": "reference-model monitor: postfix evaluator over generated expressions",
 "C26": "monitor of renderings and error texts against the lexemes themselves",
 "C24": "crash and runaway monitor on hostile texts in watched processes",
}
NOTE = ("Holds on every execution of a fixed, seeded list of generated cases; nothing is claimed beyond them. "
        "Trusts the model in harness/ and the Go toolchain.")
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
             "technique": T[i], "level": "exploration", "level_note": NOTE} for i in ids],
 "not_applicable": [],
 "notes": "No hooks in /repo: all monitors sit at exported interfaces. The harness is laid into the module with go build -overlay.",
}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(ids), "checks")
