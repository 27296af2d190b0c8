import json,subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={
"C17":"Pure functions of two references: no schedule, clock, fault, interleaving or history for the simulator to own.",
"C18":"A property of builds (feature selections and linking), not of executions: nothing to simulate.",
"C19":"A syntactic property that the compiler enforces (forbid(unsafe_code)); no execution decides it.",
"C20":"Pure function of one integer: no schedule, fault or history in it.",
}
TECH={
"C01":"deterministic simulation: seeded search over phase schedules, work orders and graphs against a bisimulation oracle",
"C02":"deterministic simulation: adversarial phase schedules, step bounds checked on every execution",
"C03":"deterministic simulation: recorded history of looks judged against first-difference model, and under exchange of operands",
"C04":"deterministic simulation: precheck cut off at every point; history of the second phase compared with one run alone",
"C05":"deterministic simulation: budget exhaustion at chosen points against an executable traversal model",
"C06":"deterministic simulation with fault injection: component errors, deadlines and quotas at chosen calls",
"C07":"deterministic simulation with fault injection: panics at chosen calls, replayed comparison afterwards",
"C08":"deterministic simulation with fault injection: ledgers of handles and bytes over every kind of ending",
"C09":"deterministic simulation of histories: nested comparisons, changed graphs, reused identities, faults, against each alone",
"C10":"deterministic simulation of threads: seeded token scheduler at every callback, stalls and panics, against each alone",
"C11":"deterministic simulation: monitor of the callback protocol over recorded histories",
"C12":"deterministic simulation with fault injection: stack measured at every callback and release and by painting",
"C13":"deterministic simulation: live handles against pending pairs at every visit of the history",
"C14":"deterministic simulation: generators and comparisons using them with shared state reseeded at chosen steps",
"C15":"deterministic simulation: store that discards nodes and reuses identities at once, against the oracle and permanent nodes",
"C16":"deterministic simulation: scripted controller decisions against an executable traversal model",
}
note="Seeded sample, not exhaustive. Trusted: the oracles in sim/src/graph.rs (two independent ones cross-checked on small graphs), the simulated parts in sim/src/parts.rs, rustc. Real: all of the library, built twice (with and without debug assertions). Every violation is reproduced in a fresh process and minimised before it is reported."
m={"version":1,"setup_cmd":"./check.sh setup",
"hooks":{"guard":"--cfg graph_safe_compare_sim","enable":"RUSTFLAGS='--cfg graph_safe_compare_sim' (set by check.sh)","source_commits":["73fbcf9"]},
"checks":[{"property":p["id"],"quick_cmd":f"./check.sh {p['id']} quick","thorough_cmd":f"./check.sh {p['id']} thorough","evidence_file":f"evidence/{p['id']}.json","technique":TECH[p["id"]],"level":"exploration","level_note":note} for p in props if p["id"] in TECH],
"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
"notes":"Repairs of genuine defects in /repo: see known-findings.txt."}
full=subprocess.check_output(["git","-C","/repo","rev-parse","73fbcf9"],text=True).strip()
m["hooks"]["source_commits"]=[full]
open('/verif/MANIFEST.json','w').write(json.dumps(m,indent=1)+"\n")
