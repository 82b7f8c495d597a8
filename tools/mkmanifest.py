#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(V + "/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {
 "checks/codec": ("runtime monitor: generated and mutated inputs, output compared with an independent protocol table and AMQP reader", ""),
 "checks/stores": ("runtime monitor: recorded histories judged by a sequential model (and porcupine for concurrent ones), with schedules perturbed in user callbacks", ""),
 "checks/events": ("runtime monitor: generated schedules and injected faults in virtual time (synctest bubbles) on an instrumented in-memory AMQP network, event logs judged by timing, ordering and conservation rules", ""),
 "checks/router": ("runtime monitor: the real container over loopback sockets against a scripted AMQP peer that fails at chosen protocol steps; frames at the peer, results of calls and reports of handlers judged by conservation, credit, promptness and leak rules", ""),
 "checks/race": ("Go race detector over concurrent storms on all public interfaces and on race-built tools, with a crash monitor", ""),
 "checks/tools": ("runtime monitor: the real tool binaries run against a scripted AMQP router and driven over HTTP, their responses and traffic compared with a model of what was sent", ""),
 "checks/vancap": ("runtime monitor: the real binary, built with the race detector, run against scripted Kubernetes API servers that fail at chosen requests, its requests and the files it writes compared with a model", ""),
}
out = []
na = []
for p in props:
    c = checks.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "no monitor built for it yet"})
        continue
    tech = c.get("technique") or TECH[c["pkg"]][0]
    if c.get("race") and "race detector" not in tech:
        tech += "; race detector"
    out.append({
        "property": p["id"],
        "quick_cmd": "python3 run.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": tech,
        "level": "exploration",
        "level_note": c.get("note") or "Judges the real code on the executions explored (counted in the evidence); says nothing about inputs and schedules not reached. Trusts the oracle in harness/ and the Go toolchain.",
    })
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": out, "not_applicable": na,
     "notes": "All checks are black-box: no hooks in /repo. known-findings.txt lists findings and repairs."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(out), "claimed,", len(na), "not")
