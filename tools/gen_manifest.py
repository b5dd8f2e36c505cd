#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
have = set(open(os.path.join(root, "tools", "claimed.txt")).read().split())
NOTE = ("Every execution runs the real, unmodified sources of tchannel_rs, bb8, tokio-util and tokio's channels and locks; "
        "tasks, TCP and time are models under the explorer's control, which enumerates every decision sequence within the bounds "
        "named in the evidence (deviations from the default schedule; all data choices). Trusted: those models, sequentially "
        "consistent memory, preemption at intercepted operations only. Assurance is bounded by the scenarios' sizes and the deviation bound.")
HOW = {
 "sched": "stateless model checking of the implementation (exhaustive schedules within a deviation bound, controlled tokio/TCP/time)",
 "input": "stateless model checking of the implementation (exhaustive bounded inputs and stream segmentations, independent reference codec as oracle)",
 "fault": "stateless model checking of the implementation (exhaustive fault/cancellation points and histories under a controlled runtime)",
}
KIND = dict(C01="sched", C02="input", C03="input", C04="input", C05="sched", C06="fault", C07="fault", C08="sched",
            C09="input", C10="sched", C11="input", C12="input", C13="input", C14="sched", C15="sched", C16="fault",
            C17="sched", C18="sched", C19="fault", C20="sched", C21="input", C22="sched",
            C23="fault", C24="fault")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=HOW[KIND.get(i, "sched")], level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./check.sh --build",
    hooks=dict(guard="cfg(tchannel_mc)", enable="rustflags --cfg tchannel_mc in /verif/mc/.cargo/config.toml; mc/harness depends on /repo by path",
               source_commits=["bd5c26d"]),
    checks=checks, not_applicable=na,
    notes="known_findings.txt lists repaired defects (fixed:) and, if any, recorded ones (finding:). mc/target/release/mc replay out/<id>.replay.json shows the execution of a violation.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
