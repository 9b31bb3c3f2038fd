#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
}
lin = "seeded simulation of the whole server; history checked for linearizability against a reference model, cut at crashes"
tech = {
 "C01": "deterministic simulation with power loss at drawn system calls; " + lin,
 "C02": "deterministic simulation with process kills at drawn system calls; " + lin,
 "C03": "deterministic simulation with power loss at drawn times; " + lin,
 "C04": "deterministic simulation with torn logs and repeated crashes; " + lin,
 "C05": "deterministic simulation with statement-level preemption between rewrite and event loop; " + lin,
 "C06": "deterministic simulation with crash, power loss and disk errors during rewrites; " + lin,
 "C11": "deterministic simulation with arbitrary TCP segmentation; reply streams checked byte for byte against the model",
 "C12": "deterministic simulation with back-pressure; reply streams checked byte for byte against the model",
 "C13": "deterministic simulation with hostile clients; liveness and answers of a bystander",
 "C19": "deterministic simulation with disconnects at drawn points; descriptor accounting and " + lin,
 "C20": "deterministic simulation with disk faults; " + lin,
 "C21": "deterministic simulation with fault episodes; bounded liveness",
 "C22": "deterministic simulation; log size and file switches observed after every file operation",
 "C23": "deterministic simulation of the event loop; timer contract monitored at every callback",
 "C24": "deterministic simulation of the event loop; handler contract monitored at every callback",
 "C25": "deterministic simulation of a host with several addresses",
 "C27": "deterministic simulation of the whole program with edits of its configuration file while it runs; " + lin,
 "C26": "deterministic simulation of the whole program from its configuration file over several lives; " + lin,
}
note = ("Seeded search, not exhaustive. The packages cmd, config, log, server, database, datastruct, ae and socket run unmodified in logic (rewritten at build time only to "
        "reach the simulator); kernel, TCP, disk, clock and scheduler are models, trusted to behave like Linux in what metis uses. Every violation is "
        "shrunk and replayed from its file before it is reported.")
checks = []
for p in props:
    if p["id"] in NA: continue
    checks.append(dict(property=p["id"], quick_cmd="bash tools/check.sh %s quick" % p["id"], thorough_cmd="bash tools/check.sh %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique=tech.get(p["id"], "deterministic simulation; " + lin), level="exploration", level_note=note))
m = dict(version=1, setup_cmd="bash tools/build.sh",
    hooks=dict(guard="none in /repo: the build overlay written by sim/cmd/simgen", enable="tools/build.sh (go build -overlay; the working tree is read, never changed)", source_commits=[]),
    checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes="KNOWN_FINDINGS lists the defects found and repaired in /repo. metisim replay FILE runs a replay file again.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
