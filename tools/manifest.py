#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (run by hand after editing the tables below)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl") if l.strip()]
NA = {
 "C19": "The traversal is a pure function of width and height: no schedule, clock, I/O, randomness or fault can influence it, so simulation has nothing to decide. (Wrong traversals that lose or swap pixels still show up as C01 and C14 violations.)",
 "C20": "Parsing a codec specification is a pure function of one argument string, evaluated before any thread or file exists; there is nothing for a simulator to control.",
 "C21": "Which pixels a run merges is a pure sequential function of the image and d. That every process writes the same bytes for it is C18, that runs survive cuts, damage and sink faults is C02, C03, C04 and C15.",
}
CODEC = "deterministic simulation with fault injection: seeded codec runs in simulated processes (controlled hash seeds, randomness, writers, storage damage, step-counted termination), "
PROC = "deterministic simulation with fault injection: the whole program under a seeded scheduler with simulated futexes, clock, randomness, I/O faults and crashes, "
T = {
 "C01": CODEC + "cross-process round trip",
 "C02": CODEC + "crash cuts at every or sampled stream positions",
 "C03": CODEC + "failing writers, accepted bytes compared with a fault-free twin",
 "C04": CODEC + "short and interrupted writers compared with a perfect twin",
 "C05": PROC + "rows compared with single-file runs",
 "C06": PROC + "input faults, rows compared with single-file runs",
 "C07": PROC + "results-file faults, full disks",
 "C08": PROC + "saved pictures re-read and re-measured, picture faults",
 "C09": CODEC + "streams parsed by an independent reader and compared with a reference optimum, across hash seeds",
 "C10": CODEC + "contract checked against the input under many random seeds",
 "C11": CODEC + "contract checked against the input under many random seeds",
 "C12": PROC + "every path-taking call observed, file tree compared before and after",
 "C13": PROC + "crash at any step or call, surviving files checked against a reference run",
 "C14": PROC + "export files checked against the input, writer faults and crashes",
 "C15": CODEC + "seeded damage to stored bytes",
 "C16": CODEC + "random sessions on one codec object; plus whole-process simulation of concurrent sessions under the seeded scheduler",
 "C17": PROC + "deadlock, livelock and step-bound detection under faults",
 "C22": PROC + "sequences of runs in one folder, the earlier ones crashed or failed at seeded points, the last one compared with single-file runs in a fresh folder",
 "C23": PROC + "simulated descriptor limit and heap accounting under seeded interleavings, bounds from single-file runs",
 "C24": PROC + "short reads and writes, stalls and interruptions on every call, results compared with single-file runs without faults",
 "C25": CODEC + "streams followed by stale bytes, damage, other streams and endless sources, bytes taken counted",
 "C18": CODEC + "the same work in processes with different hash and random seeds; plus whole-process sessions that do it on main, plain and pool threads under the seeded scheduler",
}
NOTE = {
 "codec": "Exploration: every seeded run executed satisfied the oracle; images, damage and fault plans not drawn are not covered. Trusts the image crate as oracle-side decoder, the reference models in harness/src/model.rs and the control of getrandom as the only source of randomness (self-tested: repeated runs are identical).",
 "proc": "Exploration: every seeded run executed satisfied the oracle; schedules and fault sequences not drawn are not covered. One thread runs at a time (sequentially consistent memory), preempted at intercepted libc calls and at basic-block edges of the cniic crate; rayon, crossbeam, csv and image run real code but are preempted only at their system-level calls. Files live in a scratch folder on a memory file system; a crash keeps what the kernel had accepted.",
}
PROCP = {"C05","C06","C07","C08","C12","C13","C14","C17","C22","C23","C24"}
checks = []
for p in props:
    i = p["id"]
    if i in NA: continue
    note = NOTE["proc"] if i in PROCP else NOTE["codec"] + (" The concurrent part also: " + NOTE["proc"] if i in ("C16", "C18") else "")
    checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
                   "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration", "level_note": note})
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "./check build",
     "hooks": {"guard": "cniic_sim", "enable": "RUSTFLAGS='--cfg cniic_sim' (set by ./check); src/lib.rs is empty without it", "source_commits": hook},
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "./check replay FILE reproduces a reported violation exactly; ./check selftest shows that one seed is one execution. VERIF_SEED and VERIF_TIER select the search."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
