#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from checks.py (claimed properties) and the reasons below.
import json, os, subprocess, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
from checks import BINARIES, CHECKS
NA = {
 "N01": "Pure functions of their arguments: no schedule, time, I/O, fault or second party for a simulator to control (lens laws; lens cursors over live state are claimed in C13).",
 "N02": "A property of overload resolution at compile time; nothing executes, so there is nothing to simulate.",
 "N03": "Pure functions of their arguments: no schedule, time, I/O or fault for a simulator to control.",
}
PENDING = "no check yet in this version of the framework"
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
LEVEL_NOTE = "Seeded search over simulated executions of the real code, judged online by invariants and an executable reference model; no claim beyond the runs made (counts in the evidence file). Trusted: the reference model, the simulation kernel%s."
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    th = any(BINARIES[b].get("threads") for b, s, w in c["scenarios"])
    note = LEVEL_NOTE % (" and the simulated thread runtime with its happens-before race detector" if th else "")
    note += " " + c.get("note", "")
    checks.append(dict(property=p["id"],
        quick_cmd="python3 check.py %s quick" % p["id"],
        thorough_cmd="python3 check.py %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique=c.get("technique", "deterministic simulation with fault injection: " + ("seeded search over thread schedules and histories" if th else "seeded search over histories and faults")),
        level="exploration", level_note=note.strip()))
m = dict(version=1, setup_cmd="python3 check.py build",
    hooks=dict(guard="LAGER_SIMULATION",
        enable="every harness is compiled with -DLAGER_SIMULATION=1 against /repo's headers (check.py build)",
        source_commits=[l.split()[0] for l in subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines() if l.split(" ",1)[1].startswith("hook:")]),
    checks=checks,
    not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], PENDING)) for p in props if p["id"] not in CHECKS],
    notes="check.py builds harness binaries from /repo's headers into build/ (content-addressed). Replay a violation with: python3 check.py replay <file>.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "claimed,", len(m["not_applicable"]), "not")
