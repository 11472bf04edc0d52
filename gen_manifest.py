#!/usr/bin/env python3
"""Writes MANIFEST.json from the campaigns that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "check"))
import campaigns

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
    "C90": "pure numerics: the result depends only on the arguments, there is no schedule, clock, I/O, fault or history to simulate",
    "C91": "pure numerics: the result depends only on the arguments, there is no schedule, clock, I/O, fault or history to simulate",
    "C93": "pure function of a design and the box: no schedule, clock, I/O, fault or history to simulate (its visible effect on evaluated designs is part of C06 and C10)",
}
TECH = "deterministic simulation with fault injection: "
checks, na = [], []
for p in ids:
    if p in campaigns.CAMPAIGNS:
        c = campaigns.CONF[p]
        checks.append({"property": p, "quick_cmd": "python3 check/check.py %s quick" % p, "thorough_cmd": "python3 check/check.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECH + c["tech"], "level": c.get("level", "exploration"), "level_note": c["lnote"]})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 sim/build.py plain inst",
     "hooks": {"guard": "RODEO_SIM", "enable": "compile /repo/src with -DRODEO_SIM (sim/build.py does); the observation points call functions that only the simulator defines", "source_commits": ["1e5910ffd432dbda146347a3aa9539f2d1d467a8", "b53999fd37c9e810ab6e260339f20fc0639fc058"]},
     "checks": checks, "not_applicable": na,
     "notes": "check/check.py --replay FILE repeats a reported violation; known_findings.txt lists defects found in RoDeO (repaired ones as fixed:). Properties not claimed: see not_applicable."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
