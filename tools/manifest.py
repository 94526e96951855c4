#!/usr/bin/env python3
# Writes MANIFEST.json: which properties are claimed, and how.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
CLAIMED = open(V + '/tools/claimed.txt').read().split()
NOTE = ("Seeded search: real libmsi/libgsf/GLib code runs in forked processes on a simulated machine (in-memory file system with "
        "page cache, journal, clock, randomness, scheduler and fault plan); every call is judged against an executable reference model. "
        "Sampling, not exhaustion; trusts the simulated kernel's semantics and the reference model.")
EXTRA = {}
NA = {}
exec(open(V + '/tools/notes.py').read())
checks = [{"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"./check.sh {p} thorough", "evidence_file": f"evidence/{p}.json",
           "technique": "deterministic simulation with fault injection (seeded schedules, faults and crashes; reference-model oracle)",
           "level": "exploration", "level_note": EXTRA.get(p, "") + (" " if p in EXTRA else "") + NOTE} for p in CLAIMED]
na = [{"property": p['id'], "reason": NA.get(p['id'], "check not built yet")} for p in props if p['id'] not in CLAIMED]
json.dump({"version": 1, "setup_cmd": "./build.sh lib tools", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam is libc interposition in the simulator's own executable, so no guard define is needed. See DESIGN.md."},
          open(V + '/MANIFEST.json', 'w'), indent=1)
