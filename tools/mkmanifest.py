#!/usr/bin/env python3
"""Regenerate MANIFEST.json from sim/mixes and properties.jsonl."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
mix = {l.split()[0]: l.split()[1] for l in open(V + '/sim/mixes') if l.strip() and l[0] != '#'}
hooks = ["d1a1760"]
hooks = [subprocess.check_output(['git', '-C', '/repo', 'rev-parse', h], text=True).strip() for h in hooks]
notes = json.load(open(V + '/tools/notes.json')) if os.path.exists(V + '/tools/notes.json') else {}
std = ("Seeded search: no violation found on the schedules, delays and faults drawn; not a proof. Trusts the simulator's model of the Go scheduler "
       "(statement-level interleaving, sequentially consistent), TCP, disk and clock, and the harness's reference model of the ledger.")
checks = []
for p in props:
    if p['id'] not in mix:
        continue
    checks.append({
        "property": p['id'],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "technique": "deterministic simulation with fault injection: seeded search over schedules, delays and faults, " + notes.get(p['id'], {}).get('tech', 'checked against a reference model'),
        "level": "exploration",
        "level_note": notes.get(p['id'], {}).get('note', '') + (' ' if notes.get(p['id'], {}).get('note') else '') + std,
    })
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "verif", "enable": "go build -tags verif (sim/gen.sh builds the rewritten tree with it)", "source_commits": hooks},
     "checks": checks,
     "not_applicable": [{"property": p['id'], "reason": notes.get(p['id'], {}).get('na', 'check under construction')} for p in props if p['id'] not in mix]}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
