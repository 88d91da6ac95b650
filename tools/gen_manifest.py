#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: one check per claimed property.
import json, os
root = os.path.join(os.path.dirname(__file__), "..")
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
PENDING = {}   # id -> reason
FAM = {"A": "ADNL nodes", "R": "ADNL+RLDP nodes", "D": "ADNL+DHT nodes", "O": "ADNL+RLDP+overlay nodes"}
NOTE = ("Seeded search: holds on every explored run, not proved. Real code of {fam} incl. tokio::sync, crypto and codecs; "
        "simulated clock, timers, task scheduler, UDP network and OS randomness. Interleavings are decided at await points "
        "(tasks run one at a time), so data races inside synchronous code are outside.")
claimed = os.environ.get("CLAIM")
import subprocess
impl = subprocess.run([f"{root}/harness/target/release/sim", "list"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "./build.sh",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: tokio is replaced through [patch.crates-io] in /verif/harness, libc clock/randomness by symbol interposition", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in impl and i not in PENDING:
        m["checks"].append({
            "property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "technique": "deterministic simulation with fault injection (seeded schedule, network, clock, crash and attacker search; invariants and history oracles)",
            "level": "exploration", "level_note": NOTE.format(fam=FAM[i[0]])})
    else:
        m["not_applicable"].append({"property": i, "reason": PENDING.get(i, "no check built yet (work in progress)")})
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
