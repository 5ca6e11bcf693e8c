#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks registered at the end of harness/src/bin/*.rs."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
ids = re.findall(r'^\s+"(C\d\d)" =>', "".join(open(f).read() for f in glob.glob(f"{V}/harness/src/bin/*.rs")), re.M)
TECH = json.load(open(f"{V}/tools/techniques.json"))
checks = []
for p in props:
    if p["id"] not in ids:
        continue
    t = TECH[p["id"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": t[0],
        "level": "exploration",
        "level_note": t[1],
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": "no check registered yet"} for p in props if p["id"] not in ids],
    "notes": "Property-based testing with a purpose-built stateful engine (harness/). No hooks in /repo; "
             "known and repaired defects are in known_findings.txt. Violations write a shrunk case to replays/; "
             "./replay.sh FILE runs it again.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
