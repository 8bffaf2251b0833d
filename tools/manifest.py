#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the harness headers (@technique, @note) and the properties file."""
import json, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = json.load(open(os.path.join(H, "tools", "not_applicable.json")))
checks, na = [], []
for line in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(line); f = os.path.join(H, "harness", p["id"] + ".cpp")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": NA.get(p["id"], "not built yet")}); continue
    h = {}
    for l in open(f):
        m = re.match(r"//\s*@(\w+)\s+(.*\S)", l)
        if m: h[m[1]] = m[2]
    checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": h["technique"], "level": "model_checking", "level_note": h["note"]})
json.dump({"version": 1, "setup_cmd": "mkdir -p evidence .build replays && python3 -m py_compile check && g++ --version >/dev/null",
    "checks": checks, "not_applicable": na,
    "notes": "No hooks are compiled into /repo: every harness uses the public interface only. known_findings.txt lists repaired and open findings."},
    open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
