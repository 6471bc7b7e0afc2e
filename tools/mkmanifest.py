#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness is claimed, the rest is listed as not applicable (yet)."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl') if l.strip()]
notes = json.load(open(root + '/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in notes and os.path.exists(f"{root}/harness/{i.lower()}.cpp"):
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
            "technique": notes[i]["technique"], "level": notes[i].get("level", "exploration"), "level_note": notes[i]["level_note"], "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("reason", "no check has been built for it yet")})
json.dump({"version": 1, "setup_cmd": "make -j8 VARIANT=asan /verif/build/asan/libpire.a", "checks": checks, "not_applicable": na,
    "notes": "Checks build pire from /repo's working tree with clang and sanitizers into /verif/build (git-ignored). No hooks in /repo are needed."},
    open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write("\n")
print(len(checks), "claimed,", len(na), "not")
