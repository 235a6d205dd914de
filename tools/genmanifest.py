#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import glob, json, re, os
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
props = [json.loads(l) for l in open("properties.jsonl")]
have = set()
for f in glob.glob("harness/**/*.go", recursive=True):
    have |= set(re.findall(r"^func Verif_([A-Z]\d\d)_", open(f).read(), re.M))
na = {}
if os.path.exists("tools/not_applicable.json"):
    na = json.load(open("tools/not_applicable.json"))
notes = json.load(open("tools/level_notes.json")) if os.path.exists("tools/level_notes.json") else {}
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "verif", "enable": "none: /repo carries no hooks; harnesses enter through a source overlay", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Every check symbolically executes the SSA of /repo's current working tree with gosym (see DESIGN.md) and lets z3 decide the assertions within the bounds printed and written to the evidence file."}
for p in props:
    i = p["id"]
    if i in have and i not in na:
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
            "technique": "bounded symbolic execution of the real Go SSA with an SMT solver (gosym + z3)" + ("; symbolic schedule with bounded preemption" if "schedules" in json.dumps(p["quantifier"]) else ""),
            "level": "model_checking",
            "level_note": notes.get(i, "Holds for every input, schedule and fault within the bounds of the evidence file; nothing is claimed outside them. Trusts the gosym encoding of Go (validated by native replays), its stubs for the runtime, clock and network, and z3.")})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "no check built yet")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
