"""Regenerates the `fixed` list of known_findings.json from the fix: commits in /repo."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(os.path.join(V, "tools", "fixes.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h|%s", "1b0778e..HEAD"],
                     capture_output=True, text=True).stdout.strip().splitlines()
d = json.load(open(os.path.join(V, "known_findings.json")))
d["fixed"] = []
for l in log:
    h, s = l.split("|", 1)
    s = s[5:]
    if s not in PROP:
        print("no property for:", s)
        continue
    d["fixed"].append(f"fixed: property={PROP[s]} {h} {s}")
json.dump(d, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(d["fixed"]), "fixed")
