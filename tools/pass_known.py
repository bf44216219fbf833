"""known_findings.json entries of C01 and C02 from data/pass_known.json"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DOES = {"C01": "the decomposition of", "C02": "the canonicalization of"}
d = json.load(open(f"{V}/data/pass_known.json"))
k = json.load(open(f"{V}/known_findings.json"))
k["findings"] = [f for f in k["findings"] if f["property"] not in DOES]
for pid, ops in sorted(d.items()):
    for t, e in sorted(ops.items()):
        k["findings"].append({"property": pid, "key": f"wrong:{t}",
                              "what": f"{DOES[pid]} {t} is wrong on the {len(e['wrong']) // 8} calls (with the way they are "
                                      f"compiled) listed in data/pass_known.json, e.g. {e['example']}"})
json.dump(k, open(f"{V}/known_findings.json", "w"), indent=1)
open(f"{V}/known_findings.json", "a").write("\n")
