"""Writes properties.jsonl and MANIFEST.json from one table (keeps them in step)."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FX = "python/torch_mlir/extras/fx_importer.py"
FXPY = "python/torch_mlir/fx.py"
ONNX = "python/torch_mlir/extras/onnx_importer.py"
ONNXMAIN = "python/torch_mlir/tools/import_onnx/__main__.py"
PT1 = "projects/pt1/python/torch_mlir_e2e_test"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, level, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, level=level, note=note))


exec(open(os.path.join(V, "tools", "props.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"],
                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]]),
            )) + "\n")
    checks, na = [], []
    for p in P:
        if not os.path.exists(os.path.join(V, "checks", p["id"] + ".py")):
            na.append(dict(property=p["id"], reason="check under construction"))
            continue
        checks.append(dict(
            property=p["id"], quick_cmd=f"./run.sh {p['id']} quick",
            thorough_cmd=f"./run.sh {p['id']} thorough", technique=p["technique"],
            level=p["level"], level_note=p["note"]))
    for i, r in NOT_APPLICABLE:
        na.append(dict(property=i, reason=r))
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
                   notes="tools/gen.py writes this file and properties.jsonl from tools/props.py"),
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not claimed")


main()
