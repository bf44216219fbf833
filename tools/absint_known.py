"""known_findings.json entries of T01 and T02 from data/absint_known.json"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHY = {
    "aten.conv1d": "unbatched input", "aten.conv1d.padding": "unbatched input", "aten.conv_transpose1d": "unbatched input",
    "aten.conv_transpose2d.input": "unbatched input", "aten.conv_transpose3d.input": "unbatched input",
    "aten.fft_fft": "n is ignored", "aten.fft_ifft": "n is ignored", "aten.fft_rfft": "n is ignored",
    "aten.max_pool3d": "the stride left out is that of the first kernel extent",
    "aten.max_pool1d_with_indices": "dilation is ignored", "aten.grid_sampler": "5-d input",
    "aten.any.dims": "an empty list of dimensions", "prims.prod": "an empty list of dimensions",
}
d = json.load(open(f"{V}/data/absint_known.json"))
k = json.load(open(f"{V}/known_findings.json"))
k["findings"] = [f for f in k["findings"] if f["property"] not in ("T01", "T02")]
for kind, pid in (("shape", "T01"), ("dtype", "T02")):
    for t, e in sorted(d[kind].items()):
        if e["wrong"]:
            n = len(e["wrong"]) // 8
            why = f" ({WHY[t]})" if kind == "shape" and t in WHY else ""
            k["findings"].append({"property": pid, "key": f"wrong:{t}",
                                  "what": f"the {kind} function of {t} differs from PyTorch{why} on the {n} calls listed "
                                          f"in data/absint_known.json, e.g. {e['example_wrong']}"})
json.dump(k, open(f"{V}/known_findings.json", "w"), indent=1)
open(f"{V}/known_findings.json", "a").write("\n")
