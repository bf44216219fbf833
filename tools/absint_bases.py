"""data/absint_bases.json: the base calls of every operator the library has a function for"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import absint as A  # noqa: E402

funcs, invs = A.load_python()
from mc import absint_calls as C  # noqa: E402

d = {}
for o in C.operators(funcs, invs):
    if o.op is not None:
        b = C.find_bases(o, C.MOST)
        d[o.name] = [[C.enc(c), dev] for c, dev in b]
        assert [(tuple(C.dec(c)), v) for c, v in d[o.name]] == b or "nan" in repr(b), o.title
with open(C.BASES, "w") as f:
    f.write("{\n" + ",\n".join(json.dumps(k) + ": " + json.dumps(v) for k, v in sorted(d.items())) + "\n}\n")
print(len(d), "operators", sum(map(len, d.values())), "base calls")
