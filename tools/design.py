"""Assembles DESIGN.md from notes/design_head.md, notes/d/<ID>.md and notes/design_tail.md"""
import glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(f"{V}/notes/design_head.md").read()
import json
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
for p in props:
    f = f"{V}/notes/d/{p['id']}.md"
    out += f"### {p['id']} — {p['title']}\n\n" + (open(f).read() if os.path.exists(f) else "(in progress)\n") + "\n"
rows = ""
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(d))
    cut = lambda t: " ".join((t if isinstance(t, str) else "; ".join(t)).split()).replace("|", "/")[:160]
    rows += f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {cut(m['needs'])} | {m.get('caught_by', m['property'])} |\n"
out += open(f"{V}/notes/design_tail.md").read().replace("SEEDS\n", rows)
open(f"{V}/DESIGN.md", "w").write(out)
