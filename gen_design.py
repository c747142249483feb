"""Writes DESIGN.md from design/head.md, meta.py, the checks' BOUNDS/ASSUMPTIONS, design/tail.md and the planted bugs."""
import glob
import importlib
import json
import os
import sys

sys.path.insert(0, os.environ.get("MC_REPO", "/repo"))
import meta  # noqa: E402

out = open("design/head.md").read()
for p in meta.PROPS:
    out += f"### {p['id']}  {p['title']}\n\n{p['statement']}\n\n"
    if "na" in p:
        out += f"*Not applicable:* {p['na']}\n\n"
        continue
    m = importlib.import_module("mc.checks." + p["id"].lower())
    out += f"*Why tests cannot settle it:* {p['why']}. *Quantifies over:* {p['quant']}.\n\n"
    out += f"*Technique:* {p['technique']}.\n\n*Quick bounds:* {m.BOUNDS('quick')}.\n\n"
    if m.BOUNDS("thorough") != m.BOUNDS("quick"):
        out += f"*Thorough bounds:* {m.BOUNDS('thorough')}.\n\n"
    out += "*Oracle and assumptions:* " + "; ".join(m.ASSUMPTIONS) + f". {p['note']}\n\n"
    ev = f"evidence/{p['id']}.json"
    if os.path.exists(f"design/cost/{p['id']}"):
        out += f"*Cost:* {open(f'design/cost/{p['id']}').read().strip()}\n\n"
out += open("design/tail.md").read()
notes = json.load(open("design/seeded.json"))
out += "| bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n"
for d in sorted(glob.glob("seeded/*/meta.json")):
    b = d.split("/")[1]
    m = json.load(open(d))
    out += f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {notes.get(b, 'by ' + m['property'])} |\n"
open("DESIGN.md", "w").write(out)
print(len(out), "characters")
