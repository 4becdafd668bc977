#!/usr/bin/env python3
"""DESIGN.md from tools/design.md and the table of planted bugs (seeded/*/meta.json, tools/planted.txt: '<id> <caught|missed> <note>')."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = {}
for l in open(os.path.join(V, "tools/planted.txt")):
    if l.strip():
        i, how, *n = l.strip().split(" ", 2)
        notes[i] = (how, n[0] if n else "")
out = [open(os.path.join(V, "tools/design.md")).read().rstrip(), "", "| change | property | needs | result |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    how, n = notes.get(d, ("?", ""))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {how}{' (' + n + ')' if n else ''} |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
