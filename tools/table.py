#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json; what became of a bug at first is in tools/notes.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(here + "/tools/notes.json"))
rows = ["| bug | property | needs | quick check of that property |", "| --- | --- | --- | --- |"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d, i = json.load(open(f)), f.split("/")[-2]
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {notes.get(i, 'caught')} |")
t = open(here + "/DESIGN.md").read()
t = re.sub(r"\| bug \| property \|.*?(\n(?!\|)|\Z)", lambda m: "\n".join(rows) + "\n" + m.group(1).lstrip("\n") if False else "\n".join(rows) + "\n", t, flags=re.S)
open(here + "/DESIGN.md", "w").write(t)
