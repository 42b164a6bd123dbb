#!/usr/bin/env python3
"""Completes DESIGN.md: the bounds of every check are taken from props.py so that they cannot drift apart."""
import os, re, sys
sys.path.insert(0, os.path.dirname(__file__))
import props
p = os.path.join(os.path.dirname(__file__), "..", "DESIGN.md")
s = open(p).read()
out = []
for k, v in sorted(props.PROPS.items()):
    b = v["bounds"]
    if isinstance(b, str): b = {"quick": b}
    out.append(f"**{k}** quick: {b['quick']}.")
    if b.get("thorough"): out.append(f"  Thorough: {b['thorough']}.")
    out.append("")
s = re.sub(r"(<!-- bounds -->\n).*?(<!-- end of bounds -->)", lambda m: m.group(1) + "\n".join(out) + m.group(2), s, flags=re.S)
import glob, json
rows = []
for d in sorted(glob.glob(os.path.join(os.path.dirname(p), "seeded", "*")) + glob.glob(os.path.join(os.path.dirname(p), "planted-elsewhere", "*"))):
    m = json.load(open(d + "/meta.json"))
    rows.append(f"| {'/'.join(d.split('/')[-2:])} | {m['property']} | needs {m['needs']}: {m['what_it_breaks']} | {m['property']} |")
s = re.sub(r"(<!-- planted -->\n).*?(<!-- end of planted -->)", lambda m: m.group(1) + "\n".join(["| bug | property | what | caught by |", "|---|---|---|---|"] + rows) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
