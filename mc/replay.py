#!/usr/bin/env python3
"""Replays a recorded violation:  replay.py replays/C01-0.json
Rebuilds the harnesses of the property against /repo's current tree and runs the recorded scenario alone."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, props

r = json.load(open(sys.argv[1]))
nin = build.Ninja(f"{r['property']}-replay")
for u in props.PROPS[r["property"]]["units"](r["tier"]):
    if f"{u['src']}{u.get('variant', '')}/{u['tool']}/{u['target']}" != r["harness"]:
        continue
    kw = {k: u[k] for k in ("variant", "hflags", "lflags", "extra_flags", "opt", "cxx", "keep", "shared") if k in u}
    if "pre" in u:
        kw["objs_extra"] = u["pre"](nin)
    nin.harness(u["src"], u["tool"], u["target"], u["high"], **kw)
nin.run()
p = subprocess.run(r["cmd"], cwd=build.BUILD, stdout=subprocess.PIPE, text=True)
print(p.stdout, end="")
sys.exit(1 if "FAIL " in p.stdout or p.returncode < 0 else 0)
