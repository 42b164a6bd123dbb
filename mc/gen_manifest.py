#!/usr/bin/env python3
"""Writes MANIFEST.json from props.PROPS and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, build
ids = [json.loads(l)["id"] for l in open(f"{build.VERIF}/properties.jsonl")]
checks, na = [], []
for i in ids:
    p = props.PROPS.get(i)
    if p:
        checks.append({"property": i, "quick_cmd": f"python3 mc/run.py {i} --tier quick", "thorough_cmd": f"python3 mc/run.py {i} --tier thorough",
                       "technique": p.get("technique", "explicit-state model checking of the real code: bounded exhaustive exploration of call sequences with exact state matching, against an executable reference model"),
                       "level": p.get("level", "model_checking"),
                       "level_note": p.get("level_note", "Every execution within the bounds listed in the evidence file is run on the real library code and compared with the reference model; nothing is claimed beyond the bounds. Trusts the reference model in harness/ref*.hpp (an independent transcription of the specifications), the compiler and the CPU.")})
    else:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 mc/setup.py", "hooks": {"guard": "XKCP_MC", "enable": "no hook is needed: the checks compile the unmodified sources and take control from outside (guard pages, single stepping, symbol wrapping at link time)", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Model checking of the real code. mc/run.py builds from /repo's working tree into /verif/build (ignored by git). See DESIGN.md."},
          open(f"{build.VERIF}/MANIFEST.json", "w"), indent=1)
