#!/usr/bin/env python3
"""Nothing to prepare: every check builds what it needs.  This only makes sure that the tools are there."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
os.makedirs(build.BUILD, exist_ok=True)
missing = [t for t in ("gcc", "g++", "ninja") if not shutil.which(t)]
if missing:
    sys.exit(f"missing tools: {missing}")
print("runnable targets:", " ".join(t for t in build.X86 if build.runs_here(t)))
